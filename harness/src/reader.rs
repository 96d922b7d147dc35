//! C03 no crash, C04 strictness, C05 advance, C06 order, C19 header, C20 line numbers.
use crate::refm::{self, Ent};
use crate::sx;
use crate::util::*;
use dir_signature::v1::{merge::MergedSignatures, Emitter, EntryKind, Parser};
use std::cmp::Ordering;

fn targets(i: usize) -> (bool, &'static [u8]) {
    [(true, &b"/"[..]), (false, b"/a"), (true, b"/b"), (false, b"/b/a"), (false, b"/a/b"), (true, b"/a/b")][i]
}

/// Free bytes at one of several places of an index, read by any mix of next and advance, alone or merged.
#[no_mangle] pub extern "C" fn c03_bytes() {
    let n = sx::choose("len", sx::param("len") + 1);
    let place = sx::choose("place", 7);
    let free = sx::vec("bytes", n);
    let mut t = Vec::new();
    if place > 0 { t = header(0, 2); }
    t.extend_from_slice(match place { 0 | 1 => b"", 2 => b"/\n", 3 => b"  ", 4 => b"/\n  a ", 5 => b"/\n  a f ", _ => b"/a\n  b s " });
    t.extend_from_slice(&free);
    match sx::choose("tail", 3) {
        0 => {}
        1 => t.push(b'\n'),
        _ => { t.extend_from_slice(b" 1 "); t.extend(hex64(1)); t.extend_from_slice(b"\n/c\n"); t = with_footer(t); }
    }
    read_any(&t);
}
/// Numbers whose last digits are arbitrary (alone, or after a prefix near the limits) as size and as block size.
#[no_mangle] pub extern "C" fn c03_numbers() {
    let prefixes: [&[u8]; 7] = [b"", b"000000000000000000", b"9223372036854775", b"1844674407370955", b"99999999999999999", b"184467440737095516", b"100000"];
    let bsl: [&[u8]; 10] = [b"0", b"1", b"2", b"3", b"32768", b"1000000007", b"9223372036854775807", b"9223372036854775808", b"18446744073709551614", b"18446744073709551615"];
    let mut t = b"DIRSIGNATURE.v1 sha512/256 block_size=".to_vec();
    let symbolic_bs = sx::flag("symbolic block size");
    let other = bsl[sx::choose("other", bsl.len())];
    let mut d = prefixes[sx::choose("prefix", prefixes.len())].to_vec();
    let n = 1 + sx::choose("ndigits", sx::param("digits"));
    d.extend(digits("digits", n));
    if symbolic_bs { t.extend_from_slice(&d) } else { t.extend_from_slice(other) }
    t.extend_from_slice(b"\n/\n  a f ");
    if symbolic_bs { t.extend_from_slice(other) } else { t.extend_from_slice(&d) }
    for i in 0..sx::choose("hashes", 3) { t.push(b' '); t.extend(hex64(i as u8)); }
    t.push(b'\n');
    let t = with_footer(t);
    let mut p = match Parser::new(&t[..]) { Ok(p) => p, Err(_) => { sx::cover("header refused"); return } };
    drain(&mut p, t.len());
}
pub fn digits(name: &str, n: usize) -> Vec<u8> {
    let v = sx::vec(name, n);
    for b in &v { sx::assume(*b >= b'0' && *b <= b'9'); }
    v
}
fn drain(p: &mut Parser<&[u8]>, size: usize) {
    let mut n = 0;
    for e in p.iter() {
        if let Ok(e) = e { sx::cover("entry"); let _ = e.kind().cmp(&EntryKind::Dir(path(b"/"))); } else { sx::cover("error"); }
        n += 1;
        if n > size + 1 { sx::fail("C03: iteration does not end") }
    }
    sx::cover("end");
}
fn read_any(t: &[u8]) {
    let mut p = match Parser::new(t) { Ok(p) => p, Err(_) => { sx::cover("header refused"); return } };
    if sx::flag("merged") {
        let other = with_footer(b"DIRSIGNATURE.v1 sha512/256 block_size=2\n/\n  a s x\n/b\n".to_vec());
        let q = open(&other);
        let v = if sx::flag("swapped") { vec![(1, q), (0, p)] } else { vec![(0, p), (1, q)] };
        let mut m = match MergedSignatures::new(v) { Ok(m) => m, Err(_) => return };
        let mut it = m.iter();
        for _ in 0..sx::param("ops") {
            match sx::choose("op", 1 + sx::param("targets")) {
                0 => { if let Some(v) = it.next() { sx::check(v.len() <= 2, "C03: group too large"); } }
                i => { let (d, k) = targets(i - 1); sx::check(it.advance(&kind(d, k)).len() <= 2, "C03: group too large"); }
            }
        }
        let mut n = 0;
        while let Some(_) = it.next() { n += 1; if n > t.len() + 8 { sx::fail("C03: merged iteration does not end") } }
        sx::cover("merged end");
        return;
    }
    {
        let mut it = p.iter();
        for _ in 0..sx::param("ops") {
            let r = match sx::choose("op", 1 + sx::param("targets")) {
                0 => it.next(),
                i => { let (d, k) = targets(i - 1); it.advance(&kind(d, k)) }
            };
            if let Some(Ok(e)) = r { sx::cover("op entry"); let _ = e.kind().cmp(&EntryKind::Dir(path(b"/"))); }
        }
        let mut n = 0;
        while let Some(_) = it.next() { n += 1; if n > t.len() + 1 { sx::fail("C03: iteration does not end") } }
    }
    sx::cover("end");
}

fn template(i: usize) -> (u64, Vec<u8>) {
    let mut v = Vec::new();
    match i {
        0 => v.extend_from_slice(b"/\n  ab f 0\n/c\n"),
        1 => { v.extend_from_slice(b"/\n  a x 3 "); v.extend(hex64(1)); v.push(b' '); v.extend(hex64(2)); v.push(b'\n'); }
        2 => v.extend_from_slice(b"/\n  a s b\n  c s \\x41\n"),
        _ => v.extend_from_slice(b"/a\\x20b\n  d f 0\n"),
    }
    (2, with_footer(v))
}
/// A template index in which a window is replaced by `w` symbolic bytes (more, fewer or as many as removed).
#[no_mangle] pub extern "C" fn c04_window() {
    let (bs, d) = window(sx::param("template"));
    compare_body(0, bs, &d);
}
/// Such an index read in any way.
#[no_mangle] pub extern "C" fn c03_window() {
    let n = sx::choose("template", 4);
    let (bs, d) = window(n);
    let mut t = header(0, bs);
    t.extend_from_slice(&d);
    read_any(&t);
}
fn window(n: usize) -> (u64, Vec<u8>) {
    let (bs, t) = template(n);
    let w = sx::choose("window", sx::param("w") + 1);
    let del = sx::choose("removed", sx::param("w") + 1);
    let step = sx::param("hexstep");
    let mut places: Vec<usize> = Vec::new();
    // long runs of hash digits are sampled at their ends and every `step` digits
    let hexrun = |i: usize| { let r = |j: usize| j < t.len() && t[j] != b'\n' && t[j] != b' '; let mut a = i; while a > 0 && r(a - 1) && r(i) { a -= 1 } let mut b = i; while r(b) { b += 1 } if b > a && b - a == 64 { Some((a, b)) } else { None } };
    for i in 0..=t.len() {
        match hexrun(i) { Some((a, b)) if i > a + 2 && i + 3 < b && (i - a) % step != 0 => {} _ => places.push(i) }
    }
    let at = places[sx::choose("place", places.len())];
    if at + del > t.len() { sx::reject() }
    let free = sx::vec("bytes", w);
    let mut d = t[..at].to_vec();
    d.extend_from_slice(&free);
    d.extend_from_slice(&t[at + del..]);
    (bs, d)
}
pub fn compare_body(ht: usize, bs: u64, d: &[u8]) {
    let mut all = header(ht, bs);
    all.extend_from_slice(d);
    let (want, end) = refm::body(d, bs);
    let mut p = open(&all);
    let mut it = p.iter();
    for w in &want {
        match it.next() {
            Some(Ok(e)) => sx::check(same(&e, w, ht, bs), "C04: an accepted line yields other values than it states"),
            Some(Err(_)) => sx::fail("C04: a well-formed line is refused"),
            None => sx::fail("C04: reading ends before a well-formed entry"),
        }
    }
    match (it.next(), end) {
        (None, Ok(())) => { sx::cover("accepted"); sx::log("entries", &[want.len() as u8]); }
        (Some(Err(_)), Err(_)) => { sx::cover("refused"); sx::log("refused after", &[want.len() as u8]); }
        (Some(Ok(_)), _) => sx::fail("C04: a malformed line is accepted as an entry"),
        (None, Err(_)) => sx::fail("C04: a malformed file ends without an error"),
        (Some(Err(_)), Ok(())) => sx::fail("C04: a well-formed footer is refused"),
    }
}

/// A sorted list of `n` entries with symbolic names (one byte per component, any byte that is written as itself).
pub fn sorted(tag: &str, n: usize) -> Vec<Ent> {
    let mut v: Vec<Ent> = vec![];
    let mut cur = b"/".to_vec();
    for i in 0..n {
        if i == 0 && !sx::flag(tag) { v.push(Ent::Dir(cur.clone())); continue }
        let b: u8 = sx::byte(tag);
        sx::assume(b > 0x20 && b < 0x7f && b != b'/' && b != b'\\' && b != b'.');
        let k = if i == 0 { 1 } else { sx::choose(tag, 3) };
        match k {
            0 => v.push(Ent::Link(refm::join(&cur, &[b]), b"x".to_vec())),
            1 => { cur = vec![b'/', b]; v.push(Ent::Dir(cur.clone())); }
            _ => { if cur.len() > 2 { cur.truncate(2) } cur = refm::join(&cur, &[b]); v.push(Ent::Dir(cur.clone())); }
        }
        if i > 0 {
            let (a, b) = (&v[i - 1], &v[i]);
            sx::assume(refm::order(a.is_dir(), a.path(), b.is_dir(), b.path()) == Ordering::Less);
        }
    }
    v
}
/// The index text of such a list (names need no escaping).
pub fn render(v: &[Ent]) -> Vec<u8> {
    let mut t = header(0, 32768);
    for e in v {
        match e {
            Ent::Dir(p) => t.extend_from_slice(p),
            Ent::Link(p, d) => { t.extend_from_slice(b"  "); t.push(p[p.len() - 1]); t.extend_from_slice(b" s "); t.extend_from_slice(d); }
            _ => {}
        }
        t.push(b'\n');
    }
    with_footer(t)
}
/// A symbolic target: kind and path of one or two components.
pub fn target() -> (bool, Vec<u8>) {
    let dir = sx::flag("target dir");
    let mut p = b"/".to_vec();
    let n = sx::choose("target depth", 3);
    if n == 0 { if !dir { sx::reject() } return (dir, p) }
    let b = sx::vec("target", n);
    for x in &b { sx::assume(*x > 0x20 && *x < 0x7f && *x != b'/' && *x != b'\\' && *x != b'.'); }
    p.push(b[0]);
    if n == 2 { p.push(b'/'); p.push(b[1]); }
    (dir, p)
}
#[no_mangle] pub extern "C" fn c05_advance() {
    let list = sorted("entry", sx::choose("entries", sx::param("entries") + 1));
    let t = render(&list);
    let mut p = open(&t);
    let mut it = p.iter();
    let mut pos = 0;
    for _ in 0..sx::param("ops") {
        if sx::flag("advance") {
            let (d, k) = target();
            let mut hit = false;
            while pos < list.len() {
                let e = &list[pos];
                match refm::order(e.is_dir(), e.path(), d, &k) {
                    Ordering::Less => pos += 1,
                    Ordering::Equal => { hit = true; break }
                    Ordering::Greater => break,
                }
            }
            match it.advance(&kind(d, &k)) {
                Some(Ok(e)) => {
                    if !hit { sx::fail("C05: advance returned an entry that is not wanted or not ahead") }
                    sx::check(same(&e, &list[pos], 0, 32768), "C05: advance returned another entry than the wanted one");
                    pos += 1;
                    sx::cover("hit");
                }
                None => { if hit { sx::fail("C05: advance missed the wanted entry") } sx::cover("miss"); }
                Some(Err(_)) => sx::fail("C05: advance failed on a valid index"),
            }
        } else { step(&mut it, &list, &mut pos, "next"); }
    }
    while pos < list.len() { step(&mut it, &list, &mut pos, "rest"); }
    step(&mut it, &list, &mut pos, "end");
    sx::log("pos", &[pos as u8]);
}
fn step(it: &mut dir_signature::v1::EntryIterator<'_, &[u8]>, list: &[Ent], pos: &mut usize, what: &str) {
    match it.next() {
        Some(Ok(e)) => {
            if *pos >= list.len() { sx::fail("C05: an entry is repeated") }
            sx::check(same(&e, &list[*pos], 0, 32768), "C05: next skips, repeats or reorders entries");
            *pos += 1;
            sx::cover(what);
        }
        None => { if *pos < list.len() { sx::fail("C05: next lost an entry") } sx::cover("end"); }
        Some(Err(_)) => sx::fail("C05: next failed on a valid index"),
    }
}

/// A symbolic absolute path of up to `len` bytes after the slash; files must have a name.
pub fn any_kind(tag: &str) -> (bool, Vec<u8>) {
    let n = sx::choose(tag, sx::param("len") + 1);
    let dir = sx::flag(tag);
    let mut p = b"/".to_vec();
    let b = sx::vec(tag, n);
    p.extend_from_slice(&b);
    // valid paths as an index lists them: components separated by single slashes, none of them '.' or '..'
    for i in 0..=n { sx::assume(i == 0 && n == 0 || if i == 0 { b[0] != b'/' } else if i == n { b[n - 1] != b'/' } else { !(b[i - 1] == b'/' && b[i] == b'/') }); }
    for i in 0..n {
        let st = i == 0 || b[i - 1] == b'/';
        let en1 = i + 1 == n || b[i + 1] == b'/';
        sx::assume(!(st & en1 & (b[i] == b'.')));
        if i + 1 < n { let en2 = i + 2 == n || b[i + 2] == b'/'; sx::assume(!(st & en2 & (b[i] == b'.') & (b[i + 1] == b'.'))); }
    }
    if n == 0 && !dir { sx::reject() }
    (dir, p)
}
fn ord(o: Ordering) -> u8 { match o { Ordering::Less => 0, Ordering::Equal => 1, Ordering::Greater => 2 } }
#[no_mangle] pub extern "C" fn c06_pair() {
    let (da, a) = any_kind("a");
    let (db, b) = any_kind("b");
    let (ka, kb) = (kind(da, &a), kind(db, &b));
    let o = ka.cmp(&kb);
    sx::check(o == refm::order(da, &a, db, &b), "C06: the order of two kinds is not the index order");
    sx::check(kb.cmp(&ka) == o.reverse(), "C06: comparison is not antisymmetric");
    sx::check((o == Ordering::Equal) == (da == db && sx::eq(&a, &b)), "C06: comparison disagrees with equality of kind and path");
    sx::check((ka == kb) == (o == Ordering::Equal), "C06: comparison disagrees with ==");
    sx::check(ka.partial_cmp(&kb) == Some(o), "C06: partial_cmp disagrees with cmp");
    sx::cover(["less", "equal", "greater"][ord(o) as usize]);
    sx::log("order", &[ord(o)]);
}
#[no_mangle] pub extern "C" fn c06_triple() {
    let (da, a) = any_kind("a");
    let (db, b) = any_kind("b");
    let (dc, c) = any_kind("c");
    let (ka, kb, kc) = (kind(da, &a), kind(db, &b), kind(dc, &c));
    let (x, y) = (ka.cmp(&kb), kb.cmp(&kc));
    if x != Ordering::Greater && y != Ordering::Greater {
        let z = ka.cmp(&kc);
        sx::check(z != Ordering::Greater && (z == Ordering::Equal) == (x == Ordering::Equal && y == Ordering::Equal), "C06: comparison is not transitive");
        sx::cover("chain");
    }
}

#[no_mangle] pub extern "C" fn c19_emit() {
    let ht = sx::choose("hash", 3);
    let bs = crate::names::bounded(1 + sx::choose("digits", sx::param("digits")));
    let mut out = Vec::new();
    if Emitter::new(refm::hash_type(ht), bs, &mut out).is_err() { sx::fail("C19: emitter refuses to write to memory") }
    sx::check(sx::eq(&out, &header(ht, bs)), "C19: the emitted header line is not the documented one");
    match Parser::new(&out[..]) {
        Ok(p) => {
            let h = p.get_header();
            sx::check(h.get_version() == "v1", "C19: version differs");
            sx::check(h.get_hash_type() == refm::hash_type(ht), "C19: hash type differs");
            sx::check(h.get_block_size() == bs, "C19: block size differs");
            sx::cover("round trip");
        }
        Err(_) => sx::fail("C19: an emitted header is refused"),
    }
}
/// A header with a symbolic window; refused or read exactly as the fields say.
#[no_mangle] pub extern "C" fn c19_parse() {
    let ht = sx::choose("hash", 3);
    let mut t = header(ht, 40);
    t.pop();
    if sx::flag("more pairs") { t.extend_from_slice(b" k=v"); }
    let w = 1 + sx::choose("window", sx::param("w"));
    let del = sx::choose("removed", sx::param("w") + 1);
    let at = sx::choose("place", t.len() + 1);
    if at + del > t.len() { sx::reject() }
    let free = sx::vec("bytes", w);
    // bytes that separate fields or lines, and non-ASCII text, are out of scope here (C03 covers them)
    for b in &free { sx::assume(*b > 0x20 && *b < 0x7f); }
    let mut d = t[..at].to_vec();
    d.extend_from_slice(&free);
    d.extend_from_slice(&t[at + del..]);
    let want = header_ref(&d);
    d.push(b'\n');
    match (Parser::new(&d[..]), want) {
        (Ok(p), Some((h, b))) => {
            let g = p.get_header();
            sx::check(g.get_version() == "v1", "C19: version differs");
            sx::check(g.get_hash_type() == refm::hash_type(h), "C19: hash type differs");
            sx::check(g.get_block_size() == b, "C19: block size differs");
            sx::cover("accepted");
        }
        (Err(_), None) => sx::cover("refused"),
        (Ok(_), None) => sx::fail("C19: a header with an unknown field is accepted"),
        (Err(_), Some(_)) => sx::fail("C19: a valid header is refused"),
    }
}
fn header_ref(d: &[u8]) -> Option<(usize, u64)> {
    let mut f = d.split(|b| *b == b' ').filter(|x| !x.is_empty());
    if f.next()? != b"DIRSIGNATURE.v1" { return None }
    let h = f.next()?;
    let ht = refm::HASHES.iter().position(|x| x.as_bytes() == h)?;
    let b = f.next()?;
    if b.len() <= 11 || &b[..11] != b"block_size=" { return None }
    let mut v = 0u64;
    for c in &b[11..] {
        if *c < b'0' || *c > b'9' { return None }
        v = v.checked_mul(10)?.checked_add((*c - b'0') as u64)?;
    }
    if v == 0 { None } else { Some((ht, v)) }
}

/// A bad line (of several kinds) anywhere in a list of good ones; every mix of next and advance.
#[no_mangle] pub extern "C" fn c20_lines() {
    let n = 1 + sx::choose("lines", sx::param("lines"));
    let good: [&[u8]; 6] = [b"/", b"  b s x", b"  d s x", b"/f", b"  h s x", b"/j"];
    let paths: [(bool, &[u8]); 6] = [(true, b"/"), (false, b"/b"), (false, b"/d"), (true, b"/f"), (false, b"/f/h"), (true, b"/j")];
    let bad = sx::choose("bad at", n + 1);
    let mut t = header(0, 32768);
    let kindb = sx::choose("bad kind", 5);
    let mut trunc = false;
    for i in 0..n {
        if i == bad {
            match kindb {
                0 => t.extend_from_slice(b"junk"),
                1 => t.extend_from_slice(b"  x f zz"),
                2 => { let b = sx::byte("type"); sx::assume(b != b'f' && b != b'x' && b != b's' && b != b' ' && b != b'\n'); t.extend_from_slice(b"  x "); t.push(b); t.extend_from_slice(b" q"); }
                3 => { t.extend(hex64(4)); } // a footer with lines after it
                _ => { t.extend_from_slice(b"  tt s u"); trunc = true; break } // file ends without newline
            }
            t.push(b'\n');
        }
        t.extend_from_slice(good[i]);
        t.push(b'\n');
    }
    if bad == n { sx::assume(kindb == 4); trunc = true; if sx::flag("partial") { t.extend_from_slice(b"/zz"); } }
    if !trunc { t = with_footer(t); }
    let bad_line = 2 + bad;
    let mut p = open(&t);
    let mut it = p.iter();
    let mut pos = 0; // index of the next good line
    let mut seen = 0;
    for _ in 0..sx::param("ops") {
        let before = pos;
        let r = match sx::choose("op", 1 + sx::param("targets")) {
            0 => { if !(pos == bad && seen == 0) && pos < n { pos += 1 } it.next() }
            k => {
                let (d, x) = [(true, &b"/"[..]), (false, b"/d"), (true, b"/g"), (false, b"/zzz/z"), (false, b"/a")][k - 1];
                let mut stop = false;
                while !stop {
                    if pos == bad && seen == 0 || pos >= n { break }
                    match refm::order(paths[pos].0, paths[pos].1, d, x) { Ordering::Less => pos += 1, Ordering::Equal => { pos += 1; stop = true } Ordering::Greater => stop = true }
                }
                it.advance(&kind(d, x))
            }
        };
        match r {
            Some(Err(e)) => {
                if pos > bad { sx::fail("C20: an error where the line is well-formed") }
                match error_line(&e) {
                    None => sx::fail("C20: a parse error names no line"),
                    Some(l) => { sx::log("line", &[l as u8]); sx::check(l == bad_line, "C20: a parse error names another line") }
                }
                seen += 1;
                sx::cover("error");
                // whatever follows a reported error is outside this property, except that the bad line is never an entry
                for _ in 0..3 {
                    match it.next() {
                        Some(Ok(e)) => { let b = pbytes(e.path()).to_vec(); sx::check(!b.ends_with(b"/x") && !b.ends_with(b"/tt") && !b.starts_with(b"/zz"), "C20: a line reported as an error is returned as an entry") }
                        Some(Err(e)) => match error_line(&e) { None => sx::fail("C20: a parse error names no line"), Some(l) => if trunc { sx::check(l == bad_line, "C20: a repeated parse error names another line") } },
                        None => {}
                    }
                }
                return;
            }
            Some(Ok(e)) => {
                let b = pbytes(e.path()).to_vec();
                if pos == before || pbytes(e.path()) != paths[pos - 1].1 { sx::fail("C20: unexpected entry") }
                sx::check(!b.ends_with(b"/x") && !b.ends_with(b"/tt"), "C20: a malformed line is returned as an entry");
                sx::cover("entry");
            }
            None => { if pos == bad && seen == 0 { sx::fail("C20: a malformed line is passed over") } }
        }
    }
}
