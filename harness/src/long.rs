//! The same guarantees where counters, buffers and tables are large: long names, many hashes, many indices,
//! many lines, deep and wide trees, files of several copy steps.
use crate::hashes::{Src};
use crate::merge::{match_group, next_group, parsers, text_of};
use crate::posix::{self, Node, World, DIR, FILE, LINK};
use crate::reader::{compare_body, digits};
use crate::refm::{self, Ent};
use crate::scan::{config, expected, index, sched, Sched};
use crate::sx;
use crate::util::*;
use dir_signature::v1::merge::{MergeError, MergedSignatures};
use dir_signature::v1::{self, Emitter, Entry, Hashes};
use std::cmp::Ordering;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;

pub const COUNTS: [usize; 24] = [3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 1025];
/// One of the counts up to the parameter `most`.
fn count(name: &str) -> usize { counts(name, 0) }
/// One of them from `least` on.
fn counts(name: &str, least: usize) -> usize { let c: Vec<usize> = COUNTS.iter().cloned().filter(|c| *c >= least && *c <= sx::param("most")).collect(); c[sx::choose(name, c.len())] }
/// The first, a middle or the last of n places, or one at a power of two.
fn place(name: &str, n: usize) -> usize {
    let all = [0, n / 2, n - 1, 8, 16, 32, 64, 128, 256];
    let k = sx::choose(name, all.len());
    let p = all[k];
    if p >= n || all[..k].contains(&p) { sx::reject() }
    p
}

/// C01: a long name with a free byte at either end or in the middle.
#[no_mangle] pub extern "C" fn c01_long() {
    let lens = [15usize, 16, 17, 31, 32, 33, 63, 64, 65, 84, 85, 86, 127, 128, 129, 254, 255, 256, 257, 341, 342, 511, 512, 513, 1023, 1024, 1025, 4095, 4096];
    let n = lens[sx::choose("len", lens.iter().filter(|c| **c <= sx::param("most")).count())];
    let filler = [b'a', 0x80, b'\\', b' '][sx::choose("filler", sx::param("fillers"))];
    let where_ = sx::choose("place", 3);
    let at = [0, n / 2, n - 1][sx::choose("at", 3)];
    let mut name = vec![filler; n];
    name[at] = sx::byte("byte");
    if where_ < 2 { sx::assume(name[at] != b'/'); }
    let mut out = Vec::new();
    let mut want = Vec::new();
    {
        let mut e = Emitter::new(refm::hash_type(0), 32768, &mut out).unwrap();
        let d = if where_ == 0 { refm::join(b"/", &name) } else { b"/".to_vec() };
        e.start_dir(path(&d)).unwrap();
        want.extend(refm::escape(&d));
        want.extend_from_slice(b"\n  ");
        let (a, b): (&[u8], &[u8]) = match where_ { 0 => (b"l", b"t"), 1 => (&name, b"t"), _ => (b"l", &name) };
        e.add_symlink(OsStr::from_bytes(a), path(b)).unwrap();
        want.extend(refm::escape(a));
        want.extend_from_slice(b" s ");
        want.extend(refm::escape(b));
        want.push(b'\n');
        e.finish().unwrap();
    }
    let h = header(0, 32768).len();
    sx::check(out.len() == h + want.len() + 65 && sx::eq(&out[h..h + want.len()], &want), "C01: a long name is not written in the documented escaped form");
    let at = out.len() - 65;
    out[at..at + 64].copy_from_slice(&hex64(9));
    let mut p = open(&out);
    let mut it = p.iter();
    let d = match it.next() { Some(Ok(Entry::Dir(p))) => p, _ => sx::fail("C01: a written name is not read back") };
    let (l, t) = match it.next() { Some(Ok(Entry::Link(p, t))) => (p, t), _ => sx::fail("C01: a written name is not read back") };
    let dir = if where_ == 0 { refm::join(b"/", &name) } else { b"/".to_vec() };
    sx::check(sx::eq(pbytes(&d), &dir), "C01: a long directory path read back differs");
    sx::check(sx::eq(pbytes(&l), &refm::join(&dir, if where_ == 1 { &name } else { b"l" })), "C01: a long file name read back differs");
    sx::check(sx::eq(pbytes(&t), if where_ == 2 { &name } else { b"t" }), "C01: a long link target read back differs");
    sx::cover("long");
}

/// C02: a file of many blocks, or a session of many entries, written and read back.
#[no_mangle] pub extern "C" fn c02_many() {
    let k = count("count");
    let ht = sx::choose("hash", 2);
    let at = place("at", k);
    let b = sx::byte("byte");
    let mut out = Vec::new();
    let mut lines = b"/\n".to_vec();
    let mut want = vec![Ent::Dir(b"/".to_vec())];
    let long = sx::flag("one long row");
    {
        let mut e = Emitter::new(refm::hash_type(ht), 1, &mut out).unwrap();
        e.start_dir(path(b"/")).unwrap();
        if long {
            let mut d: Vec<u8> = (0..k).map(|i| (i * 31 + 7) as u8).collect();
            d[at] = b;
            let (size, h) = match Hashes::hash_file(refm::hash_type(ht), 1, &d[..]) { Ok(x) => x, Err(_) => sx::fail("C02: hashing memory fails") };
            e.add_file(OsStr::new("f"), true, size, &h).unwrap();
            lines.extend_from_slice(b"  f x ");
            lines.extend(refm::dec(k as u64));
            let mut hb = Vec::new();
            for x in &d { let h = refm::hash(ht, &[*x]); lines.push(b' '); lines.extend(refm::hex(&h)); hb.extend_from_slice(&h); }
            lines.push(b'\n');
            want.push(Ent::File { path: b"/f".to_vec(), exe: true, size: k as u64, hashes: hb });
            sx::cover("long row");
        } else {
            sx::assume(b != b'/');
            sx::assume(b != b'.');
            for i in 0..k {
                let n = if i == at { vec![b, b'x'] } else { refm::dec(i as u64) };
                if i % 50 == 49 {
                    let d = refm::join(b"/", &n);
                    e.start_dir(path(&d)).unwrap();
                    lines.extend(refm::escape(&d));
                    want.push(Ent::Dir(d));
                } else {
                    let dir = want.iter().rev().find(|e| e.is_dir()).unwrap().path().to_vec();
                    e.add_symlink(OsStr::from_bytes(&n), path(b"t")).unwrap();
                    lines.extend_from_slice(b"  ");
                    lines.extend(refm::escape(&n));
                    lines.extend_from_slice(b" s t");
                    want.push(Ent::Link(refm::join(&dir, &n), b"t".to_vec()));
                }
                lines.push(b'\n');
            }
            sx::cover("long session");
        }
        if e.finish().is_err() { sx::fail("C02: finish fails on memory") }
    }
    let mut text = header(ht, 1);
    text.extend_from_slice(&lines);
    text.extend(refm::hex(&refm::hash(ht, &lines)));
    text.push(b'\n');
    sx::check(sx::eq(&out, &text), "C02: the emitted text is not the documented layout");
    let at = out.len() - 65;
    out[at..at + 64].copy_from_slice(&hex64(9));
    let mut p = open(&out);
    let mut it = p.iter();
    if long {
        // the digits were compared above; every symbolic one read back is a case split
        match (it.next(), it.next()) {
            (Some(Ok(Entry::Dir(_))), Some(Ok(Entry::File { size, hashes, .. }))) => sx::check(size == k as u64 && hashes.len() == k, "C02: an entry read back differs"),
            _ => sx::fail("C02: an emitted line is refused"),
        }
    } else {
        for w in &want { match it.next() { Some(Ok(e)) => sx::check(same(&e, w, ht, 1), "C02: an entry read back differs"), _ => sx::fail("C02: an emitted line is refused") } }
    }
    sx::check(it.next().is_none(), "C02: an extra entry is read back");
}

/// C04: a row with many hashes, or one too few or too many, a free byte at the edge of one of them.
#[no_mangle] pub extern "C" fn c04_many() {
    let k = count("count");
    let n = k + [0, 1][sx::choose("more", 2)] - sx::choose("less", 2);
    let bs = [1u64, 3, 1 << 40][sx::choose("block size", 3)];
    let size = bs * k as u64 - [0, bs - 1][sx::choose("last block", 2)];
    let mut d = b"/\n  f x ".to_vec();
    d.extend(refm::dec(size));
    let at = [0, n / 2, n - 1][sx::choose("at", 3)];
    for i in 0..n {
        d.push(b' ');
        let mut h = hex64(i as u8);
        if i == at { let j = [0, 63][sx::choose("digit", 2)]; h[j] = sx::byte("byte"); }
        d.extend(h);
    }
    d.extend_from_slice(b"\n/a\n");
    compare_body(0, bs, &with_footer(d));
}
/// C04: sizes and block sizes of every magnitude with the right number of hashes, and with others.
#[no_mangle] pub extern "C" fn c04_numbers() {
    let prefixes: [&[u8]; 9] = [b"", b"0", b"000000000000000000000", b"429496729", b"922337203685477580", b"1844674407370955", b"184467440737095516", b"99999999999999999", b"100000"];
    let bsl: [u64; 8] = [1, 2, 3, 32768, 1_000_000_007, (1 << 63) - 1, 1 << 63, u64::MAX];
    let bs = bsl[sx::choose("block size", bsl.len())];
    let mut d = b"/\n  a f ".to_vec();
    d.extend_from_slice(prefixes[sx::choose("prefix", prefixes.len())]);
    let n = 1 + sx::choose("ndigits", sx::param("digits"));
    d.extend(digits("digits", n));
    for i in 0..sx::choose("hashes", 4) { d.push(b' '); d.extend(hex64(i as u8)); }
    d.push(b'\n');
    compare_body(0, bs, &with_footer(d));
}

/// A sorted list with names of up to `len` bytes (any byte but NUL, '/' and '.'), up to `deep` components.
fn wide_sorted(tag: &str, n: usize, len: usize, deep: usize, wide: bool) -> Vec<Ent> {
    let mut v: Vec<Ent> = vec![Ent::Dir(b"/".to_vec())];
    let mut cur: Vec<Vec<u8>> = Vec::new();
    let full = |c: &[Vec<u8>]| { let mut p = Vec::new(); for x in c { p.push(b'/'); p.extend_from_slice(x); } if p.is_empty() { p.push(b'/') } p };
    for _ in 0..n {
        let nm = free_name(tag, len, wide);
        let up = cur.len().min(deep - 1);
        match sx::choose(tag, up + 2) {
            0 => v.push(Ent::Link(refm::join(&full(&cur), &nm), b"x".to_vec())),
            k => { cur.truncate(k - 1); cur.push(nm); v.push(Ent::Dir(full(&cur))); }
        }
        let (a, b) = (&v[v.len() - 2], &v[v.len() - 1]);
        sx::assume(refm::order(a.is_dir(), a.path(), b.is_dir(), b.path()) == Ordering::Less);
    }
    v
}
fn free_name(tag: &str, len: usize, wide: bool) -> Vec<u8> {
    let nm = sx::vec(tag, 1 + sx::choose(tag, len));
    for b in &nm { if wide { sx::assume(*b != b'/' && *b != b'.' && *b != 0) } else { sx::assume(*b > 0x20 && *b < 0x7f && *b != b'/' && *b != b'\\' && *b != b'.') } }
    nm
}
fn wide_render(v: &[Ent]) -> Vec<u8> {
    let mut t = header(0, 32768);
    for e in v {
        match e {
            Ent::Dir(p) => t.extend(refm::escape(p)),
            Ent::Link(p, d) => { let at = p.iter().rposition(|b| *b == b'/').unwrap() + 1; t.extend_from_slice(b"  "); t.extend(refm::escape(&p[at..])); t.extend_from_slice(b" s "); t.extend_from_slice(d); }
            _ => {}
        }
        t.push(b'\n');
    }
    with_footer(t)
}
fn wide_target(len: usize, deep: usize, wide: bool) -> (bool, Vec<u8>) {
    let dir = sx::flag("target dir");
    let n = 1 + sx::choose("target depth", deep);
    let mut p = Vec::new();
    for _ in 0..n { p.push(b'/'); p.extend(free_name("target", len, wide)); }
    (dir, p)
}
/// C05: names of several bytes, which may need escapes.
#[no_mangle] pub extern "C" fn c05_names() {
    let (len, deep, wide) = (sx::param("name"), sx::param("deep"), sx::param("wide") == 1);
    let list = wide_sorted("entry", sx::choose("entries", sx::param("entries") + 1), len, deep, wide);
    let t = wide_render(&list);
    let mut p = open(&t);
    let mut it = p.iter();
    let (d, k) = wide_target(len, deep, wide);
    let mut pos = 0;
    let mut hit = false;
    while pos < list.len() {
        let e = &list[pos];
        match refm::order(e.is_dir(), e.path(), d, &k) { Ordering::Less => pos += 1, Ordering::Equal => { hit = true; break } Ordering::Greater => break }
    }
    match it.advance(&kind(d, &k)) {
        Some(Ok(e)) => { if !hit { sx::fail("C05: advance returned an entry that is not wanted") } sx::check(same(&e, &list[pos], 0, 32768), "C05: advance returned another entry than the wanted one"); pos += 1; sx::cover("hit"); }
        None => { if hit { sx::fail("C05: advance missed the wanted entry") } sx::cover("miss"); }
        Some(Err(_)) => sx::fail("C05: advance failed on a valid index"),
    }
    while pos < list.len() {
        match it.next() { Some(Ok(e)) => sx::check(same(&e, &list[pos], 0, 32768), "C05: next skips, repeats or reorders entries"), _ => sx::fail("C05: next lost an entry") }
        pos += 1;
    }
    sx::check(it.next().is_none(), "C05: an entry is repeated");
    sx::cover("end");
}
/// C05: a list of many entries; the wanted one, or one that is missing, anywhere in it.
#[no_mangle] pub extern "C" fn c05_many() {
    let n = count("count");
    let mut list = vec![Ent::Dir(b"/".to_vec())];
    let name = |i: usize| vec![b'a' + (i / 100) as u8, b'0' + (i / 10 % 10) as u8, b'0' + (i % 10) as u8];
    let per = [1, 10, 2000][sx::choose("shape", 3)];
    let mut cur = b"/".to_vec();
    for i in 0..n {
        if i % per == per - 1 { cur = refm::join(b"/", &name(i)); list.push(Ent::Dir(cur.clone())); }
        else { list.push(Ent::Link(refm::join(&cur, &name(i)), b"x".to_vec())); }
    }
    let t = wide_render(&list);
    let mut p = open(&t);
    let mut it = p.iter();
    let mut pos = 0;
    for _ in 0..2 {
        let at = place("at", n);
        let e = &list[1 + at];
        let (d, mut k) = (e.is_dir(), e.path().to_vec());
        let l = k.len() - 1;
        k[l] = sx::byte("last");
        sx::assume(k[l] > 0x20 && k[l] < 0x7f && k[l] != b'/' && k[l] != b'\\' && k[l] != b'.');
        let mut hit = false;
        while pos < list.len() {
            let e = &list[pos];
            match refm::order(e.is_dir(), e.path(), d, &k) { Ordering::Less => pos += 1, Ordering::Equal => { hit = true; break } Ordering::Greater => break }
        }
        match it.advance(&kind(d, &k)) {
            Some(Ok(e)) => { if !hit { sx::fail("C05: advance returned an entry that is not wanted or not ahead") } sx::check(same(&e, &list[pos], 0, 32768), "C05: advance returned another entry than the wanted one"); pos += 1; sx::cover("hit"); }
            None => { if hit { sx::fail("C05: advance missed the wanted entry") } sx::cover("miss"); }
            Some(Err(_)) => sx::fail("C05: advance failed on a valid index"),
        }
    }
    while pos < list.len() {
        match it.next() { Some(Ok(e)) => sx::check(same(&e, &list[pos], 0, 32768), "C05: next skips, repeats or reorders entries"), _ => sx::fail("C05: next lost an entry") }
        pos += 1;
    }
    sx::check(it.next().is_none(), "C05: an entry is repeated");
    sx::cover("end");
}

/// C06: two kinds that share a long beginning, of many bytes or of many components.
#[no_mangle] pub extern "C" fn c06_long() {
    let n = count("count");
    let unit: &[u8] = [&b"p"[..], b"q/", b"/ab"][sx::choose("unit", 3)];
    let mut base = b"/".to_vec();
    for _ in 0..n { base.extend_from_slice(unit); }
    while base.windows(2).any(|w| w == b"//") { base.remove(0); }
    let mk = |tag: &str| {
        let mut p = base.clone();
        let m = sx::choose(tag, sx::param("len") + 1);
        let mut prev = *p.last().unwrap();
        for _ in 0..m {
            let b = sx::byte(tag);
            sx::assume(b != b'.' && b != 0);
            if prev == b'/' { sx::assume(b != b'/') }
            prev = b;
            p.push(b);
        }
        sx::assume(prev != b'/');
        (sx::flag(tag), p)
    };
    let ((da, a), (db, b)) = (mk("a"), mk("b"));
    let o = kind(da, &a).cmp(&kind(db, &b));
    sx::check(o == refm::order(da, &a, db, &b), "C06: the order of two kinds is not the index order");
    sx::check(kind(db, &b).cmp(&kind(da, &a)) == o.reverse(), "C06: comparison is not antisymmetric");
    sx::check((o == Ordering::Equal) == (da == db && sx::eq(&a, &b)), "C06: comparison disagrees with equality of kind and path");
    sx::cover(match o { Ordering::Less => "less", Ordering::Equal => "equal", Ordering::Greater => "greater" });
}

/// Many short lists: each has the root, one of a few links, and one index (anywhere) has a free name instead.
fn many_lists(k: usize) -> Vec<Vec<Ent>> {
    let few = sx::param("few") == 1;
    let at = if few { k - 1 } else { place("at", k) };
    let b = sx::byte("name");
    sx::assume(b > 0x20 && b < 0x7f && b != b'/' && b != b'\\' && b != b'.');
    let spread = if few { 3 } else { [1, 3, 50][sx::choose("names", 3)] };
    let root = few || sx::flag("root in all");
    (0..k).map(|i| {
        let mut l = Vec::new();
        if root || i % 2 == 0 { l.push(Ent::Dir(b"/".to_vec())) }
        let v = (i * 7 % spread) as u8;
        let c = if i == at { b } else if v < 26 { b'A' + v } else { b'a' + (v - 26) };
        if i % 2 == 0 { l.push(Ent::Link(vec![b'/', c], refm::dec(i as u64))) } else { l.push(Ent::Dir(vec![b'/', c])) }
        l
    }).collect()
}
/// C07: many indices, read to the end.
#[no_mangle] pub extern "C" fn c07_many() {
    let k = counts("indices", sx::param("few") * 63);
    let ls = many_lists(k);
    let ts: Vec<Vec<u8>> = ls.iter().map(|l| text_of(l, None)).collect();
    let mut m = match MergedSignatures::new(parsers(&ts)) { Ok(m) => m, Err(_) => sx::fail("C07: indices with equal headers are not merged") };
    let mut it = m.iter();
    let mut pos = vec![0; k];
    while next_group(&mut it, &ls, &mut pos) {}
    sx::check(it.next().is_none(), "C07: a group is returned after the end");
    sx::cover("end");
}
/// C08: many indices, advanced to a free target.
#[no_mangle] pub extern "C" fn c08_many() {
    let k = counts("indices", sx::param("few") * 31);
    let ls = many_lists(k);
    let ts: Vec<Vec<u8>> = ls.iter().map(|l| text_of(l, None)).collect();
    let mut m = match MergedSignatures::new(parsers(&ts)) { Ok(m) => m, Err(_) => sx::fail("C08: indices with equal headers are not merged") };
    let mut it = m.iter();
    let mut pos = vec![0; k];
    let (d, p) = match sx::choose("target", 4) { 0 => (true, b"/".to_vec()), 1 => (true, b"/A".to_vec()), 2 => (false, b"/C".to_vec()), _ => { let b = sx::byte("target"); sx::assume(b > 0x40 && b < 0x7f && b != b'\\'); (sx::flag("target dir"), vec![b'/', b]) } };
    let mut w = Vec::new();
    for i in 0..k {
        while pos[i] < ls[i].len() {
            let e = &ls[i][pos[i]];
            match refm::order(e.is_dir(), e.path(), d, &p) { Ordering::Less => pos[i] += 1, Ordering::Equal => { w.push((i, pos[i])); pos[i] += 1; break } Ordering::Greater => break }
        }
    }
    let g = it.advance(&kind(d, &p));
    match_group(g, &w, &ls, "C08: advance does not return exactly the entries of the wanted kind, by index in the given order");
    if w.is_empty() { sx::cover("miss") } else if w.len() > 1 { sx::cover("hit all") } else { sx::cover("hit") }
    while next_group(&mut it, &ls, &mut pos) {}
    sx::cover("end");
}
/// C08: names of several bytes.
#[no_mangle] pub extern "C" fn c08_names() {
    let (len, deep, wide) = (sx::param("name"), sx::param("deep"), sx::param("wide") == 1);
    let k = sx::param("indices");
    let ls: Vec<Vec<Ent>> = (0..k).map(|_| wide_sorted("entry", sx::choose("entries", sx::param("entries") + 1), len, deep, wide)).collect();
    let ts: Vec<Vec<u8>> = ls.iter().map(|l| wide_render(l)).collect();
    let mut m = match MergedSignatures::new(parsers(&ts)) { Ok(m) => m, Err(_) => sx::fail("C08: indices with equal headers are not merged") };
    let mut it = m.iter();
    let mut pos = vec![0; k];
    if sx::flag("advance") {
        let (d, p) = wide_target(len, deep, wide);
        let mut w = Vec::new();
        for i in 0..k {
            while pos[i] < ls[i].len() {
                let e = &ls[i][pos[i]];
                match refm::order(e.is_dir(), e.path(), d, &p) { Ordering::Less => pos[i] += 1, Ordering::Equal => { w.push((i, pos[i])); pos[i] += 1; break } Ordering::Greater => break }
            }
        }
        let g = it.advance(&kind(d, &p));
        match_group(g, &w, &ls, "C08: advance does not return exactly the entries of the wanted kind, by index in the given order");
        sx::cover(if w.is_empty() { "miss" } else { "hit" });
    }
    while next_group(&mut it, &ls, &mut pos) {}
    sx::cover("end");
}
/// C09: many indices, one of which (anywhere) may differ.
#[no_mangle] pub extern "C" fn c09_many() {
    let k = count("indices");
    let at = place("at", k);
    let (ht, d) = (sx::choose("hash", 3), digits("size", 2));
    sx::assume(d[0] != b'0');
    let odd = (d[0] - b'0') as u64 * 10 + (d[1] - b'0') as u64;
    let ts: Vec<Vec<u8>> = (0..k).map(|i| {
        let mut t = b"DIRSIGNATURE.v1 ".to_vec();
        t.extend_from_slice(refm::HASHES[if i == at { ht } else { 1 }].as_bytes());
        t.extend_from_slice(b" block_size=");
        t.extend_from_slice(if i == at { &d } else { b"16" });
        t.push(b'\n');
        with_footer(t)
    }).collect();
    match MergedSignatures::new(parsers(&ts)) {
        Ok(_) => { sx::check(ht == 1 && odd == 16, "C09: indices with different hash types or block sizes are merged"); sx::cover("merged"); }
        Err(MergeError::HashTypesMismatch(v)) => {
            let mut ok = ht != 1 && v.len() == k;
            if ok { for i in 0..k { ok &= v[i] == refm::hash_type(if i == at { ht } else { 1 }) } }
            sx::check(ok, "C09: the error does not list every index's hash type in order");
            sx::cover("hash types");
        }
        Err(MergeError::BlockSizesMismatch(v)) => {
            sx::check(ht == 1, "C09: block sizes reported although hash types differ");
            sx::check(odd != 16, "C09: equal block sizes are refused");
            let mut ok = v.len() == k;
            if ok { for i in 0..k { ok &= v[i] == if i == at { odd } else { 16 } } }
            sx::check(ok, "C09: the error does not list every index's block size in order");
            sx::cover("block sizes");
        }
        Err(_) => sx::fail("C09: another error"),
    }
}

fn big(n: usize) -> Vec<u8> { let mut d = vec![0u8; n]; for i in (0..n).step_by(509) { d[i] = i as u8 ^ (i >> 8) as u8; } d }
/// C11: content of several copy steps; one byte anywhere near a step differs or does not.
#[no_mangle] pub extern "C" fn c11_large() {
    let ht = sx::choose("hash", 2);
    let n = [8191usize, 8192, 8193, 16384, 16385, 20000][sx::choose("len", 6)];
    let bs = [4096u64, 8191, 8192, 8193, 32768][sx::choose("block size", 5)];
    let d = big(n);
    let h = match Hashes::hash_file(refm::hash_type(ht), bs, &d[..]) { Ok((_, h)) => h, Err(_) => sx::fail("C11: hashing readable data fails") };
    let mut e = d.clone();
    let what = sx::choose("change", 3);
    let mut equal = false;
    match what {
        0 => { let at = [0usize, 4095, 8190, 8191, 8192, 8193, 16383, 16384, n - 1][sx::choose("at", 9)]; if at >= n { sx::reject() } e[at] = sx::byte("byte"); equal = e[at] == d[at]; }
        1 => { e.truncate([0, 4096, 8191, 8192, 8193, n - 1][sx::choose("cut", 6)]); equal = e.len() == n; }
        _ => e.extend_from_slice(&big([1, 4096, 8192][sx::choose("more", 3)])),
    }
    let mut s = Src::new(&e, sx::param("shorts"), 0, 0);
    match h.check_file(&mut s) {
        Ok(r) => { sx::check(r == equal, "C11: check_file does not tell whether the content is the recorded one"); sx::cover(if r { "passes" } else { "fails" }); }
        Err(_) => sx::fail("C11: checking readable data fails"),
    }
}
/// C11: many blocks; one byte of any of them, or the length, differs or does not.
#[no_mangle] pub extern "C" fn c11_many() {
    let k = count("count");
    let bs = [1u64, 2][sx::choose("block size", 2)];
    let n = (k as u64 * bs) as usize - [0, bs as usize - 1][sx::choose("last block", 2)];
    let d: Vec<u8> = (0..n).map(|i| (i * 31 + 7) as u8).collect();
    let h = match Hashes::hash_file(refm::hash_type(0), bs, &d[..]) { Ok((_, h)) => h, Err(_) => sx::fail("C11: hashing readable data fails") };
    let mut e = d.clone();
    let at = place("at", n);
    e[at] = sx::byte("byte");
    let mut equal = e[at] == d[at];
    match sx::choose("length", 3) { 1 => { e.pop(); equal = false } 2 => { e.push(0); equal = false } _ => {} }
    match h.check_file(&e[..]) {
        Ok(r) => { sx::check(r == equal, "C11: check_file does not tell whether the content is the recorded one"); sx::cover(if r { "passes" } else { "fails" }); }
        Err(_) => sx::fail("C11: checking readable data fails"),
    }
}

fn dir() -> Node { Node { kind: DIR, mode: 0o755, typed: true, ..Node::default() } }
fn file(d: Vec<u8>) -> Node { Node { kind: FILE, mode: 0o644, typed: true, data: d, ..Node::default() } }
/// C10 and C13: files around the sizes of copy steps and blocks, scanned with and without threads.
#[no_mangle] pub extern "C" fn c10_scan_large() {
    let n = [8192usize, 8193, 32767, 32768, 32769, 65536, 65537][sx::choose("len", sx::param("lens"))];
    let bs = [32768u64, 8192, 10000, 1 << 33][sx::choose("block size", 4)];
    let threads = [0, 2][sx::choose("threads", 2)];
    let ht = sx::choose("hash", 2);
    let mut d = big(n);
    let at = [0usize, 8191, 8192, 32767, 32768, n - 1][sx::choose("at", 6)];
    if at >= n { sx::reject() }
    d[at] = sx::byte("byte");
    let mut w = World::default();
    w.shorts = sx::param("shorts");
    w.roots.push((b"/model".to_vec(), 0));
    w.nodes.push(dir());
    w.nodes.push(file(d));
    w.nodes.push(file(vec![1, 2]));
    w.nodes[0].kids = vec![(b"f".to_vec(), 1), (b"g".to_vec(), 2)];
    posix::set(w);
    let mut out = Vec::new();
    if v1::scan(&config(ht, bs, threads), &mut out).is_err() { sx::fail("C10: scanning a file that does not change fails") }
    let want = index(posix::w(), ht, bs, 0);
    sx::check(sx::eq(&out, &want), "C10: the row of a large file is not its size and the hashes of its blocks");
    sx::cover(if threads > 0 { "threaded" } else { "single" });
}
/// C10: a file whose examined size is huge, while little of it is there to read.
#[no_mangle] pub extern "C" fn c10_scan_huge() {
    let size = [1u64 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 53) + 1, (1 << 63) - 1][sx::choose("size", 6)];
    let threads = [0, 2][sx::choose("threads", 2)];
    let bs = [1u64 << 31, 1 << 32, 1 << 62, u64::MAX, 1, 32768][sx::choose("block size", 6)];
    let broken = size / bs > 300;
    let mut w = World::default();
    w.roots.push((b"/model".to_vec(), 0));
    w.nodes.push(dir());
    let data = sx::vec("data", sx::choose("len", 3));
    w.nodes.push(Node { stat_size: Some(size), broken, ..file(data.clone()) });
    w.nodes[0].kids = vec![(b"f".to_vec(), 1)];
    posix::set(w);
    let mut out = Vec::new();
    if v1::scan(&config(0, bs, threads), &mut out).is_err() { sx::cover("refused"); return }
    if broken { sx::fail("C10: a scan succeeds although a file cannot be read") }
    let rows: Vec<&[u8]> = out.split(|b| *b == b'\n').collect();
    if rows.len() != 5 { sx::fail("C10: the scan wrote another number of rows") }
    let fields: Vec<&[u8]> = rows[2].split(|b| *b == b' ').collect();
    if fields.len() < 5 { sx::fail("C10: the file has no proper row") }
    let mut rec = 0u64;
    for c in fields[4] { rec = rec.wrapping_mul(10).wrapping_add((*c - b'0') as u64); }
    sx::check(rec == size || rec == data.len() as u64, "C10: the recorded size is neither the size before nor after the change");
    sx::check(fields.len() as u64 - 5 == rec / bs + (rec % bs != 0) as u64, "C10: the number of hashes does not match the recorded size");
    sx::cover("recorded");
}

/// C13, C14: deep and wide trees with a free name, single-threaded and threaded.
#[no_mangle] pub extern "C" fn c13_shape() {
    let threads = [0, 2][sx::choose("threads", 1 + sx::param("threaded"))];
    let shape = sx::choose("shape", 3);
    let n = count("count");
    let mut w = World::default();
    w.roots.push((b"/model".to_vec(), 0));
    w.nodes.push(dir());
    let free = vec![sx::byte("name")];
    sx::assume(free[0] != 0 && free[0] != b'/' && free[0] != b'.');
    match shape {
        0 => {
            // a chain of directories, with a file at its end and one beside each
            let at = place("at", n);
            let mut d = 0;
            for i in 0..n {
                let k = w.nodes.len();
                w.nodes.push(dir());
                w.nodes[d].kids.push((if i == at { free.clone() } else { vec![b'm'] }, k));
                if i % 4 == 0 { let f = w.nodes.len(); w.nodes.push(file(vec![])); w.nodes[d].kids.push((b"n".to_vec(), f)); }
                d = k;
            }
            for (k, _) in &w.nodes[0].kids { if k.len() == 1 && at == 0 { sx::assume(free[0] != b'n'); } }
            if at % 4 == 0 { sx::assume(free[0] != b'n'); }
            let f = w.nodes.len();
            w.nodes.push(file(vec![7]));
            w.nodes[d].kids.push((b"z".to_vec(), f));
            sx::cover("deep");
        }
        _ => {
            // many entries in one directory, in or out of order
            let at = place("at", n);
            for i in 0..n {
                let j = if shape == 1 { i } else { i * 7919 % n };
                if shape == 2 && (0..i).any(|x| x * 7919 % n == j) { sx::reject() }
                let nm = if i == at { let mut v = refm::dec(j as u64); v.push(b'_'); v.extend_from_slice(&free); v } else { refm::dec(j as u64) };
                let k = w.nodes.len();
                w.nodes.push(match j % 5 { 0 => dir(), 1 => Node { kind: LINK, typed: true, target: b"t".to_vec(), ..Node::default() }, 2 => file(vec![j as u8]), _ => file(vec![]) });
                w.nodes[0].kids.push((nm, k));
            }
            sx::cover("wide");
        }
    }
    posix::set(w);
    *sched() = Sched::default();
    let mut out = Vec::new();
    if v1::scan(&config(0, 32768, threads), &mut out).is_err() { sx::fail("C13: scanning a readable tree fails") }
    let want = expected(0, 32768, threads > 1, &out);
    sx::check(sx::eq(&out, &want), "C13: the index is not the documented listing of the tree");
}

/// C20: a bad line after many good ones.
#[no_mangle] pub extern "C" fn c20_long() {
    let n = count("count");
    let bad = [0, 1][sx::choose("kind", 2)];
    let step = sx::choose("read", 2);
    let mut t = header(0, 32768);
    t.extend_from_slice(b"/\n");
    for i in 1..n { t.extend_from_slice(b"  a"); t.extend_from_slice(&[b'0' + (i / 1000) as u8, b'0' + (i / 100 % 10) as u8, b'0' + (i / 10 % 10) as u8, b'0' + (i % 10) as u8]); t.extend_from_slice(b" s x\n"); }
    if bad == 0 { t.extend_from_slice(b"junk\n"); } else { let b = sx::byte("type"); sx::assume(b != b'f' && b != b'x' && b != b's' && b != b' ' && b != b'\n'); t.extend_from_slice(b"  zz "); t.push(b); t.extend_from_slice(b" q\n"); }
    let t = with_footer(t);
    let mut p = open(&t);
    let mut it = p.iter();
    let e = if step == 0 {
        for _ in 0..n { match it.next() { Some(Ok(_)) => {} _ => sx::fail("C20: an error where the line is well-formed") } }
        it.next()
    } else { it.advance(&kind(true, b"/zzz")) };
    match e {
        Some(Err(e)) => { sx::check(error_line(&e) == Some(n + 2), "C20: a parse error names another line"); sx::cover("error"); }
        _ => sx::fail("C20: a malformed line is passed over"),
    }
}
/// C19: block sizes of every magnitude, written and read back, also through a scan.
#[no_mangle] pub extern "C" fn c19_large() {
    let bit = sx::choose("bit", 64);
    let bs = (1u64 << bit).wrapping_add([0u64, 1, u64::MAX][sx::choose("off", 3)]);
    if bs == 0 { sx::reject() }
    let bs = bs | sx::byte("low") as u64;
    let ht = sx::choose("hash", 3);
    let mut out = Vec::new();
    if sx::flag("scan") {
        let mut w = World::default();
        w.roots.push((b"/model".to_vec(), 0));
        w.nodes.push(dir());
        posix::set(w);
        if v1::scan(&config(ht, bs, [0, 2][sx::choose("threads", 2)]), &mut out).is_err() { sx::fail("C19: scanning an empty directory fails") }
    } else if Emitter::new(refm::hash_type(ht), bs, &mut out).is_err() { sx::fail("C19: emitter refuses to write to memory") }
    let want = header(ht, bs);
    sx::check(out.len() >= want.len() && sx::eq(&out[..want.len()], &want), "C19: the emitted header line is not the documented one");
    match v1::Parser::new(&out[..]) {
        Ok(p) => { let h = p.get_header(); sx::check(h.get_hash_type() == refm::hash_type(ht), "C19: hash type differs"); sx::check(h.get_block_size() == bs, "C19: block size differs"); sx::cover("round trip"); }
        Err(_) => sx::fail("C19: an emitted header is refused"),
    }
}
