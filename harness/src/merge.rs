//! C07 merged iteration, C08 merged advance, C09 what may be merged.
use crate::reader::{sorted, target};
use crate::refm::{self, Ent};
use crate::sx;
use crate::util::*;
use dir_signature::v1::merge::{MergeError, MergedEntriesIterator, MergedSignatures};
use dir_signature::v1::{Entry, ParseError, Parser};
use dir_signature::HashType;
use std::cmp::Ordering;

/// Sorted lists whose links say which index they come from.
pub fn lists(k: usize, n: usize) -> Vec<Vec<Ent>> {
    let mut out = Vec::new();
    for i in 0..k {
        let c = sx::choose("entries", n + 1);
        let mut l = sorted("entry", c);
        for e in &mut l { if let Ent::Link(_, d) = e { *d = vec![b'0' + i as u8]; } }
        out.push(l);
    }
    out
}
/// The index text; a malformed line stands before entry `bad` (after the last one if it is the length).
pub fn text_of(l: &[Ent], bad: Option<usize>) -> Vec<u8> {
    let mut t = header(0, 32768);
    for (i, e) in l.iter().enumerate() {
        if bad == Some(i) { t.extend_from_slice(b"junk\n"); }
        match e {
            Ent::Dir(p) => t.extend_from_slice(p),
            Ent::Link(p, d) => { t.extend_from_slice(b"  "); t.push(p[p.len() - 1]); t.extend_from_slice(b" s "); t.extend_from_slice(d); }
            _ => {}
        }
        t.push(b'\n');
    }
    if bad == Some(l.len()) { t.extend_from_slice(b"junk\n"); }
    with_footer(t)
}
fn ord(a: &Ent, b: &Ent) -> Ordering { refm::order(a.is_dir(), a.path(), b.is_dir(), b.path()) }

/// The place of the index among those given, from its key.
pub trait Key { fn ix(&self) -> usize; }
impl Key for usize { fn ix(&self) -> usize { *self - 10 } }
impl Key for std::path::PathBuf { fn ix(&self) -> usize { (pbytes(self).last().unwrap() - b'0') as usize } }
/// The next group of the merged lists, from the given positions.
fn want_next(ls: &[Vec<Ent>], pos: &mut [usize]) -> Vec<(usize, usize)> {
    let mut g: Vec<(usize, usize)> = Vec::new();
    for i in 0..ls.len() {
        if pos[i] >= ls[i].len() { continue }
        let o = match g.first() { None => Ordering::Equal, Some(&(j, p)) => ord(&ls[i][pos[i]], &ls[j][p]) };
        if o == Ordering::Less { g.clear(); }
        if o != Ordering::Greater { g.push((i, pos[i])); }
    }
    for &(i, _) in &g { pos[i] += 1; }
    g
}
pub fn match_group<K: Key>(got: Vec<(&K, Result<Entry, ParseError>)>, want: &[(usize, usize)], ls: &[Vec<Ent>], what: &str) {
    if got.len() != want.len() { sx::fail(what) }
    for (g, &(i, p)) in got.iter().zip(want) {
        if g.0.ix() != i { sx::fail(what) }
        match &g.1 { Ok(e) => sx::check(same(e, &ls[i][p], 0, 32768), what), Err(_) => sx::fail("C07/C08: a well-formed line is refused") }
    }
}
pub fn next_group<K: Key, R: std::io::BufRead>(it: &mut MergedEntriesIterator<'_, K, R>, ls: &[Vec<Ent>], pos: &mut [usize]) -> bool {
    let w = want_next(ls, pos);
    match it.next() {
        Some(v) => {
            if w.is_empty() { sx::fail("C07: a group is returned after the last entry") }
            match_group(v, &w, ls, "C07: the next group is not the entries of the smallest kind, one per index, in the order the indices were given");
            if w.len() > 1 { sx::cover("shared kind"); } else { sx::cover("single"); }
            true
        }
        None => { if !w.is_empty() { sx::fail("C07: merged iteration ends before the last entry") } false }
    }
}
pub fn parsers(ts: &[Vec<u8>]) -> Vec<(usize, Parser<&[u8]>)> { ts.iter().enumerate().map(|(i, t)| (10 + i, open(t))).collect() }

#[no_mangle] pub extern "C" fn c07_merge() {
    let k = 1 + sx::choose("indices", sx::param("indices"));
    let ls = lists(k, sx::param("entries"));
    let ts: Vec<Vec<u8>> = ls.iter().map(|l| text_of(l, None)).collect();
    let mut m = match MergedSignatures::new(parsers(&ts)) { Ok(m) => m, Err(_) => sx::fail("C07: indices with equal headers are not merged") };
    let mut it = m.iter();
    let mut pos = vec![0; k];
    while next_group(&mut it, &ls, &mut pos) {}
    sx::check(it.next().is_none(), "C07: a group is returned after the end");
    sx::cover("end");
    sx::log("entries", &ls.iter().map(|l| l.len() as u8).collect::<Vec<_>>());
}
/// One of the indices has a malformed line somewhere.
#[no_mangle] pub extern "C" fn c07_bad() {
    let k = 1 + sx::choose("indices", sx::param("indices"));
    let ls = lists(k, sx::param("entries"));
    let who = sx::choose("bad index", k);
    let bad = sx::choose("bad line", ls[who].len() + 1);
    let ts: Vec<Vec<u8>> = ls.iter().enumerate().map(|(i, l)| text_of(l, if i == who { Some(bad) } else { None })).collect();
    let mut m = match MergedSignatures::new(parsers(&ts)) { Ok(m) => m, Err(_) => sx::fail("C07: indices with equal headers are not merged") };
    let mut it = m.iter();
    let mut pos = vec![0; k];
    let mut errors = 0;
    let mut last: Option<(usize, usize)> = None;
    let mut left = 4 + ls.iter().map(|l| l.len()).sum::<usize>();
    while let Some(g) = it.next() {
        if left == 0 { sx::fail("C07: merged iteration does not end") }
        left -= 1;
        let mut key = None;
        let mut first: Option<(usize, usize)> = None;
        let mut healthy: Option<(usize, usize)> = None; // what follows the malformed line has no place in the order
        let who_counts = pos[who] < bad;
        for (kk, r) in &g {
            let i = **kk - 10;
            if i >= k { sx::fail("C07: unknown key") }
            if key.map_or(false, |x| x >= i) { sx::fail("C07: items of a group are not in the order of the indices") }
            key = Some(i);
            match r {
                Err(_) => {
                    if i != who || pos[i] != bad { sx::fail("C07: an error is reported for another index or place than the malformed line") }
                    errors += 1;
                    sx::cover("error");
                }
                Ok(e) => {
                    if i == who && pos[i] == bad && errors == 0 { sx::fail("C07: the malformed line is passed over") }
                    if pos[i] >= ls[i].len() { sx::fail("C07: an entry is repeated") }
                    sx::check(same(e, &ls[i][pos[i]], 0, 32768), "C07: an index with a malformed line loses or reorders entries");
                    match first { None => first = Some((i, pos[i])), Some((j, p)) => sx::check(ord(&ls[i][pos[i]], &ls[j][p]) == Ordering::Equal, "C07: a group mixes different entries") }
                    if healthy.is_none() && (i != who || who_counts) { healthy = Some((i, pos[i])) }
                    pos[i] += 1;
                }
            }
        }
        // groups of the healthy indices still come in increasing order and complete
        if let Some((i, p)) = healthy {
            if let Some((j, q)) = last { sx::check(ord(&ls[j][q], &ls[i][p]) == Ordering::Less, "C07: groups are not in increasing order") }
            last = Some((i, p));
            for j in 0..k { if (j != who || pos[j] < bad) && pos[j] < ls[j].len() { sx::check(ord(&ls[i][p], &ls[j][pos[j]]) == Ordering::Less, "C07: a group misses an entry of an index or comes too early") } }
        }
    }
    for i in 0..k { if pos[i] != ls[i].len() { sx::fail("C07: entries are lost when one index has a malformed line") } }
    sx::check(errors == 1, "C07: the malformed line is not reported exactly once");
    sx::cover("end");
}
#[no_mangle] pub extern "C" fn c08_advance() {
    let k = 1 + sx::choose("indices", sx::param("indices"));
    let ls = lists(k, sx::param("entries"));
    let ts: Vec<Vec<u8>> = ls.iter().map(|l| text_of(l, None)).collect();
    let mut m = match MergedSignatures::new(parsers(&ts)) { Ok(m) => m, Err(_) => sx::fail("C08: indices with equal headers are not merged") };
    let mut it = m.iter();
    let mut pos = vec![0; k];
    for _ in 0..sx::param("ops") {
        if !sx::flag("advance") { next_group(&mut it, &ls, &mut pos); continue }
        let (d, p) = target();
        let mut w = Vec::new();
        for i in 0..k {
            while pos[i] < ls[i].len() {
                let e = &ls[i][pos[i]];
                match refm::order(e.is_dir(), e.path(), d, &p) {
                    Ordering::Less => pos[i] += 1,
                    Ordering::Equal => { w.push((i, pos[i])); pos[i] += 1; break }
                    Ordering::Greater => break,
                }
            }
        }
        let g = it.advance(&kind(d, &p));
        match_group(g, &w, &ls, "C08: advance does not return exactly the entries of the wanted kind, by index in the given order");
        if w.is_empty() { sx::cover("miss") } else if w.len() > 1 { sx::cover("hit all") } else { sx::cover("hit") }
    }
    while next_group(&mut it, &ls, &mut pos) {}
    sx::cover("end");
    sx::log("entries", &ls.iter().map(|l| l.len() as u8).collect::<Vec<_>>());
}
#[no_mangle] pub extern "C" fn c09_same() {
    let k = sx::choose("indices", 1 + sx::param("indices"));
    let mut ts = Vec::new();
    let mut hts: Vec<HashType> = Vec::new();
    let mut bss: Vec<u64> = Vec::new();
    for i in 0..k {
        let ht = sx::choose("hash", 3);
        // numbers that differ in their low or in their high part, or beyond the precision of narrower types
        let highs: [&[u8]; 10] = [b"", b"1000000000000000000", b"25", b"6553", b"1677721", b"214748364", b"429496729", b"900719925474099", b"922337203685477580", b"1844674407370955161"];
        let high = highs[sx::choose("high", sx::param("high"))];
        let d = if high.is_empty() { crate::reader::digits("size", sx::param("digits")) } else { let x = sx::byte("last"); sx::assume(x >= b'0' && x <= b'9'); vec![x] };
        let mut n = high.to_vec();
        n.extend_from_slice(&d);
        let mut v = 0u64;
        for b in high { v = v * 10 + (*b - b'0') as u64; }
        if high.len() == 19 { sx::assume(d[0] <= b'5'); }
        for b in &d { v = v * 10 + (*b - b'0') as u64; }
        sx::assume(v > 0);
        let mut t = b"DIRSIGNATURE.v1 ".to_vec();
        t.extend_from_slice(refm::HASHES[ht].as_bytes());
        t.extend_from_slice(b" block_size=");
        t.extend_from_slice(&n);
        t.push(b'\n');
        ts.push(with_footer(t));
        hts.push(refm::hash_type(ht));
        bss.push(v);
        let _ = i;
    }
    let ps = parsers(&ts);
    let same_h = hts.iter().all(|h| *h == hts[0]);
    let mut diff = false;
    for b in &bss { if *b != bss[0] { diff = true } }
    match MergedSignatures::new(ps) {
        Ok(mut m) => {
            sx::check(same_h && !diff, "C09: indices with different hash types or block sizes are merged");
            sx::cover("merged");
            sx::check(m.iter().next().is_none(), "C09: an entry out of nothing");
        }
        Err(MergeError::HashTypesMismatch(v)) => {
            sx::check(!same_h, "C09: equal hash types are refused");
            sx::check(v == hts, "C09: the error does not list every index's hash type in order");
            sx::cover("hash types");
        }
        Err(MergeError::BlockSizesMismatch(v)) => {
            sx::check(same_h, "C09: block sizes reported although hash types differ");
            sx::check(diff, "C09: equal block sizes are refused");
            let mut ok = v.len() == bss.len();
            if ok { for i in 0..v.len() { ok &= v[i] == bss[i] } }
            sx::check(ok, "C09: the error does not list every index's block size in order");
            sx::cover("block sizes");
        }
        Err(_) => sx::fail("C09: another error"),
    }
}
