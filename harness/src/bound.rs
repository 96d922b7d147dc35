//! C24: memory, descriptors and background work stay bounded, however long the index, the file or the tree is.
use crate::hashes::Src;
use crate::merge::parsers;
use crate::posix::{self, Node, World, DIR, FILE, LINK};
use crate::refm;
use crate::scan::{config, sched, Sched};
use crate::sx;
use crate::util::*;
use dir_signature::v1::merge::MergedSignatures;
use dir_signature::v1::{self, Hashes};
use dir_signature::get_hash;
use std::io::{self, Read, Write};

fn dir() -> Node { Node { kind: DIR, mode: 0o755, typed: true, ..Node::default() } }
fn file(d: Vec<u8>) -> Node { Node { kind: FILE, mode: 0o644, typed: true, data: d, ..Node::default() } }
fn link(t: &[u8]) -> Node { Node { kind: LINK, mode: 0o777, typed: true, target: t.to_vec(), ..Node::default() } }
fn within(base: u64, bound: usize, m: &str) { sx::check(sx::heap_peak() - base <= bound as u64, m) }

/// An index of n rows of one kind or of all, one of which has a free byte.
fn rows(n: usize) -> (Vec<u8>, usize) {
    let what = sx::choose("rows", 4);
    let at = [1, n / 2, n - 1][sx::choose("at", 3)];
    let b = sx::byte("name");
    sx::assume(b > b' ' && b < 0x7f && b != b'/' && b != b'.' && b != b'\\');
    let mut t = header(0, 32768);
    let mut longest = t.len();
    t.extend_from_slice(b"/\n");
    for i in 0..n {
        let from = t.len();
        let mut name = vec![b'a' + (i / 676 % 26) as u8, b'a' + (i / 26 % 26) as u8, b'a' + (i % 26) as u8];
        if i == at { name.push(b) }
        match if what == 3 { i % 20 % 3 } else { what } {
            _ if what == 3 && i % 20 == 19 => { t.push(b'/'); t.extend(&name); }
            0 if what == 0 => { t.push(b'/'); t.extend(&name); }
            0 | 1 => { t.extend_from_slice(b"  "); t.extend(&name); t.extend_from_slice(b" s target"); }
            _ => { t.extend_from_slice(b"  "); t.extend(&name); t.extend_from_slice(b" f 32769 "); t.extend(hex64(i as u8)); t.push(b' '); t.extend(hex64(3)); }
        }
        t.push(b'\n');
        longest = longest.max(t.len() - from);
    }
    (with_footer(t), longest)
}
/// Reading, advancing and merging.
#[no_mangle] pub extern "C" fn c24_reader() {
    let n = sx::param("rows");
    let (t, longest) = rows(n);
    let far = kind(true, b"/zzzz");
    let base = sx::heap_mark();
    let (mut seen, mut bound) = (0, 16384 + 8 * longest);
    match sx::choose("use", 5) {
        0 => { let mut p = open(&t); for e in p.iter() { if e.is_err() { sx::fail("harness: a row is refused") } seen += 1; } }
        1 => { let mut p = open(&t); if p.iter().advance(&far).is_some() { sx::fail("harness: a row is refused") } seen = n + 1; }
        2 => {
            // an advance at a time
            let mut p = open(&t);
            let mut it = p.iter();
            for i in 0..26 { if let Some(Err(_)) = it.advance(&kind(true, &[b'/', b'a' + i])) { sx::fail("harness: a row is refused") } }
            seen = n + 1;
        }
        k => {
            bound *= 2;
            let ts = [t.clone(), t.clone()];
            sx::heap_mark();
            let base = sx::heap_mark();
            let mut m = match MergedSignatures::new(parsers(&ts)) { Ok(m) => m, Err(_) => sx::fail("harness: not merged") };
            if k == 3 { for g in m.iter() { if g.len() != 2 || g.iter().any(|e| e.1.is_err()) { sx::fail("harness: a row is refused") } seen += 1; } }
            else { if !m.iter().advance(&far).is_empty() { sx::fail("harness: a row is refused") } seen = n + 1; }
            within(base, bound, "C24: merging takes memory that grows with the number of entries");
            sx::cover("merged");
            bound = usize::MAX;
        }
    }
    if seen != n + 1 { sx::fail("C24: not every row has been read") }
    within(base, bound, "C24: reading an index takes memory that grows with the number of entries");
    sx::cover("read");
}
/// Zeros with one free byte, made as they are read.
struct Zeros { left: usize, at: usize, byte: u8 }
impl Read for Zeros {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.left);
        for x in &mut b[..n] { *x = 0 }
        if self.at < self.left && self.left - self.at <= n { b[self.left - self.at - 1] = self.byte }
        self.left -= n;
        Ok(n)
    }
}
/// Hashing and checking a file, and the hash of an index.
#[no_mangle] pub extern "C" fn c24_hash() {
    let n = sx::param("len");
    let ht = sx::choose("hash", 3);
    let bs = [1024usize, 4096, 32768][sx::choose("block size", 3)];
    let src = || Zeros { left: n, at: n / 2, byte: 0 };
    match sx::choose("use", 3) {
        0 => {
            let base = sx::heap_mark();
            let r = Hashes::hash_file(refm::hash_type(ht), bs as u64, Zeros { byte: sx::byte("byte"), ..src() });
            within(base, 131072 + 2 * bs + 96 * (n / bs + 1), "C24: hashing a file takes memory that grows with its length");
            sx::check(r.is_ok(), "harness: not hashed");
        }
        1 => {
            let h = match Hashes::hash_file(refm::hash_type(ht), bs as u64, src()) { Ok((_, h)) => h, Err(_) => sx::fail("harness: not hashed") };
            let b = sx::byte("byte");
            let base = sx::heap_mark();
            let r = h.check_file(Zeros { byte: b, ..src() });
            within(base, 131072 + 2 * bs, "C24: checking a file takes memory that grows with its length");
            match r { Ok(r) => sx::check(r == (b == 0), "C11: check_file does not tell whether the content is the recorded one"), Err(_) => sx::fail("harness: not checked") }
        }
        _ => {
            let mut t = header(ht, 32768);
            t.extend_from_slice(b"/\n");
            while t.len() < n { t.extend_from_slice(b"  a s b\n"); }
            let mut t = with_footer(t);
            let at = t.len() - 2;
            t[at] = sx::byte("byte");
            let mut s = Src::new(&t, 0, 0, 0);
            let base = sx::heap_mark();
            let r = get_hash(&mut s);
            within(base, 131072, "C24: get_hash takes memory that grows with the length of the index");
            if r.is_ok() { sx::cover("hash") }
        }
    }
    sx::cover("done");
}
/// Forgets what is written to it.
struct Count(usize);
impl Write for Count {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0 += b.len(); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// Scanning a deep or a wide tree.
#[no_mangle] pub extern "C" fn c24_scan() {
    let threads = [0, 2][sx::choose("threads", 2)];
    let n = sx::param("dirs");
    let wide = sx::flag("wide");
    let mut w = World::default();
    w.roots.push((b"/model".to_vec(), 0));
    w.nodes.push(dir());
    let free = sx::byte("target");
    sx::assume(free != 0);
    let mut target = [b't'; 200];
    target[100] = free;
    let mut d = 0;
    for i in 0..n {
        let k = w.nodes.len();
        w.nodes.push(dir());
        w.nodes[d].kids.push((if wide { refm::dec(i as u64 + 1000) } else { b"d".to_vec() }, k));
        if !wide { d = k }
        for j in 0..sx::param("links") { let l = w.nodes.len(); w.nodes.push(link(&target)); w.nodes[k].kids.push((vec![b'l', b'0' + j as u8], l)); }
        let f = w.nodes.len();
        w.nodes.push(file(vec![i as u8; i % 3]));
        w.nodes[k].kids.push((b"f".to_vec(), f));
    }
    w.reserve(12 * n + 100);
    posix::set(w);
    *sched() = Sched { held: match sx::choose("slow task", 4) { 0 => vec![], 1 => vec![0], 2 => vec![n / 2], _ => (0..n).collect() }, ..Sched::default() };
    let mut out = Count(0);
    let mut c = config(0, 1, threads);
    let mut queue = threads * 16;
    match sx::choose("queue size", 3) { 0 => {} q => { queue = [0, 5][q - 1]; c.queue_size(queue); } }
    if wide { c.print_progress(); }
    posix::w().watch();
    let base = sx::heap_mark();
    if v1::scan(&c, &mut out).is_err() { sx::fail("C24: a scan of a readable tree fails") }
    let queue = if threads > 1 { queue } else { 0 };
    // (a pending directory takes its path and place; an entry of a directory, or one that waits, its name and place)
    let mem = 16384 + (if wide { 400 * n } else { 10 * n }) + 600 * (queue + sx::param("links"));
    within(base, mem, "C24: a scan takes memory that grows with the length of the index");
    sx::check(posix::w().most_open() <= 8 + queue, "C24: a scan keeps descriptors open for directories it is done with");
    sx::check(posix::w().still_open() == 0, "C24: a scan leaves descriptors open");
    sx::check(out.0 > n * sx::param("links") * 200, "harness: rows are missing");
    if threads > 1 { sx::cover("threads") }
    sx::cover("scanned");
}
/// How many entries wait for the background.
#[no_mangle] pub extern "C" fn c24_queue() {
    let big = sx::param("big") > 0;
    let size = sx::choose("queue size", 1 + if big { 4 } else { 6 });
    let threads = if big { if size > 0 { 16 } else { [16, 17, 100][sx::choose("threads", 3)] } } else { 2 + sx::choose("threads", 2) };
    let mut c = config(0, 32768, threads);
    let limit = match size { 0 => threads * 16, q => { let n = if big { [255usize, 256, 257, 1000] } else { [0usize, 1, 2, 3] }.get(q - 1).copied().unwrap_or([20, 70][(q + 1) % 2]); c.queue_size(n); n } };
    // a slow file, other entries that have to wait behind it, and files after them
    let n = if big { [256, 257, 300][sx::choose("entries", 3)] } else { [1, 2, 3, 20, 32, 33, 34, 48, 70, 100][sx::choose("entries", 10)] };
    let every = [1, 2, n + 1][sx::choose("files", 3)];
    let mut w = World::default();
    w.roots.push((b"/model".to_vec(), 0));
    w.nodes.push(dir());
    let mut order = Vec::new();
    let slow = if big { 1 } else { sx::choose("before", 2) };
    for i in 0..slow + n + 4 {
        let k = w.nodes.len();
        let isfile = i == slow || i > slow + n || (i > slow && (i - slow) % every == 0);
        w.nodes.push(if isfile { order.push(i + 1); file(vec![]) } else { link(b"t") });
        w.nodes[0].kids.push((refm::dec(i as u64 + 1000), k));
    }
    posix::set(w);
    *sched() = Sched { held: if sx::flag("all slow") { (0..order.len()).collect() } else { vec![0] }, limit: Some(limit), order_of: order, ..Sched::default() };
    let mut out = Vec::new();
    if v1::scan(&c, &mut out).is_err() { sx::fail("C24: a scan of a readable tree fails") }
    sx::check(out.iter().filter(|b| **b == b'\n').count() == slow + n + 4 + 3, "C24: rows are missing");
    if n > limit { sx::cover("queue full") }
    sx::cover("scanned");
}
