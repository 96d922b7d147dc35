//! More of the same guarantees: long lines, index files on disk, several roots, any number of threads.
use crate::merge::{lists, next_group, text_of};
use crate::posix::{self, Node, World, DIR, FILE, LINK};
use crate::reader::compare_body;
use crate::refm;
use crate::scan::{config, expected, index, reports, sched, Sched};
use crate::sx;
use crate::util::*;
use dir_signature::v1::merge::{FileMergeBuilder, MergeError};
use dir_signature::v1;

fn dir() -> Node { Node { kind: DIR, mode: 0o755, typed: true, ..Node::default() } }
fn file(d: Vec<u8>) -> Node { Node { kind: FILE, mode: 0o644, typed: true, data: d, ..Node::default() } }
fn link(t: &[u8]) -> Node { Node { kind: LINK, mode: 0o777, typed: true, target: t.to_vec(), ..Node::default() } }

/// C04: long fields, plain or escaped, with a free byte at an edge, the middle or a power of two.
#[no_mangle] pub extern "C" fn c04_long() {
    let lens = [250usize, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 65537];
    let n = lens[sx::choose("len", lens.iter().filter(|c| **c <= sx::param("most")).count())];
    let unit: &[u8] = [&b"a"[..], b"\\xff", b"d/"][sx::choose("unit", 3)];
    let mut f: Vec<u8> = unit.iter().cycle().take(n).cloned().collect();
    let ats = [0, 1, n / 2, 255, 256, n - 2, n - 1];
    let k = sx::choose("at", ats.len());
    if ats[k] >= n || ats[..k].contains(&ats[k]) { sx::reject() }
    f[ats[k]] = sx::byte("byte");
    let mut d = Vec::new();
    match sx::choose("field", 3) {
        0 => { d.push(b'/'); d.extend(f); d.extend_from_slice(b"\n  b s t\n"); }
        1 => { d.extend_from_slice(b"/\n  "); d.extend(f); d.extend_from_slice(b" s t\n"); }
        _ => { d.extend_from_slice(b"/\n  b s "); d.extend(f); d.push(b'\n'); }
    }
    d.extend_from_slice(b"/zz\n");
    compare_body(0, 1, &with_footer(d));
}

/// C09 (and C07, C12): index files opened by FileMergeBuilder, which may be missing or fail to be read.
#[no_mangle] pub extern "C" fn c09_files() {
    let k = sx::choose("indices", 1 + sx::param("indices"));
    let ls = lists(k, sx::param("entries"));
    let ht: Vec<usize> = (0..k).map(|_| sx::choose("hash", sx::param("hashes"))).collect();
    let bs: Vec<u64> = (0..k).map(|_| [32768u64, 1][sx::choose("block size", sx::param("sizes"))]).collect();
    let missing = if k > 0 && sx::flag("missing") { sx::choose("which", k) } else { k };
    let mut w = World::default();
    w.faults = sx::param("faults");
    w.ints = sx::param("ints");
    w.shorts = sx::param("shorts");
    w.errnos = 99;
    let mut b = FileMergeBuilder::new();
    for i in 0..k {
        let t = text_of(&ls[i], None);
        let at = t.iter().position(|b| *b == b'\n').unwrap() + 1;
        let mut d = header(ht[i], bs[i]);
        d.extend_from_slice(&t[at..]);
        let name = vec![b'/', b'i', b'0' + i as u8];
        b.add(path(&[b'/', b'b', b'0' + i as u8]), path(&name));
        w.nodes.push(file(d));
        if i != missing { w.roots.push((name, i)); }
    }
    posix::set(w);
    let hard = || posix::w().hard;
    let mut m = match b.finalize() {
        Ok(m) => m,
        Err(MergeError::Io(..)) => { sx::check(hard() || missing < k, "C09: a readable index file is reported as unreadable"); sx::cover("unreadable"); return }
        Err(MergeError::Parse(e)) => {
            sx::check(hard(), "C09: a well-formed index file is refused");
            sx::check(error_line(&e).is_none() || error_line(&e) == Some(1), "C12: a read error is reported for another line");
            sx::cover("unreadable");
            return;
        }
        Err(MergeError::HashTypesMismatch(v)) => {
            let mut ok = missing == k && ht.iter().any(|h| *h != ht[0]) && v.len() == k;
            if ok { for i in 0..k { ok &= v[i] == refm::hash_type(ht[i]); } }
            sx::check(ok, "C09: the error does not list every index's hash type in order");
            sx::cover("hash types");
            return;
        }
        Err(MergeError::BlockSizesMismatch(v)) => {
            sx::check(missing == k && ht.iter().all(|h| *h == ht[0]) && bs.iter().any(|b| *b != bs[0]) && v == bs, "C09: the error does not list every index's block size in order");
            sx::cover("block sizes");
            return;
        }
    };
    sx::check(missing == k, "C09: indices are merged although one cannot be opened");
    sx::check(ht.iter().all(|h| *h == ht[0]) && bs.iter().all(|b| *b == bs[0]), "C09: indices with different hash types or block sizes are merged");
    sx::cover("merged");
    let mut it = m.iter();
    let mut pos = vec![0; k];
    if posix::w().faults == 0 {
        // nothing fails any more (interrupted reads are retried)
        if sx::param("sizes") > 1 || sx::param("hashes") > 1 { return }
        while next_group(&mut it, &ls, &mut pos) {}
        sx::cover("end");
        return;
    }
    let mut left = 20;
    while let Some(g) = it.next() {
        left -= 1;
        if left == 0 { sx::fail("C07: merged iteration does not end") }
        for (_, r) in &g {
            match r {
                Ok(_) => {}
                Err(_) => {
                    sx::check(hard(), "C12: reading index files fails although no read failed");
                    sx::cover("read error");
                    return;
                }
            }
        }
    }
    sx::check(!hard(), "C12: a read error is not returned");
}

/// C13: two scanned directories, both placed at the root, with directories in common.
#[no_mangle] pub extern "C" fn c13_roots() {
    let threads = [0, 2][sx::choose("threads", 2)];
    let mut w = World::default();
    let mut u = World::default();
    w.roots.push((b"/model".to_vec(), 0));
    w.roots.push((b"/model2".to_vec(), 1));
    w.nodes.push(dir());
    w.nodes.push(dir());
    u.nodes.push(dir());
    u.roots.push((b"/model".to_vec(), 0));
    for r in 0..2 {
        let n = sx::choose("entries", sx::param("entries") + 1);
        for i in 0..n { add(&mut w, r, &mut u, 0, if i < sx::param("inside") { sx::param("deep") } else { 0 }); }
    }
    let mut c = config(0, 32768, threads);
    c.add_dir("/model2", "/");
    let want = index(&u, 0, 32768, 0);
    posix::set(w);
    let mut out = Vec::new();
    if v1::scan(&c, &mut out).is_err() { sx::fail("C13: scanning readable trees fails") }
    sx::check(sx::eq(&out, &want), "C13: the index is not the documented listing of the two trees together");
    sx::cover("two roots");
}
/// Another entry of `to`, and of the union; directories may be in both.
fn add(w: &mut World, to: usize, u: &mut World, uto: usize, deep: usize) {
    let b = sx::byte("name");
    sx::assume(b > 0x20 && b < 0x7f && b != b'/' && b != b'\\' && b != b'.');
    for (k, _) in &w.nodes[to].kids { sx::assume(k[0] != b); }
    let kind = [DIR, FILE, LINK][sx::choose("kind", 3)];
    let mut both = None;
    for (k, i) in &u.nodes[uto].kids {
        if k[0] == b { if kind != DIR || u.nodes[*i].kind != DIR { sx::reject() } both = Some(*i); sx::cover("in common"); }
    }
    let make = || match kind { DIR => dir(), FILE => file(vec![7]), _ => link(b"t") };
    let at = w.nodes.len();
    w.nodes.push(make());
    w.nodes[to].kids.push((vec![b], at));
    let uat = match both { Some(i) => i, None => { let i = u.nodes.len(); u.nodes.push(make()); u.nodes[uto].kids.push((vec![b], i)); i } };
    if kind == DIR && deep > 0 && sx::flag("inside") { add(w, at, u, uat, deep - 1); }
}

/// C14: any number of threads and any queue size.
#[no_mangle] pub extern "C" fn c14_counts() {
    let threads = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000][sx::choose("threads", 26)];
    let mut w = crate::scan::small_tree(sx::param("len"));
    // more files, so that some wait in the queue
    for i in 0..sx::param("more") { let k = w.nodes.len(); w.nodes.push(file(vec![i as u8; i % 3])); w.nodes[0].kids.push((refm::dec(i as u64), k)); }
    posix::set(w);
    *sched() = Sched { spawn: sx::param("spawn") == 1, polls: sx::param("polls"), ..Sched::default() };
    let bs = 1 + sx::choose("block size", 2) as u64;
    let mut c = config(0, bs, threads);
    match sx::choose("queue size", 5) { 0 => {} q => { c.queue_size([0, 1, 2, 1000][q - 1]); } }
    let mut out = Vec::new();
    let r = v1::scan(&c, &mut out);
    if r.is_err() { sx::fail("C14: a threaded scan of a readable tree fails") }
    let want = expected(0, bs, threads > 1, &out);
    sx::check(sx::eq(&out, &want), "C14: a threaded scan writes another index than a single-threaded one");
    sx::cover("scanned");
}

/// C20: a bad line beyond the limits of small counters.
#[no_mangle] pub extern "C" fn c20_far() {
    let n = [65533usize, 65534, 65535, 65536, 70000][sx::choose("lines", sx::param("counts"))];
    let mut t = header(0, 32768);
    t.reserve(n * 3);
    for _ in 1..n { t.extend_from_slice(b"/a\n"); }
    t.extend_from_slice(b"junk\n");
    let t = with_footer(t);
    let mut p = open(&t);
    let mut it = p.iter();
    let e = if sx::flag("next") {
        for _ in 1..n { match it.next() { Some(Ok(_)) => {} _ => sx::fail("C20: an error where the line is well-formed") } }
        it.next()
    } else { it.advance(&kind(true, b"/b")) };
    match e {
        Some(Err(e)) => { sx::check(error_line(&e) == Some(n + 1), "C20: a parse error names another line"); sx::cover("error"); }
        _ => sx::fail("C20: a malformed line is passed over"),
    }
}

/// C23: progress over many entries of each kind.
#[no_mangle] pub extern "C" fn c23_many() {
    let threads = [0, 2][sx::choose("threads", 2)];
    let n = [99usize, 100, 127, 128, 255, 256, 257, 300, 1000, 1001][sx::choose("count", sx::param("counts"))];
    let what = sx::choose("kind", 4);
    let mut w = World::default();
    w.roots.push((b"/model".to_vec(), 0));
    w.nodes.push(dir());
    for i in 0..n {
        let k = w.nodes.len();
        w.nodes.push(match if what == 3 { i % 3 } else { what } { 0 => dir(), 1 => file(vec![]), _ => link(b"t") });
        w.nodes[0].kids.push((refm::dec((i * 7) as u64), k));
    }
    w.clock = vec![0];
    w.pace = [0, 101, 40][sx::choose("pace", 3)];
    posix::set(w);
    *sched() = Sched::default();
    let mut c = config(0, 32768, threads);
    c.print_progress();
    let mut out = Vec::new();
    if v1::scan(&c, &mut out).is_err() { sx::fail("C23: progress reporting makes a scan fail") }
    let want = index(posix::w(), 0, 32768, 0);
    sx::check(sx::eq(&out, &want), "C23: progress reporting changes the index");
    sx::check(reports(&posix::w().stderr, &out), "C23: progress reports another hash than the index has");
    sx::cover("scanned");
}

/// C06: every way to hold a kind compares alike, and copies of it are equal to it.
#[no_mangle] pub extern "C" fn c06_forms() {
    use dir_signature::v1::{Entry, EntryKind};
    use std::path::PathBuf;
    let (da, a) = crate::reader::any_kind("a");
    let (db, b) = crate::reader::any_kind("b");
    let (ka, kb) = (kind(da, &a), kind(db, &b));
    let o = ka.cmp(&kb);
    let (ca, cb) = (ka.cloned(), kb.cloned());
    sx::check(sx::eq(pbytes(ca.path()), &a) & sx::eq(pbytes(ka.path()), &a) & sx::eq(pbytes(ka.as_ref().path()), &a), "C06: a kind changes its path");
    sx::check(ca.as_ref() == ka && ka.as_ref() == ka && cb.as_ref() == kb, "C06: a copy of a kind is not equal to it");
    sx::check(ca.cmp(&cb) == o && ka.as_ref().cmp(&kb.as_ref()) == o, "C06: copies of kinds compare differently");
    sx::check((ka < kb) == (o == std::cmp::Ordering::Less) && (ka >= kb) == (o != std::cmp::Ordering::Less) && (ca > cb) == (o == std::cmp::Ordering::Greater), "C06: operators disagree with cmp");
    let e = match (da, sx::flag("link")) {
        (true, _) => Entry::Dir(path(&a).to_path_buf()),
        (false, true) => Entry::Link(path(&a).to_path_buf(), PathBuf::from("t")),
        (false, false) => {
            let mut t = text(b"/\n  x f 0\n");
            t = with_footer(t);
            let mut p = open(&t);
            let h = match p.iter().nth(1) { Some(Ok(Entry::File { hashes, .. })) => hashes, _ => sx::fail("harness: a row is refused") };
            Entry::File { path: path(&a).to_path_buf(), exe: false, size: 0, hashes: h }
        }
    };
    sx::check(sx::eq(pbytes(e.path()), &a), "C06: path() of an entry is not its path");
    sx::check(e.kind() == ka && matches!(e.kind(), EntryKind::Dir(_)) == da, "C06: kind() of an entry is not its kind");
    sx::cover(["less", "equal", "greater"][(o as i8 + 1) as usize]);
}
/// C19: names of hash types.
#[no_mangle] pub extern "C" fn c19_names() {
    use dir_signature::HashType;
    use std::fmt::Write;
    let ht = sx::choose("hash", 3);
    let t = refm::HASHES[ht].as_bytes();
    let w = sx::choose("window", sx::param("w") + 1);
    let del = sx::choose("removed", sx::param("w") + 1);
    let at = sx::choose("place", t.len() + 1);
    if at + del > t.len() { sx::reject() }
    let free = sx::vec("bytes", w);
    for b in &free { sx::assume(*b < 0x80); }
    let mut d = t[..at].to_vec();
    d.extend_from_slice(&free);
    d.extend_from_slice(&t[at + del..]);
    let mut want = None;
    for i in 0..3 { if sx::eq(&d, refm::HASHES[i].as_bytes()) { want = Some(i) } }
    let s = match std::str::from_utf8(&d) { Ok(s) => s, Err(_) => sx::reject() };
    match (s.parse::<HashType>(), want) {
        (Ok(h), Some(i)) => {
            sx::check(h == refm::hash_type(i), "C19: a name gives another hash type");
            let mut v = String::with_capacity(64);
            let _ = write!(v, "{}", h);
            sx::check(sx::eq(v.as_bytes(), &d), "C19: a hash type is displayed under another name");
            sx::check(h.output_bytes() == 32, "C19: the length of a hash differs");
            sx::cover("accepted");
        }
        (Err(_), None) => sx::cover("refused"),
        (Ok(_), None) => sx::fail("C19: an unknown hash type is accepted"),
        (Err(_), Some(_)) => sx::fail("C19: the name of a hash type is refused"),
    }
}
/// C14: as many threads as there are processors.
#[no_mangle] pub extern "C" fn c14_auto() {
    let mut w = crate::scan::small_tree(sx::param("len"));
    w.cpus = [1usize, 2, 3, 8, 64][sx::choose("processors", 5)];
    posix::set(w);
    *sched() = Sched { spawn: true, polls: sx::param("polls"), ..Sched::default() };
    let bs = 1 + sx::choose("block size", 2) as u64;
    let mut c = config(0, bs, sx::choose("threads before", 2) * 3);
    c.auto_threads();
    let mut out = Vec::new();
    if v1::scan(&c, &mut out).is_err() { sx::fail("C14: a scan of a readable tree with threads for all processors fails") }
    let want = expected(0, bs, true, &out);
    sx::check(sx::eq(&out, &want), "C14: a scan with threads for all processors writes another index than a single-threaded one");
    sx::cover("scanned");
}
/// C13: what a configuration says when nothing but the directory is set, the order in which it is set up, and
/// scanning with it again.
#[no_mangle] pub extern "C" fn c13_config() {
    let mut w = crate::scan::small_tree(sx::param("len"));
    if sx::flag("more than a block") { w.nodes[3].data = vec![sx::byte("long"); 32769]; }
    posix::set(w);
    let mut c = dir_signature::ScannerConfig::new();
    let (mut ht, mut bs) = (0, 32768);
    let set = sx::choose("set", 4);
    if set == 1 { ht = 1; c.hash(refm::hash_type(1)); }
    c.add_dir("/model", "/");
    if set == 2 { ht = 1; c.hash(refm::hash_type(1)); }
    if set == 3 { c.queue_size(1).threads(1).hash(refm::hash_type(2)).hash(refm::hash_type(0)); }
    if sx::flag("block size") { bs = 2; c.verif_block_size(2); }
    if bs == 2 && posix::w().nodes[3].data.len() > 4 { sx::reject() }
    let again = sx::flag("again");
    for _ in 0..1 + again as usize {
        let mut out = Vec::new();
        if v1::scan(&c, &mut out).is_err() { sx::fail("C13: scanning a readable tree fails") }
        let want = expected(ht, bs, false, &out);
        sx::check(sx::eq(&out, &want), "C13: the index is not the documented listing of the tree");
    }
    sx::cover(if again { "again" } else { "scanned" });
}
