//! C13 scan output, C14 threaded scan, C15 read faults, C16 write faults, C17 footer, C23 progress.
use crate::hashes::known;
use crate::posix::{self, Node, World, DIR, FILE, LINK, OTHER};
use crate::refm;
use crate::sx;
use crate::util::*;
use dir_signature::v1::{self, Emitter, Hashes};
use dir_signature::{Error, ScannerConfig};
use std::ffi::OsStr;
use std::io::{self, ErrorKind, Write};
use std::os::unix::ffi::OsStrExt;

/// A destination that takes only part, interrupts or fails as the solver likes.
#[derive(Default)]
pub struct Sink { pub data: Vec<u8>, pub shorts: usize, pub ints: usize, pub errs: usize, pub failed: bool, pub writes: usize, pub errnos: bool }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.writes += 1;
        let mut opts = [0u8; 5];
        let mut k = 1;
        if self.shorts > 0 && b.len() > 1 { opts[k] = 1; k += 1; }
        if self.ints > 0 { opts[k] = 2; k += 1; }
        if self.errs > 0 && !b.is_empty() { opts[k] = 3; opts[k + 1] = 4; k += 2; }
        let n = match opts[sx::choose("write", k)] {
            0 => b.len(),
            1 => { self.shorts -= 1; sx::cover("short write"); crate::hashes::cut(b.len()) }
            2 => { self.ints -= 1; sx::cover("write interrupted"); return Err(ErrorKind::Interrupted.into()) }
            3 => { self.errs -= 1; self.failed = true; sx::cover("write error"); return Err(io::Error::from_raw_os_error(if self.errnos { sx::errno() } else { 28 })) }
            _ => { self.errs -= 1; self.failed = true; sx::cover("write refused"); return Ok(0) }
        };
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// When a background task runs and when its completion shows.
#[derive(Default)]
pub struct Sched { pub spawn: bool, pub polls: usize, pub order: bool, pub stuck: Vec<usize>, pub held: Vec<usize>, pub patience: usize,
    /// how many entries may wait ; the place of each task's entry in the index ; tasks whose result has been taken
    pub limit: Option<usize>, pub order_of: Vec<usize>, pub taken: Vec<usize> }
static mut SCHED: Sched = Sched { spawn: false, polls: 0, order: false, stuck: Vec::new(), held: Vec::new(), patience: 0, limit: None, order_of: Vec::new(), taken: Vec::new() };
#[allow(static_mut_refs)]
pub fn sched() -> &'static mut Sched { unsafe { &mut SCHED } }
#[no_mangle] pub extern "C" fn sched_spawn(t: usize) -> u32 {
    if let Some(n) = sched().limit {
        let s = sched();
        if t >= s.order_of.len() { sx::fail("C24: a file is handed over twice") }
        let first = (0..t).find(|i| !s.taken.contains(i));
        if let Some(f) = first { sx::check(s.order_of[t] - s.order_of[f] <= n, "C24: more entries wait for background work than the queue size allows"); }
    }
    if sched().spawn { sx::flag("task runs at once") as u32 } else { 0 }
}
#[no_mangle] pub extern "C" fn sched_poll(t: usize) -> u32 {
    let r = poll(t);
    if r != 0 && sched().limit.is_some() { sched().taken.push(t) }
    r
}
fn poll(t: usize) -> u32 {
    let s = sched();
    if let Some(n) = s.stuck.get_mut(t) { if *n > 0 { *n -= 1; sx::cover("not ready"); return 0 } return 1 }
    // (a caller that blocks by polling is let through in the end)
    if s.held.contains(&t) { s.patience += 1; return if s.patience > 500 { 1 } else { 0 } }
    if s.polls == 0 { return 1 }
    match sx::choose("poll", if s.order { 4 } else { 3 }) {
        0 => 1,
        1 => { s.polls -= 1; sx::cover("not ready"); 0 }
        2 => { s.polls -= 1; s.held.push(t); sx::cover("not ready until waited for"); 0 }
        _ => { sx::cover("out of order"); 2 }
    }
}
#[no_mangle] pub extern "C" fn sched_wait(t: usize) -> u32 {
    if sched().limit.is_some() { sched().taken.push(t) }
    if sched().order && sx::flag("others first") { sx::cover("out of order"); 2 } else { 1 }
}

fn distinct(name: &[u8], kids: &[(Vec<u8>, usize)]) { for (k, _) in kids { sx::assume(!sx::eq(k, name)); } }
/// A name without '/', NUL, and not "." or "..".
fn name(max: usize, wide: bool, kids: &[(Vec<u8>, usize)]) -> Vec<u8> {
    let n = 1 + sx::choose("name len", max);
    let v = sx::vec("name", n);
    for b in &v { if wide { sx::assume(*b != 0 && *b != b'/') } else { sx::assume(*b > 0x20 && *b < 0x7f && *b != b'/' && *b != b'\\') } }
    if n == 1 { sx::assume(v[0] != b'.') }
    if n == 2 { sx::assume(!sx::eq(&v, b"..")) }
    distinct(&v, kids);
    v
}
/// Every tree of up to `nodes` entries, in every listing order (names are arbitrary, not sorted).
fn tree(typed: bool) -> World {
    let mut w = World::default();
    w.roots.push((b"/model".to_vec(), 0));
    w.nodes.push(Node { kind: DIR, mode: 0o755, typed: true, ..Node::default() });
    let n = sx::choose("nodes", sx::param("nodes") + 1);
    let (wide, kinds) = (sx::param("wide") == 1, sx::param("kinds"));
    let mut parent = 0;
    let attrs = |x: &mut Node| { if sx::param("attrs") == 1 { x.attrs = Some(sx::arr("attrs")); if x.kind != FILE { x.stat_size = Some(x.attrs.unwrap()[4] as u64); x.mode = u16::from_le_bytes(sx::arr("mode")) as u32 & 0o7777; } } };
    attrs(&mut w.nodes[0]);
    for i in 1..=n {
        // breadth-first numbering: parents never go back
        let up: Vec<usize> = (parent..i).filter(|p| w.nodes[*p].kind == DIR).collect();
        parent = up[sx::choose("parent", up.len())];
        let nm = name(sx::param("name"), wide, &w.nodes[parent].kids);
        let files: Vec<usize> = if sx::param("attrs") == 1 { (1..i).filter(|p| w.nodes[*p].kind == FILE).collect() } else { Vec::new() };
        if !files.is_empty() && sx::flag("hard link") {
            // another name of a file; the node of this number stays unused
            let f = files[sx::choose("which", files.len())];
            w.nodes.push(Node { kind: LINK, typed: true, ..Node::default() });
            w.nodes[parent].kids.push((nm, f));
            sx::cover("hard link");
            continue;
        }
        let kind = [DIR, FILE, LINK, OTHER][sx::choose("kind", kinds)];
        let mut x = Node { kind, typed: typed || sx::flag("type listed"), mode: 0o644, ..Node::default() };
        match kind {
            FILE => {
                x.data = sx::vec("data", sx::choose("len", sx::param("len") + 1));
                x.mode = if sx::param("modes") == 1 { u16::from_le_bytes(sx::arr("mode")) as u32 & 0o7777 } else { 0o644 };
            }
            LINK => {
                let t = sx::vec("target", 1 + sx::choose("target len", sx::param("target")));
                for b in &t { if wide { sx::assume(*b != 0) } else { sx::assume(*b > 0x20 && *b < 0x7f && *b != b'\\') } }
                x.target = t;
            }
            OTHER => x.special = sx::choose("special", 4) as u8,
            _ => {}
        }
        attrs(&mut x);
        w.nodes.push(x);
        w.nodes[parent].kids.push((nm, i));
        if kind == OTHER { sx::cover("special file") }
        if !w.nodes[i].typed { sx::cover("type not listed") }
    }
    if n == sx::param("nodes") { sx::cover("full tree") }
    w
}
/// The same tree every time: files, links and directories out of order.
pub fn small_tree(data: usize) -> World {
    let mut w = World::default();
    w.roots.push((b"/model".to_vec(), 0));
    let d = |kids: &[(&str, usize)]| Node { kind: DIR, mode: 0o755, typed: true, kids: kids.iter().map(|k| (k.0.as_bytes().to_vec(), k.1)).collect(), ..Node::default() };
    let f = |mode: u32, n: usize| Node { kind: FILE, mode, typed: true, data: sx::vec("data", n), ..Node::default() };
    w.nodes.push(d(&[("z", 3), ("d", 1), ("b", 2), ("l", 4)]));
    w.nodes.push(d(&[("f", 5)]));
    w.nodes.push(f(0o755, data));
    w.nodes.push(f(0o644, 0));
    w.nodes.push(Node { kind: LINK, mode: 0o777, typed: false, target: b"b".to_vec(), ..Node::default() });
    w.nodes.push(f(0o644, 1));
    w
}
fn less(a: &[u8], b: &[u8]) -> bool {
    let n = a.len().min(b.len());
    for i in 0..n { if a[i] != b[i] { return a[i] < b[i] } }
    a.len() < b.len()
}
/// The rows FORMAT.v1.rst prescribes for the tree.  `cumul`: what blake3 gives (finding K1), the hasher carrying
/// on from block to block (`1`: within a file, `2`: over the whole scan).
pub fn rows(w: &World, ht: usize, bs: u64, cumul: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut seen = Vec::new();
    dir_rows(w, 0, b"/", ht, bs, cumul, &mut seen, &mut out);
    out
}
fn dir_rows(w: &World, dir: usize, path: &[u8], ht: usize, bs: u64, cumul: usize, seen: &mut Vec<u8>, out: &mut Vec<u8>) {
    let kids = &w.nodes[dir].kids;
    let mut ix: Vec<usize> = Vec::new();
    for i in 0..kids.len() {
        let mut at = ix.len();
        while at > 0 && less(&kids[i].0, &kids[ix[at - 1]].0) { at -= 1; }
        ix.insert(at, i);
    }
    out.extend(refm::escape(path));
    out.push(b'\n');
    for &i in &ix {
        let (nm, k) = &kids[i];
        let x = &w.nodes[*k];
        match x.kind {
            FILE => {
                out.extend_from_slice(b"  ");
                out.extend(refm::escape(nm));
                out.extend_from_slice(if x.mode & 0o100 != 0 { b" x " } else { b" f " });
                out.extend(refm::dec(x.data.len() as u64));
                let mut p = 0;
                if cumul < 2 { seen.clear(); }
                while p < x.data.len() {
                    let e = if (x.data.len() - p) as u64 <= bs { x.data.len() } else { p + bs as usize };
                    if cumul == 0 { seen.clear(); }
                    seen.extend_from_slice(&x.data[p..e]);
                    out.push(b' ');
                    out.extend(refm::hex(&refm::hash(ht, seen)));
                    p = e;
                }
                out.push(b'\n');
            }
            LINK => {
                out.extend_from_slice(b"  ");
                out.extend(refm::escape(nm));
                out.extend_from_slice(b" s ");
                out.extend(refm::escape(&x.target));
                out.push(b'\n');
            }
            _ => {}
        }
    }
    for &i in &ix {
        let (nm, k) = &kids[i];
        if w.nodes[*k].kind == DIR { dir_rows(w, *k, &refm::join(path, nm), ht, bs, cumul, seen, out) }
    }
}
/// Header, rows and footer.
pub fn index(w: &World, ht: usize, bs: u64, cumul: usize) -> Vec<u8> {
    let r = rows(w, ht, bs, cumul);
    let mut v = header(ht, bs);
    v.extend_from_slice(&r);
    v.extend(refm::hex(&refm::hash(ht, &r)));
    v.push(b'\n');
    v
}
/// The expected index, given what was written (the K1 form only where it is listed and where it is that form).
pub fn expected(ht: usize, bs: u64, threaded: bool, got: &[u8]) -> Vec<u8> {
    let w = posix::w();
    let want = index(w, ht, bs, 0);
    if ht == 2 && known(1) {
        let k1 = index(w, ht, bs, if threaded { 1 } else { 2 });
        // blocks after the first
        if !sx::eq(&want, &k1) && !sx::eq(got, &want) && got.len() == k1.len() { sx::cover("finding K1"); return k1 }
    }
    want
}
/// The index a scan without disturbance writes: as documented, or (blake3) as finding K1 has it, which is judged
/// by C13 and C14.
pub fn either(ht: usize, bs: u64, threaded: bool, got: &[u8]) -> Vec<u8> {
    let want = index(posix::w(), ht, bs, 0);
    if ht == 2 && !prefix(got, &want) {
        let k1 = index(posix::w(), ht, bs, if threaded { 1 } else { 2 });
        if prefix(got, &k1) { return k1 }
    }
    want
}
pub fn config(ht: usize, bs: u64, threads: usize) -> ScannerConfig {
    let mut c = ScannerConfig::new();
    c.hash(refm::hash_type(ht));
    c.threads(threads);
    c.verif_block_size(bs);
    c.add_dir("/model", "/");
    c
}
fn hash_param() -> usize { let h = sx::param("hash"); if h == 3 { sx::choose("hash", 3) } else { h } }
fn size_param() -> u64 { [1u64, 2, 3, 32768][sx::choose("block size", sx::param("bs"))] }
fn text_len(v: &[u8]) { sx::log("out", &[v.len() as u8, (v.len() >> 8) as u8]); }

/// C13: the index of an arbitrary tree.
#[no_mangle] pub extern "C" fn c13_scan() {
    let (ht, bs) = (hash_param(), size_param());
    let mut w = tree(sx::param("untyped") == 0);
    w.shorts = sx::param("shorts");
    posix::set(w);
    let mut out = Vec::new();
    if v1::scan(&config(ht, bs, 0), &mut out).is_err() { sx::fail("C13: scanning a readable tree fails") }
    let want = expected(ht, bs, false, &out);
    text_len(&out);
    sx::check(sx::eq(&out, &want), "C13: the index is not the documented listing of the tree");
    sx::cover("scanned");
}
/// C10: a file that shrinks or grows after its size has been taken.
#[no_mangle] pub extern "C" fn c10_scan() {
    let (ht, bs) = (hash_param(), size_param());
    let threads = [0, 2][sx::choose("threads", 2)];
    let mut w = World::default();
    w.shorts = sx::param("shorts");
    w.roots.push((b"/model".to_vec(), 0));
    w.nodes.push(Node { kind: DIR, mode: 0o755, typed: true, kids: vec![(b"g".to_vec(), 2), (b"f".to_vec(), 1)], ..Node::default() });
    let n = sx::choose("len", sx::param("len") + 1);
    let size = sx::choose("size", sx::param("len") + 1) as u64;
    let data = sx::vec("data", n);
    w.nodes.push(Node { kind: FILE, mode: 0o644, typed: true, data: data.clone(), stat_size: Some(size), ..Node::default() });
    let after = sx::vec("after", sx::choose("after len", 3));
    w.nodes.push(Node { kind: FILE, mode: 0o644, typed: true, data: after.clone(), ..Node::default() });
    posix::set(w);
    let mut out = Vec::new();
    if v1::scan(&config(ht, bs, threads), &mut out).is_err() {
        sx::check(n as u64 != size, "C10: scanning a file that does not change fails");
        sx::cover("refused");
        return;
    }
    text_len(&out);
    // the rows: header, "/", f, g, footer
    let rows: Vec<&[u8]> = out.split(|b| *b == b'\n').collect();
    if rows.len() != 6 { sx::fail("C10: the scan wrote another number of rows") }
    let fields: Vec<&[u8]> = rows[2].split(|b| *b == b' ').collect();
    if fields.len() < 5 || !sx::eq(fields[2], b"f") { sx::fail("C10: the file has no proper row") }
    let mut rec = 0u64;
    for c in fields[4] { rec = rec * 10 + (*c - b'0') as u64; }
    sx::check(rec == size || rec == n as u64, "C10: the recorded size is neither the size before nor after the change");
    let want = (rec / bs + (rec % bs != 0) as u64) as usize;
    sx::check(fields.len() - 5 == want, "C10: the number of hashes does not match the recorded size");
    if ht != 2 || !known(1) {
        // blocks that were there in full, whatever changed after them
        let mut i = 0;
        while ((i + 1) as u64) * bs <= rec.min(n as u64) && bs < 100 {
            let b = &data[i * bs as usize..(i + 1) * bs as usize];
            sx::check(sx::eq(fields[5 + i], &refm::hex(&refm::hash(ht, b))), "C10: the hash of a block of a changing file is not that of the block");
            i += 1;
        }
        // the next file is not affected
        let mut row = b"  g f ".to_vec();
        row.extend(refm::dec(after.len() as u64));
        for b in after.chunks(bs as usize) { row.push(b' '); row.extend(refm::hex(&refm::hash(ht, b))); }
        sx::check(sx::eq(rows[3], &row), "C10: hashing a changing file affects the next one");
    }
    sx::cover(if (n as u64) < size { "shrunk" } else if n as u64 > size { "grown" } else { "unchanged" });
}
/// C25: what lies outside the tree, and entries replaced by links while the scan runs.
#[no_mangle] pub extern "C" fn c25_stay() {
    let bs = size_param();
    let threads = [0, 2][sx::choose("threads", 2)];
    let mut w = tree(sx::param("untyped") == 0);
    let k = w.nodes.len();
    let node = |kind, kids: &[(&str, usize)]| Node { kind, outside: true, mode: 0o755, typed: true, data: if kind == FILE { b"k".to_vec() } else { vec![] }, kids: kids.iter().map(|k| (k.0.as_bytes().to_vec(), k.1)).collect(), ..Node::default() };
    w.nodes.push(node(DIR, &[("model", 0), ("s", k + 1), ("t", k + 2), ("p", k + 4)]));
    w.nodes.push(node(DIR, &[("k", k + 3)]));
    w.nodes.push(node(FILE, &[]));
    w.nodes.push(node(FILE, &[]));
    w.nodes.push(node(OTHER, &[]));
    w.top = Some(k);
    w.swaps = sx::param("swaps");
    // links to somewhere
    if sx::param("lures") == 1 {
        for x in &mut w.nodes[1..k] {
            if x.kind == LINK { x.target = [&b"/s"[..], b"/t", b"../t", b"/s/k", b"..", b"/p", b".", b"/", b"/model", b"nowhere"][sx::choose("target", 10)].to_vec(); }
        }
    }
    posix::set(w);
    *sched() = Sched { spawn: sx::param("spawn") == 1, polls: sx::param("polls"), ..Sched::default() };
    let mut out = Vec::new();
    let mut c = config(0, bs, threads);
    if sx::param("progress") == 1 && sx::flag("progress") { c.print_progress(); }
    let r = v1::scan(&c, &mut out);
    let w = posix::w();
    text_len(&out);
    sx::check(!w.left, "C25: a scan looks at something outside the tree");
    sx::check(!w.wrote, "C25: a scan opens something for writing");
    let swapped = w.swapped.len();
    if r.is_err() {
        sx::check(swapped > 0, "C25: a scan of a tree that does not change fails");
        sx::cover("refused");
        return;
    }
    // the tree as it is now, or as it was before
    let mut same = sx::eq(&out, &index(w, 0, bs, 0));
    for i in (0..swapped).rev() {
        let (d, k, n) = w.swapped[i];
        w.nodes[d].kids[k].1 = n;
        same = same || sx::eq(&out, &index(w, 0, bs, 0));
    }
    sx::check(same, "C25: the index lists neither the tree before nor after an entry was replaced");
    sx::cover(if swapped > 0 { "recorded" } else { "unchanged" });
}
/// C14: the same through background tasks, under any completion order.
#[no_mangle] pub extern "C" fn c14_threads() {
    let (ht, bs) = (hash_param(), size_param());
    let mut w = tree(true);
    w.faults = sx::param("faults");
    w.errnos = 99;
    posix::set(w);
    *sched() = Sched { spawn: sx::param("spawn") == 1, polls: sx::param("polls"), order: sx::param("order") == 1, ..Sched::default() };
    let mut out = Vec::new();
    let threads = if sx::param("spawn") == 1 { 2 + sx::choose("threads", 2) * 5 } else { 2 };
    let r = v1::scan(&config(ht, bs, threads), &mut out);
    text_len(&out);
    if r.is_err() {
        sx::check(posix::w().hard || posix::w().soft, "C14: a threaded scan of a readable tree fails");
        sx::cover("task failed");
        return;
    }
    sx::check(!posix::w().hard, "C14: a threaded scan succeeds although reading failed");
    let want = expected(ht, bs, true, &out);
    sx::check(sx::eq(&out, &want), "C14: a threaded scan writes another index than a single-threaded one");
    sx::cover("scanned");
}
/// C14: more entries than the queue holds, one task that takes its time.
#[no_mangle] pub extern "C" fn c14_queue() {
    let n = sx::param("files");
    let threads = 2 + sx::choose("threads", 2);
    let mut w = World::default();
    w.roots.push((b"/model".to_vec(), 0));
    w.nodes.push(Node { kind: DIR, mode: 0o755, typed: true, ..Node::default() });
    for i in 0..n {
        let nm = vec![b'a' + (i / 26) as u8, b'a' + (i * 7 % 26) as u8, b'0' + (i % 10) as u8];
        let k = w.nodes.len();
        w.nodes.push(match i % 8 { 5 => Node { kind: LINK, typed: true, target: b"t".to_vec(), ..Node::default() }, 6 => Node { kind: DIR, typed: true, ..Node::default() }, _ => Node { kind: FILE, mode: 0o644, typed: true, data: if i % 3 == 0 { vec![i as u8] } else { vec![] }, ..Node::default() } });
        w.nodes[0].kids.push((nm, k));
    }
    posix::set(w);
    let mut stuck = vec![0; n];
    let first = sx::choose("slow task", sx::param("slow"));
    stuck[first] = [0, 1, 2, 30, 31, 32, 33, 34, 60, 1000][sx::choose("polls", 10)];
    if first + 2 < n && sx::flag("second slow task") { stuck[first + 1 + sx::choose("gap", 2)] = [1, 40][sx::choose("polls", 2)]; }
    *sched() = Sched { stuck, ..Sched::default() };
    let mut out = Vec::new();
    if v1::scan(&config(0, 32768, threads), &mut out).is_err() { sx::fail("C14: a threaded scan of a readable tree fails") }
    let want = expected(0, 32768, true, &out);
    text_len(&out);
    sx::check(sx::eq(&out, &want), "C14: a threaded scan writes another index than a single-threaded one");
    sx::cover("scanned");
    if n > threads * 16 { sx::cover("queue full") }
}
pub fn has_footer(out: &[u8]) -> bool {
    let mut at = out.len();
    if at == 0 { return false }
    // the last line, complete or not
    at -= 1;
    while at > 0 && out[at - 1] != b'\n' { at -= 1; }
    !(out[at] == b' ' || out[at] == b'/' || at == 0 || out[at] == b'\n')
}
/// C15: file-system calls that fail.
#[no_mangle] pub extern "C" fn c15_faults() {
    let threads = [0, 2][sx::choose("threads", 2)];
    let (ht, bs) = (hash_param(), size_param());
    let mut w = if sx::param("nodes") == 0 { let mut w = small_tree(sx::param("len")); let t = sx::param("untyped") == 0; for n in &mut w.nodes { n.typed = t } w } else { tree(sx::param("untyped") == 0) };
    w.faults = sx::param("faults");
    w.ints = sx::param("ints");
    w.shorts = sx::param("shorts");
    w.errnos = sx::param("errnos");
    posix::set(w);
    *sched() = Sched { polls: sx::param("polls"), ..Sched::default() };
    let mut out = Vec::new();
    let mut c = config(ht, bs, threads);
    let r = { c.threads(threads); v1::scan(&c, &mut out) };
    let (hard, soft) = (posix::w().hard, posix::w().soft);
    text_len(&out);
    match r {
        Ok(()) => {
            sx::check(!hard, "C15: a scan succeeds although a file-system call failed");
            let want = either(ht, bs, threads > 1, &out);
            sx::check(sx::eq(&out, &want), "C15: a scan succeeds with an incomplete index");
            sx::cover(if soft { "recovered" } else { "no fault" });
        }
        Err(e) => {
            sx::check(hard || soft, "C15: a scan without faults fails");
            sx::check(!has_footer(&out), "C15: a failed scan has written a footer");
            sx::check(!matches!(e, Error::WriteError(_)), "C15: a read fault is reported as a write error");
            sx::cover("failed");
            if threads > 1 { sx::cover("failed in threaded scan") }
        }
    }
}
pub fn sink() -> Sink { Sink { shorts: sx::param("shorts"), ints: sx::param("ints"), errs: sx::param("errs"), errnos: true, ..Sink::default() } }
pub fn prefix(a: &[u8], b: &[u8]) -> bool { a.len() <= b.len() && sx::eq(a, &b[..a.len()]) }
/// C16: a scan into a destination that is short, interrupts or fails.
#[no_mangle] pub extern "C" fn c16_scan() {
    let threads = [0, 2][sx::choose("threads", 2)];
    let (ht, bs) = (hash_param(), size_param());
    posix::set(small_tree(sx::param("len")));
    *sched() = Sched { polls: sx::param("polls"), ..Sched::default() };
    let mut out = sink();
    let r = v1::scan(&config(ht, bs, threads), &mut out);
    let want = either(ht, bs, threads > 1, &out.data);
    text_len(&out.data);
    match r {
        Ok(()) => {
            sx::check(!out.failed, "C16: a scan succeeds although writing failed");
            sx::check(sx::eq(&out.data, &want), "C16: short or interrupted writes change the index");
            sx::cover("written");
        }
        Err(e) => {
            sx::check(out.failed, "C16: a scan fails although nothing failed");
            sx::check(matches!(e, Error::WriteError(_)), "C16: a failing destination is not reported as a write error");
            sx::check(prefix(&out.data, &want) && out.data.len() < want.len(), "C16: what was written before the failure is not a prefix of the index");
            sx::cover("failed");
        }
    }
}
/// C16: an emitter session into such a destination.
#[no_mangle] pub extern "C" fn c16_emit() {
    let ht = hash_param();
    let data = sx::vec("data", 3);
    let nm = [b'a', sx::byte("name")];
    sx::assume(nm[1] != b'/');
    let (size, h) = match Hashes::hash_file(refm::hash_type(ht), 2, &data[..]) { Ok(x) => x, Err(_) => sx::fail("C16: hashing memory fails") };
    let mut hb = Vec::new();
    for x in h.iter() { hb.extend_from_slice(x); }
    let mut r = b"/\n  ".to_vec();
    r.extend(refm::escape(&nm));
    r.extend_from_slice(b" x 3");
    for c in hb.chunks(32) { r.push(b' '); r.extend(refm::hex(c)); }
    r.extend_from_slice(b"\n  l s ");
    r.extend(refm::escape(&nm));
    r.extend_from_slice(b"\n/d\n");
    let mut want = header(ht, 2);
    want.extend_from_slice(&r);
    want.extend(refm::hex(&refm::hash(ht, &r)));
    want.push(b'\n');
    let mut out = sink();
    let res = (|| -> io::Result<()> {
        let mut e = Emitter::new(refm::hash_type(ht), 2, &mut out)?;
        e.start_dir(path(b"/"))?;
        e.add_file(OsStr::from_bytes(&nm), true, size, &h)?;
        e.add_symlink(OsStr::new("l"), path(&nm))?;
        e.start_dir(path(b"/d"))?;
        e.finish()
    })();
    text_len(&out.data);
    match res {
        Ok(()) => {
            sx::check(!out.failed, "C16: an emitter session succeeds although writing failed");
            sx::check(sx::eq(&out.data, &want), "C16: short or interrupted writes change the emitted index");
            sx::cover("written");
        }
        Err(_) => {
            sx::check(out.failed, "C16: an emitter session fails although nothing failed");
            sx::check(prefix(&out.data, &want) && out.data.len() < want.len(), "C16: what was emitted before the failure is not a prefix of the index");
            sx::cover("failed");
        }
    }
}
fn check_footer(out: &[u8], ht: usize, bs: u64) {
    let h = header(ht, bs).len();
    sx::check(out.len() >= h + 65 && out[out.len() - 1] == b'\n', "C17: the index does not end with a footer line");
    let body = &out[h..out.len() - 65];
    let d = refm::hash(ht, body);
    sx::check(sx::eq(&out[out.len() - 65..out.len() - 1], &refm::hex(&d)), "C17: the footer is not the hash of the lines before it");
    if sx::param("get") == 0 { sx::cover("footer"); return }
    match dir_signature::get_hash(&mut io::Cursor::new(out)) {
        Ok(g) => {
            sx::check(sx::eq(&g, &d), "C17: get_hash returns another hash than the footer's");
        }
        Err(_) => sx::fail("C17: get_hash refuses a written index"),
    }
    sx::cover("footer");
}
/// C17: the footer of scans of every kind.
#[no_mangle] pub extern "C" fn c17_scan() {
    let (ht, bs) = (hash_param(), size_param());
    let threads = [0, 2][sx::choose("threads", 2)];
    let mut w = tree(true);
    let progress = sx::flag("progress");
    w.clock = vec![0, 200, 200, 201];
    posix::set(w);
    *sched() = Sched { polls: sx::param("polls"), ..Sched::default() };
    let mut c = config(ht, bs, threads);
    if progress { c.print_progress(); }
    let mut out = Vec::new();
    if v1::scan(&c, &mut out).is_err() { sx::fail("C17: scanning a readable tree fails") }
    text_len(&out);
    check_footer(&out, ht, bs);
    if progress { sx::cover("with progress") }
    if threads > 1 { sx::cover("threaded") }
}
/// C17: the footer of emitter sessions.
#[no_mangle] pub extern "C" fn c17_emit() {
    let ht = hash_param();
    let n = sx::choose("rows", sx::param("rows") + 1);
    let mut out = Vec::new();
    {
        let mut e = Emitter::new(refm::hash_type(ht), 1, &mut out).unwrap();
        for i in 0..n {
            let nm = sx::vec("name", 1 + sx::choose("name len", sx::param("name")));
            for b in &nm { sx::assume(*b != b'/' && *b != b'.'); }
            match sx::choose("row", 3) {
                0 => e.start_dir(path(&refm::join(b"/", &nm))).unwrap(),
                1 => e.add_symlink(OsStr::from_bytes(&nm), path(b"x")).unwrap(),
                _ => {
                    let d = sx::vec("data", i % 3);
                    let (size, h) = match Hashes::hash_file(refm::hash_type(ht), 1, &d[..]) { Ok(x) => x, Err(_) => sx::fail("C17: hashing memory fails") };
                    e.add_file(OsStr::from_bytes(&nm), i % 2 == 0, size, &h).unwrap();
                }
            }
        }
        if e.finish().is_err() { sx::fail("C17: finish fails on memory") }
    }
    text_len(&out);
    check_footer(&out, ht, 1);
    if n == sx::param("rows") { sx::cover("full session") }
}
/// C23: a scan with progress, at any pace, with a working or failing stderr.
#[no_mangle] pub extern "C" fn c23_progress() {
    let threads = [0, 2][sx::choose("threads", 2)];
    let (ht, bs) = (hash_param(), size_param());
    let mut w = if sx::param("nodes") == 0 { small_tree(sx::param("len")) } else { tree(true) };
    w.stderr_flaky = sx::param("flaky");
    w.stderr_fails = w.stderr_flaky == 0 && sx::flag("stderr fails");
    w.faults = sx::param("faults");
    w.errnos = 99;
    let mut t = 0;
    for _ in 0..sx::param("ticks") { w.pace = [0u64, 1, 100, 101, 3_600_000][sx::choose("tick", sx::param("paces"))]; t += w.pace; w.clock.push(t); }
    posix::set(w);
    *sched() = Sched { polls: sx::param("polls"), ..Sched::default() };
    let mut c = config(ht, bs, threads);
    c.print_progress();
    let mut out = sink();
    let r = v1::scan(&c, &mut out);
    let (hard, soft) = (posix::w().hard, posix::w().soft);
    text_len(&out.data);
    match r {
        Ok(()) => {
            sx::check(!hard && !out.failed, "C23: a scan with progress succeeds although something failed");
            let want = either(ht, bs, threads > 1, &out.data);
            sx::check(sx::eq(&out.data, &want), "C23: progress reporting changes the index");
            let e = &posix::w().stderr;
            sx::check(posix::w().stderr_fails || posix::w().stderr_lost || reports(e, &out.data), "C23: progress reports another hash than the index has");
            sx::cover("scanned");
            if posix::w().stderr_lost { sx::cover("stderr fails once") }
            if posix::w().stderr_fails { sx::cover("stderr fails") } else if e.iter().filter(|b| **b == b'\r').count() > 0 { sx::cover("progress printed") }
        }
        Err(e) => {
            sx::check(hard || soft || out.failed, "C23: progress reporting makes a scan fail");
            sx::check(matches!(e, Error::WriteError(_)) == out.failed || hard || soft, "C23: progress reporting changes the error");
            sx::check(!has_footer(&out.data) || out.failed, "C23: a failed scan has written a footer");
            sx::cover("failed");
        }
    }
}
/// Does the last progress line name the beginning of the footer hash?
pub fn reports(e: &[u8], out: &[u8]) -> bool {
    let f = &out[out.len() - 65..];
    let at = match (0..e.len()).rev().find(|i| e[*i..].starts_with(b"Done ")) { Some(i) => i + 5, None => return false };
    e.len() >= at + 8 && sx::eq(&e[at..at + 8], &f[..8])
}
