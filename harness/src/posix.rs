//! The file system as the solver sees it: the system calls of `openat` and of `std::fs`, over a small tree with
//! symbolic names, contents, modes and faults. Descriptors from BASE on belong to the model; in the native
//! replay everything else goes to the real system.
#![allow(dead_code, static_mut_refs)]
use crate::sx;
use libc::{c_char, c_int, c_void, off_t, size_t, ssize_t};

pub const BASE: c_int = 1000;
pub const DIR: u8 = 0;
pub const FILE: u8 = 1;
pub const LINK: u8 = 2;
pub const OTHER: u8 = 3;

#[derive(Default, Clone)]
pub struct Node {
    pub kind: u8,
    /// not in the tree
    pub outside: bool,
    /// permission bits (may be symbolic)
    pub mode: u32,
    pub data: Vec<u8>,
    pub target: Vec<u8>,
    pub kids: Vec<(Vec<u8>, usize)>,
    /// the listing tells the type of this entry
    pub typed: bool,
    /// `d_type` reported for special files
    pub special: u8,
    /// the size stat reports, when the file changes before it is read
    pub stat_size: Option<u64>,
    /// reading it fails
    pub broken: bool,
    /// what else is known about it (any values): device, links, owner, group, blocks, block size, times
    pub attrs: Option<[u8; 8]>,
}
#[derive(Default)]
struct Fd { node: usize, pos: usize, path_only: bool, dir: bool, open: bool, out: bool, statted: bool }
struct Stream { fd: c_int, at: usize, dots: u8, ent: libc::dirent, open: bool }
#[derive(Default)]
pub struct World {
    pub nodes: Vec<Node>,
    pub roots: Vec<(Vec<u8>, usize)>,
    fds: Vec<Fd>,
    /// descriptors open now, and the most at once
    opened: usize,
    most: usize,
    /// how many calls may fail, be interrupted, be short
    pub faults: usize,
    pub ints: usize,
    pub shorts: usize,
    /// a call that must not be ignored has failed
    pub hard: bool,
    /// a call that may be retried or ignored has failed
    pub soft: bool,
    pub errnos: usize,
    /// regular files opened and read to their end
    pub reads_done: usize,
    /// stderr: 0 = accepts, 1 = fails
    pub stderr_fails: bool,
    /// how many writes to it may fail or be partial ; whether one did
    pub stderr_flaky: usize,
    pub stderr_lost: bool,
    pub stderr: Vec<u8>,
    /// clock readings in milliseconds, taken in turn ; after them the clock goes on by `pace` each time
    pub clock: Vec<u64>,
    pub pace: u64,
    pub clock_at: usize,
    /// the file created for writing, and standard output
    pub sink: crate::scan::Sink,
    pub created: usize,
    /// what the file to write to held before, and how it was opened
    pub old: Vec<u8>,
    pub kept: bool,
    pub append: bool,
    pub stdout_is_sink: bool,
    /// the tool runs: exit() ends it
    pub exits: bool,
    /// how many processors there are (0: two)
    pub cpus: usize,
    /// the directory "/", if there is anything outside the tree (paths are then resolved in full)
    pub top: Option<usize>,
    /// how many entries may be replaced by links when they are looked up ; which were (directory, entry, node)
    pub swaps: usize,
    pub swapped: Vec<(usize, usize, usize)>,
    /// something outside the tree has been looked at ; something has been opened for writing
    pub left: bool,
    pub wrote: bool,
}
impl World {
    pub fn reserve(&mut self, n: usize) { self.fds.reserve(n) }
    /// Start counting descriptors.
    pub fn watch(&mut self) { self.opened = 0; self.most = 0; }
    pub fn most_open(&self) -> usize { self.most }
    pub fn still_open(&self) -> usize { self.opened }
}
static mut W: *mut World = std::ptr::null_mut();
pub fn set(w: World) { unsafe { W = Box::into_raw(Box::new(w)) } }
pub fn active() -> bool { unsafe { !W.is_null() } }
#[allow(clippy::mut_from_ref)]
pub fn w() -> &'static mut World { unsafe { &mut *W } }
fn errno(e: c_int) { unsafe { *libc::__errno_location() = e } }
const ERR: [c_int; 5] = [libc::EIO, libc::ENOENT, libc::EACCES, libc::ENOTDIR, libc::EMFILE];

/// May this call fail now?  `soft`: the caller may carry on without it.
fn fault(soft: bool) -> bool {
    let w = w();
    if w.faults == 0 || !sx::flag("fault") { return false }
    w.faults -= 1;
    if soft { w.soft = true } else { w.hard = true }
    errno(match w.errnos { 0 => libc::EIO, 99 => sx::errno(), n => ERR[sx::choose("errno", n)] });
    true
}
fn interrupted() -> bool {
    let w = w();
    if w.ints == 0 || !sx::flag("interrupt") { return false }
    w.ints -= 1;
    w.soft = true;
    errno(libc::EINTR);
    true
}
unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] { let mut n = 0; while *p.add(n) != 0 { n += 1; } std::slice::from_raw_parts(p as *const u8, n) }
fn fd(n: c_int) -> Option<&'static mut Fd> {
    match w().fds.get_mut((n - BASE) as usize) { Some(f) if f.open => Some(f), _ => { errno(libc::EBADF); None } }
}
fn ours(n: c_int) -> bool { active() && n >= BASE }
fn new_fd(f: Fd) -> c_int { let w = w(); w.opened += 1; w.most = w.most.max(w.opened); w.fds.push(Fd { open: true, ..f }); BASE + w.fds.len() as c_int - 1 }
fn child(dir: usize, name: &[u8]) -> Option<usize> {
    if name.len() == 1 && name[0] == b'.' { return Some(dir) }
    for (n, k) in &w().nodes[dir].kids { if sx::eq(n, name) { return Some(*k) } }
    None
}
/// Where a link set while the scan runs may point to.
const LURES: [&[u8]; 6] = [b"/s", b"/t", b"../s/k", b"..", b".", b"nowhere"];
/// The node a path names, with everything that can be in a path.
fn walk(start: usize, path: &[u8], follow: bool, hops: &mut usize) -> Result<usize, c_int> {
    let w = w();
    let mut at = start;
    let comps: Vec<&[u8]> = path.split(|b| *b == b'/').collect();
    if path.is_empty() { return Err(libc::ENOENT) }
    if comps[0].is_empty() { at = match w.top { Some(t) => t, None => return Err(libc::ENOENT) }; }
    for i in 0..comps.len() {
        let c = comps[i];
        if w.nodes[at].kind != DIR { return Err(libc::ENOTDIR) }
        if c.is_empty() || c == b"." { continue }
        if c == b".." {
            at = (0..w.nodes.len()).find(|p| w.nodes[*p].kids.iter().any(|k| k.1 == at)).unwrap_or(at);
            continue
        }
        let k = match w.nodes[at].kids.iter().position(|k| sx::eq(&k.0, c)) { Some(k) => k, None => return Err(libc::ENOENT) };
        let mut n = w.nodes[at].kids[k].1;
        if w.swaps > 0 && !w.nodes[n].outside && n != w.roots[0].1 && sx::flag("replaced") {
            w.swaps -= 1;
            w.swapped.push((at, k, n));
            n = w.nodes.len();
            w.nodes.push(Node { kind: LINK, mode: 0o777, target: LURES[sx::choose("lure", LURES.len())].to_vec(), ..Node::default() });
            w.nodes[at].kids[k].1 = n;
        }
        if w.nodes[n].kind == LINK && (follow || i + 1 < comps.len()) {
            *hops += 1;
            if *hops > 4 { return Err(libc::ELOOP) }
            let t = w.nodes[n].target.clone();
            n = walk(at, &t, true, hops)?;
        }
        at = n;
    }
    if w.nodes[at].outside { w.left = true }
    Ok(at)
}
fn lookup(start: usize, path: &[u8], follow: bool) -> Option<usize> {
    match walk(start, path, follow, &mut 0) { Ok(n) => Some(n), Err(e) => { errno(e); None } }
}
/// The path of a directory.
fn path_of(n: usize) -> Vec<u8> {
    let w = w();
    let mut v = Vec::new();
    let mut at = n;
    while let Some(p) = (0..w.nodes.len()).find(|p| w.nodes[*p].kids.iter().any(|k| k.1 == at)) {
        let k = w.nodes[p].kids.iter().find(|k| k.1 == at).unwrap();
        let mut x = vec![b'/'];
        x.extend_from_slice(&k.0);
        x.extend_from_slice(&v);
        v = x;
        at = p;
    }
    if v.is_empty() { v.push(b'/') }
    v
}
const WRITES: c_int = libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND;
fn openat_node(node: usize, dir: usize, flags: c_int) -> c_int {
    let w = w();
    if flags & WRITES != 0 { w.wrote = true }
    let mut node = node;
    let mut hops = 0;
    while w.nodes[node].kind == LINK {
        if flags & libc::O_NOFOLLOW != 0 {
            if flags & libc::O_PATH != 0 && flags & libc::O_DIRECTORY == 0 { break }
            errno(if flags & libc::O_DIRECTORY != 0 { libc::ENOTDIR } else { libc::ELOOP });
            return -1;
        }
        hops += 1;
        if hops > 4 { errno(libc::ELOOP); return -1 }
        match child(dir, &w.nodes[node].target.clone()) { Some(n) => node = n, None => { errno(libc::ENOENT); return -1 } }
    }
    let k = w.nodes[node].kind;
    if flags & libc::O_DIRECTORY != 0 && k != DIR { errno(libc::ENOTDIR); return -1 }
    if k == OTHER && flags & libc::O_PATH == 0 { sx::fail("a special file is opened") }
    new_fd(Fd { node, path_only: flags & libc::O_PATH != 0, dir: k == DIR, ..Fd::default() })
}
fn open_model(path: &[u8], flags: c_int) -> c_int {
    let w = w();
    if path == b"/out" || path == b"/index" {
        if sx_fault_create() { return -1 }
        if flags & libc::O_EXCL != 0 && !w.old.is_empty() { errno(libc::EEXIST); return -1 }
        w.created += 1;
        w.kept = flags & libc::O_TRUNC == 0;
        w.append = flags & libc::O_APPEND != 0;
        return new_fd(Fd { out: true, ..Fd::default() });
    }
    for (r, n) in &w.roots {
        if path == &r[..] {
            if fault(false) { return -1 }
            return openat_node(*n, *n, flags);
        }
    }
    if let Some(t) = w.top {
        if flags & WRITES != 0 { w.wrote = true }
        if let Some(n) = lookup(t, path, flags & libc::O_NOFOLLOW == 0) { return openat_node(n, n, flags) }
        return -1;
    }
    errno(libc::ENOENT);
    -1
}
fn sx_fault_create() -> bool { let w = w(); if w.sink.errs > 0 && sx::flag("create fails") { w.sink.errs -= 1; w.sink.failed = true; errno(libc::EACCES); true } else { false } }
fn open_any(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if active() { return open_model(unsafe { cstr(path) }, flags) }
    real(libc::SYS_open, [path as usize, flags as usize, mode as usize, 0, 0]) as c_int
}
fn openat_any(d: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if !ours(d) {
        if active() && d == libc::AT_FDCWD { return open_any(path, flags, mode) }
        return real(libc::SYS_openat, [d as usize, path as usize, flags as usize, mode as usize, 0]) as c_int;
    }
    let p = unsafe { cstr(path) };
    let f = match fd(d) { Some(f) => f, None => return -1 };
    if !f.dir { errno(libc::ENOTDIR); return -1 }
    if fault(false) { return -1 }
    if w().top.is_some() {
        if flags & WRITES != 0 { w().wrote = true }
        return match lookup(f.node, p, flags & libc::O_NOFOLLOW == 0) { Some(n) => openat_node(n, f.node, flags), None => -1 };
    }
    match child(f.node, p) { Some(n) => openat_node(n, f.node, flags), None => { errno(libc::ENOENT); -1 } }
}
#[cfg(feature = "native")]
fn real(n: libc::c_long, a: [usize; 5]) -> isize { unsafe { libc::syscall(n, a[0], a[1], a[2], a[3], a[4]) as isize } }
#[cfg(not(feature = "native"))]
fn real(_: libc::c_long, _: [usize; 5]) -> isize { errno(libc::ENOSYS); -1 }

#[no_mangle] pub extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int { open_any(path, flags, mode) }
#[no_mangle] pub extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int { open_any(path, flags, mode) }
#[no_mangle] pub extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int { openat_any(d, path, flags, mode) }
#[no_mangle] pub extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int { openat_any(d, path, flags, mode) }
#[no_mangle] pub extern "C" fn close(n: c_int) -> c_int {
    if !ours(n) { return real(libc::SYS_close, [n as usize, 0, 0, 0, 0]) as c_int }
    match fd(n) { Some(f) => { f.open = false; w().opened -= 1; 0 } None => -1 }
}
#[no_mangle] pub extern "C" fn dup(n: c_int) -> c_int {
    if active() && n == 1 && w().stdout_is_sink { return new_fd(Fd { out: true, ..Fd::default() }) }
    if !ours(n) { return real(libc::SYS_dup, [n as usize, 0, 0, 0, 0]) as c_int }
    match fd(n) { Some(f) => { let g = Fd { node: f.node, pos: f.pos, path_only: f.path_only, dir: f.dir, out: f.out, ..Fd::default() }; new_fd(g) } None => -1 }
}
#[no_mangle] pub extern "C" fn fcntl(n: c_int, cmd: c_int, arg: usize) -> c_int {
    if active() && n == 1 && w().stdout_is_sink && (cmd == libc::F_DUPFD_CLOEXEC || cmd == libc::F_DUPFD) { return dup(n) }
    if !ours(n) { return real(libc::SYS_fcntl, [n as usize, cmd as usize, arg, 0, 0]) as c_int }
    if cmd == libc::F_DUPFD_CLOEXEC || cmd == libc::F_DUPFD { return dup(n) }
    if fd(n).is_some() { 0 } else { -1 }
}
#[no_mangle] pub extern "C" fn fdopendir(n: c_int) -> *mut c_void {
    let f = match fd(n) { Some(f) => f, None => return std::ptr::null_mut() };
    if !f.dir { errno(libc::ENOTDIR); return std::ptr::null_mut() }
    if f.path_only { errno(libc::EBADF); return std::ptr::null_mut() }
    if fault(false) { return std::ptr::null_mut() }
    Box::into_raw(Box::new(Stream { fd: n, at: 0, dots: 0, ent: unsafe { std::mem::zeroed() }, open: true })) as *mut c_void
}
#[no_mangle] pub extern "C" fn closedir(d: *mut c_void) -> c_int {
    let s = unsafe { Box::from_raw(d as *mut Stream) };
    close(s.fd)
}
#[no_mangle] pub extern "C" fn readdir(d: *mut c_void) -> *mut libc::dirent {
    let s = unsafe { &mut *(d as *mut Stream) };
    let f = match fd(s.fd) { Some(f) => f, None => return std::ptr::null_mut() };
    if fault(false) { return std::ptr::null_mut() }
    let node = &w().nodes[f.node];
    let e = &mut s.ent;
    let put = |e: &mut libc::dirent, n: &[u8]| { for i in 0..n.len() { e.d_name[i] = n[i] as c_char } e.d_name[n.len()] = 0; };
    if s.dots == 0 { s.dots = 1; put(e, b"."); e.d_type = libc::DT_DIR; e.d_ino = 2 + f.node as u64; return e }
    if s.dots == 1 && s.at == node.kids.len().min(1) { s.dots = 2; put(e, b".."); e.d_ino = 2; e.d_type = libc::DT_DIR; return e }
    if s.at >= node.kids.len() { return std::ptr::null_mut() }
    let (n, k) = &node.kids[s.at];
    s.at += 1;
    put(e, n);
    e.d_ino = 2 + *k as u64;
    e.d_off = s.at as i64;
    e.d_reclen = 280;
    let kid = &w().nodes[*k];
    e.d_type = if !kid.typed { libc::DT_UNKNOWN } else { match kid.kind { DIR => libc::DT_DIR, FILE => libc::DT_REG, LINK => libc::DT_LNK, _ => [libc::DT_FIFO, libc::DT_CHR, libc::DT_BLK, libc::DT_SOCK][kid.special as usize] } };
    e
}
#[no_mangle] pub extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent { readdir(d) }
fn full_mode(n: &Node) -> u32 {
    n.mode | match n.kind { DIR => libc::S_IFDIR, FILE => libc::S_IFREG, LINK => libc::S_IFLNK, _ => [libc::S_IFIFO, libc::S_IFCHR, libc::S_IFBLK, libc::S_IFSOCK][n.special as usize] }
}
fn size(n: &Node) -> u64 { match n.kind { LINK => n.stat_size.unwrap_or(n.target.len() as u64), FILE => n.stat_size.unwrap_or(n.data.len() as u64), DIR => n.stat_size.unwrap_or(4096), _ => 0 } }
unsafe fn put_stat(i: usize, st: *mut libc::stat) {
    let n = &w().nodes[i];
    let mut z: libc::stat = std::mem::zeroed();
    z.st_mode = full_mode(n);
    z.st_size = size(n) as i64;
    z.st_nlink = 1;
    z.st_blksize = 4096;
    z.st_ino = 2 + i as u64;
    if let Some(a) = &n.attrs {
        z.st_dev = a[0] as u64;
        z.st_nlink = a[1] as u64;
        z.st_uid = a[2] as u32;
        z.st_gid = a[3] as u32;
        z.st_blocks = a[4] as i64;
        z.st_blksize = a[5] as i64;
        z.st_mtime = a[6] as i64;
        z.st_ctime = a[7] as i64;
        z.st_atime = a[7] as i64;
    }
    *st = z;
}
unsafe fn put_statx(i: usize, out: *mut libc::statx) {
    let n = &w().nodes[i];
    let mut z: libc::statx = std::mem::zeroed();
    z.stx_mask = 0x7ff;
    z.stx_mode = full_mode(n) as u16;
    z.stx_size = size(n);
    z.stx_nlink = 1;
    z.stx_blksize = 4096;
    z.stx_ino = 2 + i as u64;
    if let Some(a) = &n.attrs {
        z.stx_dev_minor = a[0] as u32;
        z.stx_nlink = a[1] as u32;
        z.stx_uid = a[2] as u32;
        z.stx_gid = a[3] as u32;
        z.stx_blocks = a[4] as u64;
        z.stx_blksize = a[5] as u32;
        z.stx_mtime.tv_sec = a[6] as i64;
        z.stx_ctime.tv_sec = a[7] as i64;
        z.stx_atime.tv_sec = a[7] as i64;
    }
    *out = z;
}
#[no_mangle] pub extern "C" fn ftruncate64(n: c_int, len: off_t) -> c_int {
    if !ours(n) { return real(libc::SYS_ftruncate, [n as usize, len as usize, 0, 0, 0]) as c_int }
    match fd(n) { Some(f) if f.out && len == 0 && w().sink.data.is_empty() => { w().kept = false; 0 } _ => { errno(libc::EINVAL); -1 } }
}
/// Which node does a stat-like call name, if it does not fail?
fn stat_node(d: c_int, path: *const c_char, flags: c_int) -> Option<usize> {
    let p = if path.is_null() { &[][..] } else { unsafe { cstr(path) } };
    let f = fd(d)?;
    if p.is_empty() {
        if flags & libc::AT_EMPTY_PATH == 0 { errno(libc::ENOENT); return None }
        // a second look at an open file is a hint, not part of the scan
        let again = f.statted;
        f.statted = true;
        if fault(again) { return None }
        return Some(f.node);
    }
    if !f.dir { errno(libc::ENOTDIR); return None }
    if fault(false) { return None }
    if w().top.is_some() { return lookup(f.node, p, flags & libc::AT_SYMLINK_NOFOLLOW == 0) }
    let mut n = match child(f.node, p) { Some(n) => n, None => { errno(libc::ENOENT); return None } };
    let mut hops = 0;
    while w().nodes[n].kind == LINK && flags & libc::AT_SYMLINK_NOFOLLOW == 0 {
        hops += 1;
        let t = w().nodes[n].target.clone();
        match child(f.node, &t) { Some(x) if hops < 5 => n = x, _ => { errno(libc::ENOENT); return None } }
    }
    Some(n)
}
#[no_mangle] pub extern "C" fn fstatat(d: c_int, path: *const c_char, st: *mut libc::stat, flags: c_int) -> c_int {
    if !ours(d) { return real(libc::SYS_newfstatat, [d as usize, path as usize, st as usize, flags as usize, 0]) as c_int }
    match stat_node(d, path, flags) { Some(n) => { unsafe { put_stat(n, st) } 0 } None => -1 }
}
#[no_mangle] pub extern "C" fn fstatat64(d: c_int, path: *const c_char, st: *mut libc::stat, flags: c_int) -> c_int { fstatat(d, path, st, flags) }
#[no_mangle] pub extern "C" fn fstat(n: c_int, st: *mut libc::stat) -> c_int { fstatat(n, c"".as_ptr(), st, libc::AT_EMPTY_PATH) }
#[no_mangle] pub extern "C" fn fstat64(n: c_int, st: *mut libc::stat) -> c_int { fstatat(n, c"".as_ptr(), st, libc::AT_EMPTY_PATH) }
#[no_mangle] pub extern "C" fn statx(d: c_int, path: *const c_char, flags: c_int, mask: u32, out: *mut libc::statx) -> c_int {
    if active() && path.is_null() && flags & libc::AT_EMPTY_PATH == 0 { errno(libc::EFAULT); return -1 } // std asks whether statx exists
    if active() && d == libc::AT_FDCWD {
        let p = unsafe { cstr(path) };
        for (r, n) in &w().roots {
            if p == &r[..] {
                if fault(false) { return -1 }
                unsafe { put_statx(*n, out) }
                return 0;
            }
        }
        if let Some(t) = w().top { return match lookup(t, p, flags & libc::AT_SYMLINK_NOFOLLOW == 0) { Some(n) => { unsafe { put_statx(n, out) } 0 } None => -1 } }
    }
    if !ours(d) {
        if active() { errno(libc::ENOENT); return -1 }
        return real(libc::SYS_statx, [d as usize, path as usize, flags as usize, mask as usize, out as usize]) as c_int;
    }
    if let Some(f) = fd(d) { if f.out { errno(libc::EIO); return -1 } }
    match stat_node(d, path, flags) {
        Some(n) => {
            unsafe { put_statx(n, out) }
            0
        }
        None => -1,
    }
}
fn named(path: *const c_char, follow: bool) -> Option<usize> {
    let p = unsafe { cstr(path) };
    for (r, n) in &w().roots { if p == &r[..] { return Some(*n) } }
    match w().top { Some(t) => lookup(t, p, follow), None => { errno(libc::ENOENT); None } }
}
#[no_mangle] pub extern "C" fn stat64(path: *const c_char, st: *mut libc::stat) -> c_int {
    if !active() { return real(libc::SYS_newfstatat, [libc::AT_FDCWD as usize, path as usize, st as usize, 0, 0]) as c_int }
    match named(path, true) { Some(n) => { unsafe { put_stat(n, st) } 0 } None => -1 }
}
#[no_mangle] pub extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat) -> c_int {
    if !active() { return real(libc::SYS_newfstatat, [libc::AT_FDCWD as usize, path as usize, st as usize, libc::AT_SYMLINK_NOFOLLOW as usize, 0]) as c_int }
    match named(path, false) { Some(n) => { unsafe { put_stat(n, st) } 0 } None => -1 }
}
#[no_mangle] pub extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if !active() { return real(libc::SYS_faccessat, [libc::AT_FDCWD as usize, path as usize, mode as usize, 0, 0]) as c_int }
    if named(path, true).is_some() { 0 } else { -1 }
}
#[no_mangle] pub extern "C" fn faccessat(d: c_int, path: *const c_char, mode: c_int, flags: c_int) -> c_int {
    if active() && d == libc::AT_FDCWD { return access(path, mode) }
    if !ours(d) { return real(libc::SYS_faccessat, [d as usize, path as usize, mode as usize, 0, 0]) as c_int }
    if stat_node(d, path, flags).is_some() { 0 } else { -1 }
}
#[no_mangle] pub extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    let n = open_any(path, libc::O_DIRECTORY, 0);
    if n < 0 { return std::ptr::null_mut() }
    fdopendir(n)
}
#[no_mangle] pub extern "C" fn dirfd(d: *mut c_void) -> c_int { unsafe { (*(d as *mut Stream)).fd } }
#[no_mangle] pub extern "C" fn read(n: c_int, b: *mut c_void, len: size_t) -> ssize_t {
    if !ours(n) { return real(libc::SYS_read, [n as usize, b as usize, len, 0, 0]) }
    let f = match fd(n) { Some(f) => f, None => return -1 };
    if f.path_only || f.out { errno(libc::EBADF); return -1 }
    if f.dir { errno(libc::EISDIR); return -1 }
    if fault(false) || interrupted() { return -1 }
    if w().nodes[f.node].broken { w().hard = true; errno(libc::EIO); return -1 }
    let d = &w().nodes[f.node].data;
    let mut k = len.min(d.len() - f.pos);
    if k > 1 && w().shorts > 0 && sx::flag("short read") { w().shorts -= 1; k = crate::hashes::cut(k); }
    unsafe { std::ptr::copy_nonoverlapping(d.as_ptr().add(f.pos), b as *mut u8, k) };
    f.pos += k;
    k as ssize_t
}
#[no_mangle] pub extern "C" fn pread64(n: c_int, b: *mut c_void, len: size_t, off: off_t) -> ssize_t {
    if !ours(n) { return real(libc::SYS_pread64, [n as usize, b as usize, len, off as usize, 0]) }
    let f = match fd(n) { Some(f) => f, None => return -1 };
    let p = f.pos;
    f.pos = (off as usize).min(w().nodes[f.node].data.len());
    let r = read(n, b, len);
    f.pos = p;
    r
}
#[no_mangle] pub extern "C" fn lseek64(n: c_int, off: off_t, how: c_int) -> off_t {
    if !ours(n) { return real(libc::SYS_lseek, [n as usize, off as usize, how as usize, 0, 0]) as off_t }
    let f = match fd(n) { Some(f) => f, None => return -1 };
    let len = w().nodes[f.node].data.len() as off_t;
    let p = match how { libc::SEEK_SET => off, libc::SEEK_CUR => f.pos as off_t + off, libc::SEEK_END => len + off, _ => -1 };
    if p < 0 { errno(libc::EINVAL); return -1 }
    f.pos = p.min(len) as usize; // a position after the end reads nothing
    p
}
#[no_mangle] pub extern "C" fn readlinkat(d: c_int, path: *const c_char, b: *mut c_char, len: size_t) -> ssize_t {
    if !ours(d) {
        if active() { errno(libc::ENOENT); return -1 }
        return real(libc::SYS_readlinkat, [d as usize, path as usize, b as usize, len, 0]);
    }
    let f = match fd(d) { Some(f) => f, None => return -1 };
    if fault(false) { return -1 }
    let p = unsafe { cstr(path) };
    let n = if p.is_empty() { f.node } else if w().top.is_some() { match lookup(f.node, p, false) { Some(n) => n, None => return -1 } } else { match child(f.node, p) { Some(n) => n, None => { errno(libc::ENOENT); return -1 } } };
    let n = &w().nodes[n];
    if n.kind != LINK { errno(libc::EINVAL); return -1 }
    let k = n.target.len().min(len);
    unsafe { std::ptr::copy_nonoverlapping(n.target.as_ptr(), b as *mut u8, k) };
    k as ssize_t
}
#[no_mangle] pub extern "C" fn readlink(path: *const c_char, b: *mut c_char, len: size_t) -> ssize_t {
    if !active() { return real(libc::SYS_readlink, [path as usize, b as usize, len, 0, 0]) }
    // /proc/self/fd/N, for a warning about a special file
    let p = unsafe { cstr(path) };
    let mut t = b"/model".to_vec();
    if let Some(top) = w().top {
        let pre = b"/proc/self/fd/";
        if p.len() > pre.len() && &p[..pre.len()] == pre {
            let n = p[pre.len()..].iter().fold(0, |n, b| n * 10 + (*b - b'0') as c_int);
            t = match fd(n) { Some(f) => path_of(f.node), None => return -1 };
        } else {
            let n = match lookup(top, p, false) { Some(n) => n, None => return -1 };
            if w().nodes[n].kind != LINK { errno(libc::EINVAL); return -1 }
            t = w().nodes[n].target.clone();
        }
    }
    let k = t.len().min(len);
    unsafe { std::ptr::copy_nonoverlapping(t.as_ptr(), b as *mut u8, k) };
    k as ssize_t
}
#[no_mangle] pub extern "C" fn write(n: c_int, b: *const c_void, len: size_t) -> ssize_t {
    let sink = ours(n) || active() && n == 1 && w().stdout_is_sink;
    if !sink && !(active() && n == 2) { return real(libc::SYS_write, [n as usize, b as usize, len, 0, 0]) }
    let d = if len == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(b as *const u8, len) } };
    if n == 2 {
        if w().stderr_fails { errno(libc::EIO); return -1 }
        if w().stderr_flaky > 0 && !d.is_empty() {
            match sx::choose("stderr", 5) {
                0 => {}
                1 => { w().stderr_flaky -= 1; w().stderr_lost = true; errno(sx::errno()); return -1 }
                2 => { w().stderr_flaky -= 1; w().stderr_lost = true; return 0 }
                3 => { w().stderr_flaky -= 1; errno(libc::EINTR); return -1 }
                _ => { w().stderr_flaky -= 1; w().stderr.push(d[0]); return 1 }
            }
        }
        w().stderr.extend_from_slice(d);
        return len as ssize_t;
    }
    if n != 1 { match fd(n) { Some(f) if f.out => {} _ => { errno(libc::EBADF); return -1 } } }
    match std::io::Write::write(&mut w().sink, d) {
        Ok(k) => k as ssize_t,
        Err(e) => { errno(match e.raw_os_error() { Some(n) => n, None => libc::EINTR }); -1 }
    }
}
#[no_mangle] pub extern "C" fn writev(n: c_int, v: *const libc::iovec, cnt: c_int) -> ssize_t {
    if !ours(n) && !(active() && (n == 1 || n == 2)) { return real(libc::SYS_writev, [n as usize, v as usize, cnt as usize, 0, 0]) }
    for i in 0..cnt as usize { let e = unsafe { &*v.add(i) }; if e.iov_len > 0 { return write(n, e.iov_base, e.iov_len) } }
    0
}
#[no_mangle] pub extern "C" fn clock_gettime(c: c_int, t: *mut libc::timespec) -> c_int {
    if !active() { return real(libc::SYS_clock_gettime, [c as usize, t as usize, 0, 0, 0]) as c_int }
    let w = w();
    let ms = if w.clock.is_empty() { 0 } else { w.clock[w.clock_at.min(w.clock.len() - 1)] + w.pace * (w.clock_at + 1).saturating_sub(w.clock.len()) as u64 };
    w.clock_at += 1;
    unsafe { (*t).tv_sec = (ms / 1000) as i64; (*t).tv_nsec = (ms % 1000 * 1_000_000) as i64; }
    0
}

// What else the command line tool asks the system.
#[no_mangle] pub extern "C" fn sched_getaffinity(p: c_int, n: size_t, m: *mut libc::cpu_set_t) -> c_int {
    if !active() { return if real(libc::SYS_sched_getaffinity, [p as usize, n, m as usize, 0, 0]) < 0 { -1 } else { 0 } }
    unsafe { std::ptr::write_bytes(m as *mut u8, 0, n); let k = if w().cpus == 0 { 2 } else { w().cpus }; for i in 0..k { *(m as *mut u8).add(i / 8) |= 1 << (i % 8) } }
    0
}
#[no_mangle] pub extern "C" fn isatty(_: c_int) -> c_int { errno(libc::ENOTTY); 0 }
#[no_mangle] pub extern "C" fn exit(code: c_int) -> ! {
    if active() && w().exits { crate::cli::judge(code) }
    #[cfg(feature = "native")]
    crate::native::quit(code);
    #[cfg(not(feature = "native"))]
    sx::end()
}
#[cfg(not(feature = "native"))]
mod env {
    use libc::{c_char, c_int};
    static mut ENV: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    #[no_mangle] pub extern "C" fn getenv(k: *const c_char) -> *const c_char {
        let k = unsafe { super::cstr(k) };
        for e in unsafe { &ENV } { if e.0 == k { return e.1.as_ptr() as *const c_char } }
        std::ptr::null()
    }
    #[no_mangle] pub extern "C" fn setenv(k: *const c_char, v: *const c_char, over: c_int) -> c_int {
        let (k, mut v) = unsafe { (super::cstr(k).to_vec(), super::cstr(v).to_vec()) };
        v.push(0);
        let e = unsafe { &mut ENV };
        for x in e.iter_mut() { if x.0 == k { if over != 0 { x.1 = v } return 0 } }
        e.push((k, v));
        0
    }
    #[no_mangle] pub extern "C" fn unsetenv(_: *const c_char) -> c_int { 0 }
    #[no_mangle] pub extern "C" fn __xpg_strerror_r(_: c_int, b: *mut c_char, n: usize) -> c_int {
        let t = b"error\0";
        for i in 0..t.len().min(n) { unsafe { *b.add(i) = t[i] as c_char } }
        0
    }
    #[no_mangle] pub extern "C" fn sysconf(n: c_int) -> i64 { if n == libc::_SC_NPROCESSORS_ONLN { 2 } else { 4096 } }
}
/// Only keys hash tables; always the same, so that replays agree.
#[no_mangle] pub extern "C" fn getrandom(p: *mut c_void, n: size_t, _: u32) -> ssize_t {
    unsafe { std::ptr::write_bytes(p as *mut u8, 0x5a, n) };
    n as ssize_t
}
