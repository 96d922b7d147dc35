//! Worker processes (z3 does not scale over threads), a shared query cache and work distribution.
use crate::exec::{self, Results, Shared};
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU8, Ordering::*};

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn poll(p: *mut PollFd, n: u64, t: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, prot: i32, fl: i32, fd: i32, o: i64) -> *mut u8;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setrlimit(r: i32, v: *const [u64; 2]) -> i32;
}
#[repr(C)]
struct PollFd { fd: i32, ev: i16, rev: i16 }

const SLOTS: usize = 1 << 20;
const SLOT: usize = 128;
const MAXV: usize = SLOT - 18;

/// Shared memory: flags and a fixed-size lock-free table of query verdicts.
pub struct Shm { p: *mut u8 }
unsafe impl Sync for Shm {}
unsafe impl Send for Shm {}
impl Shm {
    pub fn new() -> Shm {
        let p = unsafe { mmap(std::ptr::null_mut(), 4096 + SLOTS * SLOT, 3, 0x21, -1, 0) };
        assert!(p as isize != -1);
        Shm { p }
    }
    fn flag(&self, i: usize) -> &AtomicU32 { unsafe { &*(self.p.add(i * 64) as *const AtomicU32) } }
    fn h(&self) -> &AtomicI32 { unsafe { &*(self.p.add(512) as *const AtomicI32) } }
    pub fn stopped(&self) -> bool { self.flag(0).load(Relaxed) != 0 }
    pub fn stop(&self) { self.flag(0).store(1, SeqCst) }
    pub fn timed_out(&self) -> bool { self.flag(1).load(Relaxed) != 0 }
    pub fn set_timed_out(&self) { self.flag(1).store(1, SeqCst); self.stop() }
    pub fn hungry(&self) -> i32 { self.h().load(Relaxed) }
    pub fn set_hungry(&self, n: i32) { self.h().store(n, Relaxed) }
    pub fn sub_hungry(&self, n: i32) { self.h().fetch_sub(n, Relaxed); }
    fn slot(&self, i: usize) -> *mut u8 { unsafe { self.p.add(4096 + (i % SLOTS) * SLOT) } }
    pub fn get(&self, key: u128, n: usize) -> Option<Option<Vec<u64>>> {
        for k in 0..8usize {
            unsafe {
                let s = self.slot((key as usize).wrapping_add(k));
                let st = (*(s as *const AtomicU8)).load(Acquire);
                if st == 0 { return None }
                if st < 2 { continue }
                let mut kb = [0u8; 16];
                std::ptr::copy_nonoverlapping(s.add(2), kb.as_mut_ptr(), 16);
                if u128::from_le_bytes(kb) != key { continue }
                if st == 2 { return Some(None) }
                if *s.add(1) as usize != n { return None }
                return Some(Some((0..n).map(|i| *s.add(18 + i) as u64).collect()))
            }
        }
        None
    }
    /// True for the first caller with this key.
    pub fn claim(&self, key: u128) -> bool {
        if self.get(key, 0).is_some() { return false }
        self.put(key, Some(&[]));
        true
    }
    pub fn put(&self, key: u128, v: Option<&[u64]>) {
        if let Some(v) = v { if v.len() > MAXV { return } }
        for k in 0..8usize {
            unsafe {
                let s = self.slot((key as usize).wrapping_add(k));
                let a = &*(s as *const AtomicU8);
                if a.compare_exchange(0, 1, SeqCst, SeqCst).is_ok() {
                    let kb = key.to_le_bytes();
                    std::ptr::copy_nonoverlapping(kb.as_ptr(), s.add(2), 16);
                    match v {
                        None => a.store(2, Release),
                        Some(v) => {
                            *s.add(1) = v.len() as u8;
                            for (i, x) in v.iter().enumerate() { *s.add(18 + i) = *x as u8; }
                            a.store(3, Release);
                        }
                    }
                    return;
                }
            }
        }
    }
}

pub struct Chan { r: i32, w: i32 }
impl Chan {
    pub fn send(&mut self, t: u8, b: &[u8]) {
        let mut v = Vec::with_capacity(b.len() + 5);
        v.extend_from_slice(&(b.len() as u32).to_le_bytes());
        v.push(t);
        v.extend_from_slice(b);
        let mut o = 0;
        while o < v.len() {
            let n = unsafe { write(self.w, v.as_ptr().add(o), v.len() - o) };
            if n <= 0 { std::process::exit(9) }
            o += n as usize;
        }
    }
    fn fill(&mut self, b: &mut [u8]) -> bool {
        let mut o = 0;
        while o < b.len() {
            let n = unsafe { read(self.r, b.as_mut_ptr().add(o), b.len() - o) };
            if n <= 0 { return false }
            o += n as usize;
        }
        true
    }
    pub fn recv(&mut self) -> Option<(u8, Vec<u8>)> {
        let mut h = [0u8; 5];
        if !self.fill(&mut h) { return None }
        let n = u32::from_le_bytes(h[..4].try_into().unwrap()) as usize;
        let mut b = vec![0; n];
        if !self.fill(&mut b) { return None }
        Some((h[4], b))
    }
}

pub fn coordinate(sh: &'static Shared) -> Results {
    let n = sh.cfg.threads;
    let mut ch = Vec::new();
    let mut pids = Vec::new();
    for _ in 0..n {
        let mut a = [0i32; 2];
        let mut b = [0i32; 2];
        unsafe {
            pipe(a.as_mut_ptr());
            pipe(b.as_mut_ptr());
            let pid = fork();
            if pid == 0 {
                prctl(1, 9, 0, 0, 0); // die with the coordinator
                if sh.cfg.mem_limit_mb > 0 { let l = [sh.cfg.mem_limit_mb << 20; 2]; setrlimit(9, &l); }
                close(a[1]);
                close(b[0]);
                let c = Chan { r: a[0], w: b[1] };
                let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || exec::worker(sh, c)).unwrap();
                let ok = h.join().is_ok();
                std::process::exit(if ok { 0 } else { 7 });
            }
            close(a[0]);
            close(b[1]);
            ch.push(Some(Chan { r: b[0], w: a[1] }));
            pids.push(pid);
        }
    }
    let mut res = Results::default();
    let mut queue: Vec<Vec<u8>> = vec![exec::ser_job(&[], &[])];
    let mut idle: Vec<usize> = Vec::new();
    let mut alive = n;
    let mut lost = 0;
    while alive > 0 {
        while !idle.is_empty() && !queue.is_empty() && !sh.shm.stopped() {
            let i = idle.pop().unwrap();
            let j = queue.pop().unwrap();
            ch[i].as_mut().unwrap().send(0, &j);
        }
        if idle.len() == alive {
            break;
        }
        sh.shm.set_hungry((idle.len() as i32 - queue.len() as i32).max(0));
        let mut pf: Vec<PollFd> = Vec::new();
        let mut ix = Vec::new();
        for (i, c) in ch.iter().enumerate() { if let Some(c) = c { pf.push(PollFd { fd: c.r, ev: 1, rev: 0 }); ix.push(i); } }
        unsafe { poll(pf.as_mut_ptr(), pf.len() as u64, 200) };
        if sh.elapsed() > sh.cfg.deadline {
            sh.shm.set_timed_out();
            // workers stop by themselves unless a single query hangs
            if sh.elapsed() > sh.cfg.deadline + std::time::Duration::from_secs(75) { for p in &pids { unsafe { kill(*p, 9); } } }
        }
        for (k, p) in pf.iter().enumerate() {
            if p.rev == 0 { continue }
            let i = ix[k];
            match ch[i].as_mut().unwrap().recv() {
                None => { ch[i] = None; alive -= 1; lost += 1; }
                Some((0, b)) => {
                    exec::merge_results(&b, &mut res, &sh.cfg);
                    if res.viol_counts.len() >= sh.cfg.max_viol { sh.shm.stop(); }
                    idle.push(i);
                }
                Some((_, b)) => queue.push(b),
            }
        }
    }
    res.pending += queue.len() as u64;
    if lost > 0 { res.errors.insert("worker process died".into(), lost); sh.shm.stop(); }
    for c in ch.iter_mut() { if let Some(c) = c { c.send(1, &[]); unsafe { close(c.w); } } }
    for p in pids { unsafe { let mut st = 0; if lost > 0 { kill(p, 9); } waitpid(p, &mut st, 0); } }
    res
}
