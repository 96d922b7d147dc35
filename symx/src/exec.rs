//! Symbolic executor over LLVM IR.
use crate::range::{self, Dom};
use crate::expr::{self, mask, Arena, FxMap, VarSet, E};
use crate::expr::Op as X;
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use crate::par::{Chan, Shm};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum V { C(u64), X(E), Agg(Rc<Vec<V>>) }

#[derive(Clone)]
struct Obj {
    bytes: Vec<u8>,
    sym: Option<Vec<E>>, // 0 = concrete byte
    konst: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dec { Side(bool), SideR(bool), Forced(bool), Target(u32), Eq(u64), Neq(u64), Exact }

#[derive(Clone)]
struct Frame {
    fid: u32,
    f: &'static Func,
    bb: u32,
    ip: u32,
    prev: u32,
    regs: Vec<V>,
    allocas: Vec<u32>,
    ret_dst: u32,
    ret_next: u32,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    pc: Rc<Vec<E>>,
    known: Rc<FxMap<E, bool>>,
    conc: Rc<FxMap<E, u64>>,
    model: Rc<Vec<u64>>,
    nvars: usize,
    ntext: usize,
    inputs: Rc<Vec<(String, usize, usize)>>,
    decs: Vec<(u64, Dec)>,
    log: Rc<Vec<(String, Vec<V>)>>,
    covers: Rc<std::collections::BTreeSet<String>>,
    steps: u64,
    forks: u32,
    replay: Option<Rc<Vec<(u64, Dec)>>>,
    rpos: usize,
    heap: u64,
    /// bytes allocated and not freed, and the most since `sym_heap` was last asked to start
    live: u64,
    peak: u64,
    /// text helpers run exactly (see `text_call`)
    exact: bool,
    snap: Option<Rc<(State, std::cell::Cell<bool>)>>,
}

impl State {
    fn count(&mut self, more: u64, less: u64) {
        self.live = (self.live + more).saturating_sub(less);
        self.peak = self.peak.max(self.live);
    }
}

pub struct Job { decs: Vec<(u64, Dec)>, model: Vec<u64> }

pub struct Cfg {
    pub entry: String,
    pub params: HashMap<String, u64>,
    pub threads: usize,
    pub max_steps: u64,
    pub max_alloc: u64,
    pub deadline: Duration,
    pub z3_timeout: u32,
    pub max_viol: usize,
    pub nsamples: usize,
    pub verbose: bool,
    pub mem_limit_mb: u64,
    pub verify_cache: bool,
    /// never replace text for people by opaque bytes
    pub exact: bool,
}

#[derive(Clone)]
pub struct Violation {
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub log: Vec<(String, Vec<u8>)>,
}

#[derive(Default)]
pub struct Results {
    pub violations: Vec<Violation>,
    pub viol_counts: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub samples: Vec<(u64, Vec<(String, Vec<u8>)>, Vec<(String, Vec<u8>)>)>,
    pub errors: BTreeMap<String, u64>,
    pub funcs: HashSet<u32>,
    pub paths: u64,
    pub cut: u64,
    pub infeasible: u64,
    pub branches: u64,
    pub forks: u64,
    pub queries: u64,
    pub solver_queries: u64,
    pub cache_hits: u64,
    pub range_decided: u64,
    pub solver_nanos: u64,
    pub max_query_ms: u64,
    pub slow: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub steps: u64,
    pub max_path_steps: u64,
    pub unknown: u64,
    pub max_vars: usize,
    pub arena_restarts: u64,
    pub pending: u64,
    pub exact_redo: u64,
}

pub struct Shared {
    pub m: &'static Module,
    pub cfg: Cfg,
    pub shm: Shm,
    started: Instant,
    kinds: Vec<Kind>,
    globals: Vec<(Vec<u8>, bool)>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Def, Panic, B(B), Missing, Lossy, StrDebug, NumDisplay }

#[derive(Clone, Copy, PartialEq, Debug)]
enum B {
    Malloc, Calloc, Realloc, Free, PosixMemalign, Memcpy, Memmove, Memset, Memcmp, Bcmp, Strlen, Memchr, Memrchr,
    Errno, Ret0, RustAlloc, RustAllocZ, RustDealloc, RustRealloc, Nop, Abort,
    SymBytes, SymAssume, SymCheck, SymCover, SymLog, SymParam, SymConc, SymReject, SymEnd, SymFail, SymIsSym, SymGuess, SymHeap,
}

fn builtin(name: &str) -> Option<B> {
    Some(match name {
        "malloc" => B::Malloc, "calloc" => B::Calloc, "realloc" => B::Realloc, "free" => B::Free,
        "posix_memalign" => B::PosixMemalign,
        "memcpy" => B::Memcpy, "memmove" => B::Memmove, "memset" => B::Memset, "memcmp" => B::Memcmp, "bcmp" => B::Bcmp,
        "strlen" => B::Strlen, "memchr" => B::Memchr, "memrchr" => B::Memrchr,
        "__errno_location" => B::Errno,
        "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" => B::Ret0,
        "abort" => B::Abort,
        "sym_bytes" => B::SymBytes, "sym_assume" => B::SymAssume, "sym_check" => B::SymCheck, "sym_cover" => B::SymCover,
        "sym_heap" => B::SymHeap, "sym_log" => B::SymLog, "sym_param" => B::SymParam, "sym_concretize" => B::SymConc, "sym_reject" => B::SymReject, "sym_end" => B::SymEnd,
        "sym_fail" => B::SymFail, "sym_is_symbolic" => B::SymIsSym, "sym_guess" => B::SymGuess,
        _ => {
            if name.ends_with("___rust_alloc") || name.ends_with("12___rust_alloc") { B::RustAlloc }
            else if name.ends_with("___rust_alloc_zeroed") { B::RustAllocZ }
            else if name.ends_with("___rust_dealloc") { B::RustDealloc }
            else if name.ends_with("___rust_realloc") { B::RustRealloc }
            else if name.contains("___rust_no_alloc_shim_is_unstable") { B::Nop }
            else { return None }
        }
    })
}
pub fn is_builtin(name: &str) -> bool { builtin(name).is_some() }

fn is_panic(n: &str) -> bool {
    if n.contains("panic_count") || n.contains("PanicHookInfo") { return false }
    if n.contains("drop_glue") || n.contains("drop_in_place") { return false }
    if n.contains("3fmt") && !n.contains("panic_fmt") && !n.contains("panic_nounwind_fmt") { return false }
    n.contains("core9panicking") || n.contains("begin_panic_handler") || n.contains("rust_begin_unwind") || n.contains("begin_panic")
        || n.contains("handle_alloc_error") || n.contains("rust_panic")
        || n.contains("slice_error_fail") || n.contains("slice_index_fail") || n.contains("panic_cold") || n.contains("capacity_overflow")
        || n.contains("unwrap_failed") || n.contains("expect_failed") || n.contains("panic_in_cleanup") || n.contains("panic_cannot_unwind")
        || n.contains("abort_internal") || n.contains("assert_failed")
}

enum End { Ok, Cut, Viol(String), Err(String), Fork, Exact }
type R<T> = Result<T, End>;

impl Shared {
    pub fn new(m: &'static Module, cfg: Cfg) -> Shared {
        let kinds = m.funcs.iter().map(|f| {
            if let Some(b) = builtin(&f.name) { Kind::B(b) }
            else if is_panic(&f.name) { Kind::Panic }
            else if f.is_def && f.name.contains("6String15from_utf8_lossy") { Kind::Lossy }
            else if f.is_def && f.name.contains("4core3fmteNt") && f.name.ends_with("5Debug3fmt") { Kind::StrDebug }
            else if f.is_def && f.name.contains("4pathNt") && f.name.contains("4PathNt") && f.name.ends_with("3fmt5Debug3fmt") { Kind::StrDebug }
            else if f.is_def && f.name.contains("4core3fmt3num3imp") && f.name.ends_with("7Display3fmt") && (f.name.contains("impjNt") || f.name.contains("impyNt")) { Kind::NumDisplay }
            else if f.is_def { Kind::Def } else { Kind::Missing }
        }).collect();
        let globals = m.globals.iter().map(|g| (g.bytes.clone(), g.konst)).collect();
        let shm = Shm::new();
        Shared { m, cfg, shm, started: Instant::now(), kinds, globals }
    }
    pub fn elapsed(&self) -> Duration { self.started.elapsed() }
}

pub fn worker(sh: &'static Shared, mut ch: Chan) {
    let mut ex = Ex::new(sh);
    loop {
        // report idleness together with what was found so far, wait for a job
        ex.flush_z();
        let r = std::mem::take(&mut ex.stats);
        let seen: Vec<u32> = ex.seen_funcs.iter().enumerate().filter(|x| *x.1).map(|x| x.0 as u32).collect();
        ch.send(0, &ser_results(&r, &seen));
        let (t, body) = match ch.recv() { Some(x) => x, None => return };
        if t != 0 { return }
        let job = de_job(&body);
        let mut stack = vec![ex.init(job)];
        while let Some(s) = stack.pop() {
            if sh.started.elapsed() > sh.cfg.deadline { sh.shm.set_timed_out(); }
            if sh.shm.stopped() { ex.stats.pending += stack.len() as u64 + 1; stack.clear(); break }
            ex.run(s, &mut stack);
            if sh.shm.hungry() > 0 && stack.len() > 1 {
                let n = (sh.shm.hungry() as usize).min(stack.len() / 2).max(1);
                for s in stack.drain(0..n) { ch.send(1, &ser_job(&s.full_decs(), &s.model)); }
                sh.shm.sub_hungry(n as i32);
            }
            if ex.a.nodes.len() > 3_000_000 {
                for s in stack.drain(..) { ch.send(1, &ser_job(&s.full_decs(), &s.model)); }
                ex.stats.arena_restarts += 1;
                ex.restart();
            }
        }
    }
}

impl State {
    fn full_decs(&self) -> Vec<(u64, Dec)> {
        let mut d = self.decs.clone();
        if let Some(r) = &self.replay { d.extend_from_slice(&r[self.rpos..]); }
        d
    }
}

struct Ex {
    sh: &'static Shared,
    m: &'static Module,
    a: Arena,
    z: Z3,
    stats: Results,
    globals: Vec<Rc<Obj>>,
    gbase: u32,
    seen_funcs: Vec<bool>,
    errno_id: u32,
    table_hash: FxMap<u32, u64>,
    dom_cache: FxMap<E, Option<(u32, Dom)>>,
    range_cache: FxMap<(E, Dom), (u128, u128)>,
    stack_out: Vec<State>,
    cache: FxMap<u128, Option<Rc<Vec<u64>>>>,
    nviol: BTreeMap<String, u64>,
}

fn dec_hash(decs: &[(u64, Dec)]) -> u128 {
    let (mut h, mut g) = (0x51ed270bu64, 0x2545f491u64);
    for (_, d) in decs {
        let x = match d { Dec::Side(b) => *b as u64, Dec::SideR(b) => 0x6000_0000 + *b as u64, Dec::Forced(b) => 0x9000_0000 + *b as u64, Dec::Target(t) => 2 + *t as u64, Dec::Eq(v) => v.wrapping_add(0x1000), Dec::Neq(v) => v.wrapping_add(0x2000_0000), Dec::Exact => 0x777 };
        h = mix(h, x);
        g = mix(g, x.wrapping_add(99).wrapping_mul(5));
    }
    (h as u128) << 64 | g as u128
}

fn mix(h: u64, x: u64) -> u64 { (h ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29) ^ (x.wrapping_mul(0xD6E8FEB86659FD93) >> 17) }

impl Ex {
    fn new(sh: &'static Shared) -> Ex {
        let m = sh.m;
        let globals = sh.globals.iter().map(|g| Rc::new(Obj { bytes: g.0.clone(), sym: None, konst: g.1 })).collect();
        let z = Z3::new(sh.cfg.z3_timeout);
        Ex {
            m, a: Arena::new(), z, stats: Results::default(), globals, gbase: m.first_global(),
            seen_funcs: vec![false; m.funcs.len()], errno_id: 0, table_hash: Default::default(), dom_cache: Default::default(), range_cache: Default::default(), stack_out: vec![], sh, cache: Default::default(), nviol: Default::default(),
        }
    }
    fn restart(&mut self) {
        self.flush_z();
        self.a = Arena::new();
        self.z = Z3::new(self.sh.cfg.z3_timeout);
        self.table_hash.clear();
        self.dom_cache.clear();
        self.range_cache.clear();
    }
    fn flush_z(&mut self) {
        self.stats.solver_queries += self.z.queries;
        self.stats.solver_nanos += self.z.nanos;
        self.stats.max_query_ms = self.stats.max_query_ms.max(self.z.max_ms);
        self.stats.slow += self.z.slow;
        self.z.queries = 0; self.z.nanos = 0; self.z.slow = 0;
    }
    fn init(&mut self, job: Job) -> State {
        let entry = *self.m.syms.get(&self.sh.cfg.entry).unwrap_or_else(|| panic!("no entry {}", self.sh.cfg.entry));
        let fid = (entry >> 32) as u32 - FUNC_BASE;
        let mut mem: Vec<Option<Rc<Obj>>> = Vec::new();
        mem.resize(self.gbase as usize, None);
        for g in &self.globals { mem.push(Some(g.clone())); }
        self.errno_id = mem.len() as u32;
        mem.push(Some(Rc::new(Obj { bytes: vec![0; 8], sym: None, konst: false })));
        let f: &'static Func = self.m.func(fid);
        self.seen_funcs[fid as usize] = true;
        let replay = if job.decs.is_empty() { None } else { Some(Rc::new(job.decs)) };
        State {
            frames: vec![Frame { fid, f, bb: 0, ip: 0, prev: 0, regs: vec![V::C(0); f.nregs as usize], allocas: vec![], ret_dst: NODST, ret_next: NODST }],
            mem, free: vec![], pc: Rc::new(vec![]), known: Default::default(), conc: Default::default(), model: Rc::new(job.model), nvars: 0, ntext: 0,
            inputs: Rc::new(vec![]), decs: vec![], log: Rc::new(vec![]), covers: Default::default(), steps: 0, forks: 0, replay, rpos: 0, heap: 0, live: 0, peak: 0, exact: self.sh.cfg.exact, snap: None,
        }
    }

    // ---------- solving ----------
    fn slice(&self, s: &State, e: E) -> Vec<E> {
        let mut vs: VarSet = self.a.vars[e as usize];
        let mut left: Vec<E> = s.pc.iter().copied().collect();
        let mut out: Vec<E> = Vec::new();
        loop {
            let mut changed = false;
            left.retain(|c| {
                let cv = &self.a.vars[*c as usize];
                if expr::vs_overlap(cv, &vs) {
                    for i in 0..4 { vs[i] |= cv[i]; }
                    out.push(*c);
                    changed = true;
                    false
                } else { true }
            });
            if !changed { break }
        }
        out.sort_unstable();
        out.dedup();
        out
    }
    fn canon(&mut self, cs: &[E]) -> (u128, Vec<usize>) {
        let mut memo: FxMap<E, u64> = Default::default();
        let mut vars: Vec<usize> = Vec::new();
        let mut vmap: FxMap<u32, u64> = Default::default();
        let (mut h1, mut h2) = (0x1234567u64, 0x89abcdefu64);
        for c in cs {
            let i = self.canon1(*c, &mut memo, &mut vars, &mut vmap, &mut h1, &mut h2);
            h1 = mix(h1, i ^ 0xffff_0000);
            h2 = mix(h2, i.wrapping_add(77));
        }
        (((h1 as u128) << 64) | h2 as u128, vars)
    }
    fn canon1(&mut self, e: E, memo: &mut FxMap<E, u64>, vars: &mut Vec<usize>, vmap: &mut FxMap<u32, u64>, h1: &mut u64, h2: &mut u64) -> u64 {
        if let Some(i) = memo.get(&e) { return *i }
        let n = self.a.nodes[e as usize];
        let mut ks = [0u64; 3];
        for (j, k) in self.a.kids(&n).iter().enumerate() { if let Some(k) = k { ks[j] = self.canon1(*k, memo, vars, vmap, h1, h2); } }
        let k: u64 = match n.op {
            X::Var => {
                let next = vars.len() as u64;
                *vmap.entry(n.k as u32).or_insert_with(|| { vars.push(n.k as usize); next })
            }
            X::Table => {
                let id = n.k as u32;
                if let Some(h) = self.table_hash.get(&id) { *h } else {
                    let mut h = 7u64;
                    for v in self.a.tables[id as usize].iter() { h = mix(h, *v); }
                    self.table_hash.insert(id, h);
                    h
                }
            }
            _ => (n.k as u64) ^ ((n.k >> 64) as u64).wrapping_mul(31),
        };
        let tag = (n.op as u64) << 8 | n.w as u64;
        for x in [tag, k, ks[0], ks[1], ks[2]] {
            *h1 = mix(*h1, x);
            *h2 = mix(*h2, x.wrapping_mul(3).wrapping_add(0x5bd1e995));
        }
        let i = memo.len() as u64 + 1;
        memo.insert(e, i);
        i
    }
    /// Does an interval analysis already show that cond is false under the byte domains implied by cs?
    fn out_of_range(&mut self, cs: &[E], cond: E) -> bool {
        let doms = self.domains(cs);
        let mut r = range::Ranges { a: &mut self.a, doms: &doms, memo: Default::default(), seps: Default::default(), single: &mut self.range_cache };
        r.get(cond).1 == 0
    }
    fn domains(&mut self, cs: &[E]) -> FxMap<u32, Dom> {
        let mut doms: FxMap<u32, Dom> = Default::default();
        for c in cs {
            let d = match self.dom_cache.get(c) {
                Some(d) => *d,
                None => {
                    let d = range::single_var(&self.a, *c).map(|v| (v, range::domain(&mut self.a, *c, v)));
                    self.dom_cache.insert(*c, d);
                    d
                }
            };
            if let Some((v, d)) = d {
                let x = doms.entry(v).or_insert([!0; 4]);
                for i in 0..4 { x[i] &= d[i]; }
            }
        }
        doms
    }
    /// Interval of an expression under the path's per-byte constraints.
    fn range_of(&mut self, s: &State, e: E) -> (u128, u128) {
        let cs = self.slice(s, e);
        let doms = self.domains(&cs);
        let mut r = range::Ranges { a: &mut self.a, doms: &doms, memo: Default::default(), seps: Default::default(), single: &mut self.range_cache };
        r.get(e)
    }
    /// Division whose operands the path confines to few quotients or few bits, written without a 64-bit divider.
    fn easy_div(&mut self, s: &State, b: Bin, w: u32, x: &V, y: &V) -> Option<V> {
        if !matches!(b, Bin::UDiv | Bin::URem) || w < 16 || matches!((x, y), (V::C(_), V::C(_))) { return None }
        if let V::C(k) = y { if k.is_power_of_two() || *k == 0 { return None } }
        let (ex, ey) = (self.ex(x, w), self.ex(y, w));
        let (rx, mut ry) = (self.range_of(s, ex), self.range_of(s, ey));
        let w8 = w as u8;
        if ry.0 == 0 { ry.0 = 1 } // the path has excluded a zero divisor
        if ry.0 > ry.1 { return None }
        let q = if ry.0 == ry.1 && rx.1 / ry.0 - rx.0 / ry.0 <= 8 {
            let (ql, qh) = (rx.0 / ry.0, rx.1 / ry.0);
            let mut q = self.a.konst(ql, w8);
            for i in ql + 1..=qh {
                let lim = self.a.konst(i * ry.0, w8);
                let ge = self.a.bin(X::Ule, lim, ex);
                let v = self.a.konst(i, w8);
                q = self.a.ite(ge, v, q);
            }
            q
        } else if rx.0 == rx.1 && ry.1 - ry.0 <= 1000 && { let mut n = 0; let mut l = None; for v in ry.0..=ry.1 { if l != Some(rx.0 / v) { n += 1; l = Some(rx.0 / v); } } n <= 130 } {
            let mut q = self.a.konst(rx.0 / ry.0, w8);
            let mut l = rx.0 / ry.0;
            for v in ry.0..=ry.1 {
                let n = rx.0 / v;
                if n == l { continue }
                l = n;
                let lim = self.a.konst(v, w8);
                let ge = self.a.bin(X::Ule, lim, ey);
                let k = self.a.konst(n, w8);
                q = self.a.ite(ge, k, q);
            }
            q
        } else {
            let bits = (128 - rx.1.max(ry.1).leading_zeros()).max(1) as u8;
            if w > 24 && ry.0 == ry.1 && rx.1 - rx.0 < 1 << 20 && ry.0 < 1 << 20 && (bits > 24 || bits as u32 >= w) {
                // x = lo + d with a small d
                let (k, lo) = (ry.0, rx.0);
                let lo_e = self.a.konst(lo, w8);
                let d = self.a.bin(X::Sub, ex, lo_e);
                let d = self.a.extract(d, 0, 24);
                let base = self.a.konst(lo % k, 24);
                let d = self.a.bin(X::Add, d, base);
                let kn = self.a.konst(k, 24);
                let r = self.a.bin(if b == Bin::UDiv { X::UDiv } else { X::URem }, d, kn);
                let mut r = self.a.zext(r, w8);
                if b == Bin::UDiv { let q0 = self.a.konst(lo / k, w8); r = self.a.bin(X::Add, r, q0); }
                return Some(self.val(r));
            }
            if bits as u32 >= w || bits > 24 { return None }
            let (nx, ny) = (self.a.extract(ex, 0, bits), self.a.extract(ey, 0, bits));
            let r = self.a.bin(if b == Bin::UDiv { X::UDiv } else { X::URem }, nx, ny);
            let r = self.a.zext(r, w8);
            return Some(self.val(r));
        };
        let r = if b == Bin::UDiv { q } else { let p = self.a.bin(X::Mul, q, ey); self.a.bin(X::Sub, ex, p) };
        Some(self.val(r))
    }
    /// The value of a condition that the path has already fixed, if that is easy to see.
    fn settled(&mut self, s: &State, c: E) -> Option<bool> {
        if let Some(b) = s.known.get(&c) { return Some(*b) }
        if range::single_var(&self.a, c).is_none() { return None }
        let cs = self.slice(s, c);
        if cs.is_empty() { return None }
        if self.out_of_range(&cs, c) { return Some(false) }
        let nc = self.a.not(c);
        if self.out_of_range(&cs, nc) { return Some(true) }
        None
    }
    /// The value of an expression over one byte that the path has already fixed.
    fn fixed(&mut self, s: &State, e: E) -> Option<u64> {
        range::single_var(&self.a, e)?;
        let cs = self.slice(s, e);
        if cs.is_empty() { return None }
        let v = self.eval(s, e);
        let w = self.a.w(e);
        let k = self.a.konst(v, w);
        let q = self.a.bin(X::Eq, e, k);
        let nq = self.a.not(q);
        if self.out_of_range(&cs, nq) { Some(v as u64) } else { None }
    }
    /// Is pc && cond satisfiable? Returns an updated model.
    fn feasible(&mut self, s: &State, cond: E) -> R<Option<Rc<Vec<u64>>>> {
        if let Some(k) = self.a.is_const(cond) {
            return Ok(if k == 1 { Some(s.model.clone()) } else { None });
        }
        self.stats.queries += 1;
        let mut cs = self.slice(s, cond);
        if self.out_of_range(&cs, cond) {
            self.stats.range_decided += 1;
            if self.sh.cfg.verify_cache {
                cs.insert(0, cond);
                let (_, vars) = self.canon(&cs);
                if let Res::Sat(_) = self.z.check(&mut self.a, &cs, &vars) { return Err(End::Err("internal: range analysis disagrees with the solver".into())) }
            }
            return Ok(None);
        }
        cs.insert(0, cond);
        // try recent models first
        let (key, vars) = self.canon(&cs);
        let hit = match self.cache.get(&key) {
            Some(r) => Some(r.clone()),
            None => match self.sh.shm.get(key, vars.len()) {
                Some(r) => { let r = r.map(Rc::new); self.cache.insert(key, r.clone()); Some(r) }
                None => None,
            },
        };
        let res = match hit {
            Some(r) => { self.stats.cache_hits += 1; r }
            None => {
                let t0 = Instant::now();
                let zr = self.z.check(&mut self.a, &cs, &vars);
                if self.sh.cfg.verbose && t0.elapsed().as_millis() > 100 {
                    eprintln!("SLOW {}ms nodes={} vars={} at {}", t0.elapsed().as_millis(), cs.len(), vars.len(), self.stack(s)[..3.min(s.frames.len())].join(" < "));
                    for c in &cs { eprintln!("    {}", self.a.show(*c)); }
                }
                let r = match zr {
                    Res::Unsat => None,
                    Res::Sat(m) => Some(Rc::new(m.iter().map(|x| x.1).collect::<Vec<u64>>())),
                    Res::Unknown => { self.stats.unknown += 1; return Err(End::Err("solver returned unknown".into())) }
                };
                self.sh.shm.put(key, r.as_ref().map(|v| &v[..]));
                self.cache.insert(key, r.clone());
                r
            }
        };
        match res {
            None => Ok(None),
            Some(vals) => {
                let mut m = (*s.model).clone();
                for (v, x) in vars.iter().zip(vals.iter()) {
                    if m.len() <= *v { m.resize(*v + 1, 0); }
                    m[*v] = *x;
                }
                // validate the (possibly cached) model against the slice
                self.a.eval_begin();
                for c in &cs {
                    if self.a.eval(*c, &m) != 1 { return Err(End::Err("internal: model does not satisfy constraints".into())) }
                }
                Ok(Some(Rc::new(m)))
            }
        }
    }
    fn eval(&mut self, s: &State, e: E) -> u128 { self.a.eval_begin(); self.a.eval(e, &s.model) }
    fn add(&mut self, s: &mut State, c: E) {
        if self.a.is_const(c).is_some() { return }
        // split conjunctions
        let n = self.a.n(c);
        if n.op == X::And && n.w == 1 {
            self.add(s, n.a);
            self.add(s, n.b);
            Rc::make_mut(&mut s.known).insert(c, true);
            return;
        }
        if s.known.get(&c) == Some(&true) { return }
        Rc::make_mut(&mut s.pc).push(c);
        self.learn(s, c, true);
    }
    fn learn(&mut self, s: &mut State, c: E, v: bool) {
        let nc = self.a.not(c);
        let k = Rc::make_mut(&mut s.known);
        k.insert(c, v);
        k.insert(nc, !v);
    }
    fn next_dec(&mut self, s: &mut State) -> Option<Dec> {
        if let Some(r) = &s.replay {
            let (k, d) = r[s.rpos].clone();
            if k != s.steps { return Some(Dec::Exact) } // replay went astray: reported by the caller
            s.rpos += 1;
            if s.rpos >= r.len() { s.replay = None; s.rpos = 0; }
            s.decs.push((k, d.clone()));
            return Some(d);
        }
        None
    }
    fn branch(&mut self, s: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.a.is_const(c) { return Ok(k == 1) }
        if let Some(b) = s.known.get(&c) { return Ok(*b) }
        self.touch(s, c)?;
        self.stats.branches += 1;
        if let Some(d) = self.next_dec(s) {
            let b = match d {
                Dec::Side(b) => b,
                Dec::SideR(b) => {
                    // this path was split off here: its instruction ran again on the longer path
                    s.steps -= 1;
                    let cc = if b { c } else { self.a.not(c) };
                    self.add(s, cc);
                    self.learn(s, c, b);
                    return Err(End::Fork);
                }
                // nothing new was added to the path, and later simplification must see the same path
                Dec::Forced(b) => { self.learn(s, c, b); return Ok(b) }
                d => return Err(End::Err(format!("internal: replay mismatch {:?}", d))),
            };
            let cc = if b { c } else { self.a.not(c) };
            self.add(s, cc);
            self.learn(s, c, b);
            return Ok(b);
        }
        let v = self.eval(s, c) == 1;
        let nc = self.a.not(c);
        let (side, other) = if v { (c, nc) } else { (nc, c) };
        match self.feasible(s, other)? {
            None => {
                s.decs.push((s.steps, Dec::Forced(v)));
                self.learn(s, c, v);
                Ok(v)
            }
            Some(m) => {
                let mut o = s.clone();
                o.model = m;
                o.decs.push((o.steps, Dec::SideR(!v)));
                o.steps -= 1; // the instruction runs again
                o.forks += 1;
                self.add(&mut o, other);
                self.learn(&mut o, c, !v);
                self.stats.forks += 1;
                self.stack_out.push(o);
                s.decs.push((s.steps, Dec::Side(v)));
                s.forks += 1;
                self.add(s, side);
                self.learn(s, c, v);
                Ok(v)
            }
        }
    }
    fn concretize(&mut self, s: &mut State, e: E) -> R<u64> {
        if let Some(k) = self.a.is_const(e) { return Ok(k as u64) }
        if let Some(v) = s.conc.get(&e) { return Ok(*v) }
        self.touch(s, e)?;
        self.stats.branches += 1;
        let w = self.a.w(e);
            match self.next_dec(s) {
                Some(Dec::Neq(v)) => {
                    let k = self.a.konst(v as u128, w);
                    let q = self.a.bin(X::Eq, e, k);
                    let nq = self.a.not(q);
                    s.steps -= 1;
                    self.add(s, nq);
                    return Err(End::Fork);
                }
                Some(Dec::Eq(v)) => {
                    let k = self.a.konst(v as u128, w);
                    let q = self.a.bin(X::Eq, e, k);
                    self.add(s, q);
                    Rc::make_mut(&mut s.conc).insert(e, v);
                    return Ok(v);
                }
                Some(d) => return Err(End::Err(format!("internal: replay mismatch {:?}", d))),
                None => {}
            }
        let v = self.eval(s, e) as u64;
        let k = self.a.konst(v as u128, w);
        let q = self.a.bin(X::Eq, e, k);
        let nq = self.a.not(q);
        if let Some(m) = self.feasible(s, nq)? {
            let mut o = s.clone();
            o.model = m;
            o.decs.push((o.steps, Dec::Neq(v)));
            o.steps -= 1;
            o.forks += 1;
            self.add(&mut o, nq);
            self.stats.forks += 1;
            self.stack_out.push(o);
            s.forks += 1;
        }
        s.decs.push((s.steps, Dec::Eq(v)));
        self.add(s, q);
        Rc::make_mut(&mut s.conc).insert(e, v);
        Ok(v)
    }
    fn conc(&mut self, s: &mut State, v: &V) -> R<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::X(e) => self.concretize(s, *e),
            V::Agg(_) => Err(End::Err("concretize aggregate".into())),
        }
    }

    // ---------- values ----------
    fn ex(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(x) => self.a.konst(*x as u128, w as u8),
            V::X(e) => *e,
            V::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    fn val(&self, e: E) -> V {
        let n = self.a.n(e);
        if n.op == X::Const && n.w <= 64 { V::C(n.k as u64) } else { V::X(e) }
    }
    fn opd(&mut self, fr: &Frame, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => fr.regs[*r as usize].clone(),
            Opd::K(k) => V::C(*k),
            Opd::Big(k, w) => V::X(self.a.konst(*k, *w as u8)),
            Opd::Agg(v) => V::Agg(Rc::new(v.iter().map(|x| self.opd(fr, x)).collect())),
        }
    }
    #[inline]
    fn get(&mut self, s: &State, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => s.frames[s.frames.len() - 1].regs[*r as usize].clone(),
            Opd::K(k) => V::C(*k),
            _ => { let fr = s.frames.last().unwrap(); self.opd(fr, o) }
        }
    }

    // ---------- memory ----------
    fn alloc(&mut self, s: &mut State, size: usize, _zero: bool) -> u64 {
        let o = Rc::new(Obj { bytes: vec![0; size], sym: None, konst: false });
        let id = match s.free.pop() {
            Some(i) => { s.mem[i as usize] = Some(o); i }
            None => { s.mem.push(Some(o)); s.mem.len() as u32 - 1 }
        };
        (id as u64) << 32
    }
    fn release(&mut self, s: &mut State, id: u32) {
        s.mem[id as usize] = None;
        s.free.push(id);
    }
    fn obj<'b>(&self, s: &'b State, addr: u64, n: u64) -> R<&'b Rc<Obj>> {
        let id = (addr >> 32) as usize;
        let off = addr & 0xffff_ffff;
        match s.mem.get(id).and_then(|x| x.as_ref()) {
            Some(o) if off + n <= o.bytes.len() as u64 => Ok(o),
            Some(o) => Err(End::Viol(format!("memory access out of bounds (object of {} bytes, offset {}, size {})", o.bytes.len(), off, n))),
            None => Err(End::Viol(format!("memory access to an invalid address {:#x} size {}", addr, n))),
        }
    }
    fn obj_mut<'b>(&mut self, s: &'b mut State, addr: u64, n: u64) -> R<&'b mut Obj> {
        let id = (addr >> 32) as usize;
        let off = addr & 0xffff_ffff;
        let len = match s.mem.get(id).and_then(|x| x.as_ref()) {
            Some(o) => { if o.konst { return Err(End::Viol("write to constant memory".into())) } o.bytes.len() as u64 }
            None => return Err(End::Viol(format!("memory write to an invalid address {:#x} size {}", addr, n))),
        };
        if off + n > len { return Err(End::Viol(format!("memory write out of bounds (object of {} bytes, offset {}, size {})", len, off, n))) }
        Ok(Rc::make_mut(s.mem[id].as_mut().unwrap()))
    }
    fn load_n(&mut self, s: &State, addr: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as u64;
        let o = self.obj(s, addr, n)?.clone();
        let off = (addr & 0xffff_ffff) as usize;
        let symbolic = match &o.sym { None => false, Some(sy) => sy[off..off + n as usize].iter().any(|e| *e != 0) };
        if !symbolic {
            if w <= 64 {
                let mut b = [0u8; 8];
                b[..n as usize].copy_from_slice(&o.bytes[off..off + n as usize]);
                let v = u64::from_le_bytes(b);
                return Ok(V::C(if w == 64 { v } else { v & ((1u64 << w) - 1) }));
            }
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(&o.bytes[off..off + n as usize]);
            return Ok(V::X(self.a.konst(u128::from_le_bytes(b), w as u8)));
        }
        let sy = o.sym.as_ref().unwrap();
        let mut e: E = 0;
        for i in (0..n as usize).rev() {
            let b = if sy[off + i] != 0 { sy[off + i] } else { self.a.konst(o.bytes[off + i] as u128, 8) };
            e = if i == n as usize - 1 { b } else { self.a.concat(e, b) };
        }
        if w != n as u32 * 8 { e = self.a.extract(e, 0, w as u8); }
        Ok(self.val(e))
    }
    fn store_n(&mut self, s: &mut State, addr: u64, w: u32, v: &V) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        match v {
            V::C(x) => {
                let o = self.obj_mut(s, addr, n as u64)?;
                let off = (addr & 0xffff_ffff) as usize;
                let b = x.to_le_bytes();
                if n <= 8 { o.bytes[off..off + n].copy_from_slice(&b[..n]); }
                else { o.bytes[off..off + 8].copy_from_slice(&b); for i in 8..n { o.bytes[off + i] = 0; } }
                if let Some(sy) = &mut o.sym { for i in 0..n { sy[off + i] = 0; } }
            }
            V::X(e) => {
                let mut e = *e;
                let ew = self.a.w(e) as u32;
                if ew != n as u32 * 8 { e = self.a.zext(e, (n * 8) as u8); }
                let mut bs = Vec::with_capacity(n);
                for i in 0..n {
                    let b = self.a.extract(e, (i * 8) as u8, 8);
                    bs.push((b, self.a.is_const(b)));
                }
                let o = self.obj_mut(s, addr, n as u64)?;
                let off = (addr & 0xffff_ffff) as usize;
                let len = o.bytes.len();
                for (i, (b, k)) in bs.into_iter().enumerate() {
                    match k {
                        Some(k) => { o.bytes[off + i] = k as u8; if let Some(sy) = &mut o.sym { sy[off + i] = 0; } }
                        None => { o.sym.get_or_insert_with(|| vec![0; len])[off + i] = b; }
                    }
                }
            }
            V::Agg(_) => return Err(End::Err("store aggregate as scalar".into())),
        }
        Ok(())
    }
    fn load_ty(&mut self, s: &State, addr: u64, t: &Ty) -> R<V> {
        match t {
            Ty::Int(w) => self.load_n(s, addr, *w),
            Ty::Ptr => self.load_n(s, addr, 64),
            Ty::Float(w) => self.load_n(s, addr, *w),
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                if let Ty::Vec(e, n) = t { if e.bits() % 8 != 0 {
                    // packed bit vector
                    let bits = e.bits() * *n as u32;
                    let v = self.load_n(s, addr, bits)?;
                    return Ok(self.unpack(&v, e.bits(), *n as usize));
                } }
                let mut v = Vec::new();
                for i in 0..t.nelem() { v.push(self.load_ty(s, addr + t.field_off(i), t.elem(i))?); }
                Ok(V::Agg(Rc::new(v)))
            }
            _ => Err(End::Err(format!("load of type {:?}", t))),
        }
    }
    fn store_ty(&mut self, s: &mut State, addr: u64, t: &Ty, v: &V) -> R<()> {
        match (t, v) {
            (Ty::Vec(e, n), V::Agg(_)) if e.bits() % 8 != 0 => {
                let p = self.pack(v, e.bits());
                self.store_n(s, addr, e.bits() * *n as u32, &p)
            }
            (_, V::Agg(vs)) => {
                for (i, x) in vs.iter().enumerate() { self.store_ty(s, addr + t.field_off(i), t.elem(i), x)?; }
                Ok(())
            }
            _ => self.store_n(s, addr, t.bits(), v),
        }
    }
    fn unpack(&mut self, v: &V, ew: u32, n: usize) -> V {
        let e = self.ex(v, ew * n as u32);
        let mut out = Vec::new();
        for i in 0..n { let x = self.a.extract(e, (i as u32 * ew) as u8, ew as u8); out.push(self.val(x)); }
        V::Agg(Rc::new(out))
    }
    fn pack(&mut self, v: &V, ew: u32) -> V {
        match v {
            V::Agg(vs) => {
                let mut e = self.ex(&vs[0], ew);
                for x in vs[1..].iter() { let h = self.ex(x, ew); e = self.a.concat(h, e); }
                self.val(e)
            }
            v => v.clone(),
        }
    }
    fn byte(&mut self, s: &State, addr: u64) -> R<V> { self.load_n(s, addr, 8) }
    fn copy(&mut self, s: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()) }
        let so = self.obj(s, src, n)?.clone();
        let so_off = (src & 0xffff_ffff) as usize;
        let n = n as usize;
        let o = self.obj_mut(s, dst, n as u64)?;
        let off = (dst & 0xffff_ffff) as usize;
        o.bytes[off..off + n].copy_from_slice(&so.bytes[so_off..so_off + n]);
        match &so.sym {
            None => if let Some(sy) = &mut o.sym { for x in &mut sy[off..off + n] { *x = 0; } },
            Some(ss) => {
                let any = ss[so_off..so_off + n].iter().any(|e| *e != 0);
                if any {
                    let len = o.bytes.len();
                    o.sym.get_or_insert_with(|| vec![0; len])[off..off + n].copy_from_slice(&ss[so_off..so_off + n]);
                } else if let Some(sy) = &mut o.sym { for x in &mut sy[off..off + n] { *x = 0; } }
            }
        }
        Ok(())
    }
    fn cstring(&mut self, s: &State, addr: u64, n: u64) -> R<String> {
        let o = self.obj(s, addr, n)?;
        let off = (addr & 0xffff_ffff) as usize;
        Ok(String::from_utf8_lossy(&o.bytes[off..off + n as usize]).into_owned())
    }
    /// Load through a symbolic pointer from a small concrete object.
    fn table_load(&mut self, s: &mut State, p: E, t: &Ty) -> R<Option<V>> {
        let w = match t { Ty::Int(w) if *w <= 64 => *w, Ty::Ptr => 64, _ => return Ok(None) };
        let n = ((w + 7) / 8) as u64;
        let a0 = self.eval(s, p) as u64;
        let id = (a0 >> 32) as usize;
        let o = match s.mem.get(id).and_then(|x| x.as_ref()) { Some(o) => o.clone(), None => return Ok(None) };
        let size = o.bytes.len() as u64;
        if size > 2048 || size < n { return Ok(None) }
        if !o.konst && size > 64 { return Ok(None) }
        let base = self.a.konst((id as u128) << 32, 64);
        let off = self.a.bin(X::Sub, p, base);
        let lim = self.a.konst((size - n) as u128, 64);
        let inr = self.a.bin(X::Ule, off, lim);
        // must be provably in range (otherwise fall back to forking)
        if s.known.get(&inr) != Some(&true) {
            if self.eval(s, inr) != 1 { return Ok(None) }
            if s.replay.is_none() {
                let out = self.a.not(inr);
                if self.feasible(s, out)?.is_some() { return Ok(None) }
                self.learn(s, inr, true);
            } else {
                let out = self.a.not(inr);
                if self.feasible(s, out)?.is_some() { return Ok(None) }
                self.learn(s, inr, true);
            }
        }
        // decompose
        let nn = self.a.n(off);
        let (mut tt, mut c) = (off, 0u64);
        if nn.op == X::Add { if let Some(k) = self.a.is_const(nn.b) {
            let k = k as u64;
            if (k as i64).unsigned_abs() <= 4096 { tt = nn.a; c = k; }
        } }
        let nt = self.a.n(tt);
        let mut k = 0u32;
        if nt.op == X::Concat && self.a.is_const(nt.b) == Some(0) { k = self.a.w(nt.b) as u32; }
        if nt.op == X::ZExt { let q = self.a.n(nt.a); if q.op == X::Concat && self.a.is_const(q.b) == Some(0) { k = self.a.w(q.b) as u32; } }
        let span = size + (c as i64).unsigned_abs();
        let mut bits = 1;
        while (1u64 << bits) < span { bits += 1 }
        let bits = if bits > k { bits - k } else { 1 };
        let idx = self.a.extract(tt, k as u8, bits as u8);
        let sym = o.sym.as_ref().map_or(false, |x| x.iter().any(|e| *e != 0));
        if !sym {
            let mut tab = Vec::new();
            for i in 0..(1u64 << bits) {
                let at = (i << k).wrapping_add(c) & ((1u64 << (bits + k)) - 1); // the index may be negative
                if at <= size - n {
                    let mut b = [0u8; 8];
                    b[..n as usize].copy_from_slice(&o.bytes[at as usize..(at + n) as usize]);
                    let v = u64::from_le_bytes(b);
                    tab.push(if w == 64 { v } else { v & ((1 << w) - 1) });
                } else { tab.push(0) }
            }
            let e = self.a.table(tab, idx, w as u8);
            return Ok(Some(self.val(e)));
        }
        let mut acc: Option<E> = None;
        for i in 0..(1u64 << bits) {
            let at = (i << k).wrapping_add(c) & ((1u64 << (bits + k)) - 1); // the index may be negative
            if at <= size - n {
                let v = self.load_n(s, ((id as u64) << 32) + at, w)?;
                let v = self.ex(&v, w);
                acc = Some(match acc {
                    None => v,
                    Some(x) => { let ki = self.a.konst(i as u128, bits as u8); let q = self.a.bin(X::Eq, idx, ki); self.a.ite(q, v, x) }
                });
            }
        }
        Ok(acc.map(|e| self.val(e)))
    }

    // ---------- path ends ----------
    fn inputs(&mut self, s: &State, model: &[u64]) -> Vec<(String, Vec<u8>)> {
        s.inputs.iter().map(|(n, v, l)| (n.clone(), (0..*l).map(|i| model.get(v + i).copied().unwrap_or(0) as u8).collect())).collect()
    }
    fn logs(&mut self, s: &State, model: &[u64]) -> Vec<(String, Vec<u8>)> {
        let mut out = Vec::new();
        self.a.eval_begin();
        for (n, vs) in s.log.iter() {
            let mut b = Vec::new();
            for v in vs { b.push(match v { V::C(x) => *x as u8, V::X(e) => self.a.eval(*e, model) as u8, _ => 0 }); }
            out.push((n.clone(), b));
        }
        out
    }
    fn stack(&self, s: &State) -> Vec<String> {
        s.frames.iter().rev().map(|f| { let d = &self.m.funcs[f.fid as usize]; if d.pretty.is_empty() { d.name.clone() } else { d.pretty.clone() } }).take(40).collect()
    }
    fn violation(&mut self, s: &State, msg: String, model: &[u64], callee: Option<String>) {
        let mut stack = self.stack(s);
        if let Some(c) = callee { stack.insert(0, c); }
        let inputs = self.inputs(s, model);
        let log = self.logs(s, model);
        if self.sh.cfg.verbose { eprintln!("VIOL {} {:?}", msg, stack.iter().take(6).collect::<Vec<_>>()); }
        let n = self.nviol.entry(msg.clone()).or_insert(0);
        *n += 1;
        *self.stats.viol_counts.entry(msg.clone()).or_insert(0) += 1;
        if *n <= 3 { self.stats.violations.push(Violation { msg, stack, inputs, log }); }
        if self.nviol.len() >= self.sh.cfg.max_viol { self.sh.shm.stop(); }
    }
    fn finish(&mut self, s: State, e: End) {
        self.stats.steps += s.steps;
        self.stats.max_path_steps = self.stats.max_path_steps.max(s.steps);
        self.stats.max_vars = self.stats.max_vars.max(s.nvars);
        match e {
            End::Ok => {
                self.stats.paths += 1;
                for c in s.covers.iter() { *self.stats.covers.entry(c.clone()).or_insert(0) += 1; }
                let mut h = 0u64;
                for (_, d) in &s.decs { h = mix(h, match d { Dec::Side(b) => *b as u64, Dec::SideR(b) => 0x6000_0000 + *b as u64, Dec::Forced(b) => 0x9000_0000 + *b as u64, Dec::Target(t) => 2 + *t as u64, Dec::Eq(v) => v.wrapping_add(0x1000), Dec::Neq(v) => v.wrapping_add(0x2000_0000), Dec::Exact => 0x777 }); }
                let n = self.sh.cfg.nsamples;
                if n > 0 && (self.stats.samples.len() < n || h < self.stats.samples.last().map_or(u64::MAX, |x| x.0)) {
                    let m = s.model.clone();
                    let i = self.inputs(&s, &m);
                    let l = self.logs(&s, &m);
                    self.stats.samples.push((h, i, l));
                    self.stats.samples.sort_by_key(|x| x.0);
                    self.stats.samples.truncate(n);
                }
            }
            End::Cut => { self.stats.cut += 1; }
            End::Viol(m) => {
                self.stats.paths += 1;
                let model = s.model.clone();
                self.violation(&s, m, &model, None);
            }
            End::Err(m) => {
                let st = self.stack(&s);
                let at = st.iter().take(4).cloned().collect::<Vec<_>>().join(" < ");
                if self.sh.cfg.verbose { eprintln!("ERR {} at {}", m, at); }
                *self.stats.errors.entry(format!("{} at {}", m, at)).or_insert(0) += 1;
            }
            End::Fork | End::Exact => unreachable!(),
        }
    }
    fn run(&mut self, mut s: State, stack: &mut Vec<State>) {
        let e = loop {
            match self.step(&mut s) {
                Ok(()) => {
                    if s.steps & 0xffff == 0 && self.sh.shm.stopped() { self.stats.pending += 1; stack.append(&mut self.stack_out); return }
                    if s.steps & 0xfffff == 0 && self.sh.elapsed() > self.sh.cfg.deadline {
                        self.sh.shm.set_timed_out();
                    }
                    if s.steps > self.sh.cfg.max_steps { break End::Viol("instruction budget of a path exceeded (possible endless loop)".into()) }
                    if !self.stack_out.is_empty() {
                        // explore: keep running the current one, put others on the stack
                        stack.append(&mut self.stack_out);
                        if self.sh.shm.hungry() > 0 && stack.len() > 1 {
                            // let the worker donate
                            stack.push(s);
                            return;
                        }
                    }
                }
                Err(e) if matches!(e, End::Exact) || matches!(e, End::Viol(_)) && s.snap.is_some() && !s.exact => {
                    // opaque text mattered: redo everything since it was made with the real code
                    stack.append(&mut self.stack_out);
                    let sn = s.snap.clone().expect("opaque without snapshot");
                    if !sn.1.replace(true) {
                        let mut t = sn.0.clone();
                        t.exact = true;
                        // what is left to replay was decided on the approximate text
                        t.replay = None;
                        t.rpos = 0;
                        t.decs.push((t.steps, Dec::Exact));
                        t.steps -= 1;
                        // other workers may hold paths from the same snapshot
                        if self.sh.shm.claim(dec_hash(&t.decs)) {
                            stack.push(t);
                            self.stats.exact_redo += 1;
                        }
                    }
                    return;
                }
                Err(End::Fork) => { stack.append(&mut self.stack_out); stack.push(s); return }
                Err(e) => break e,
            }
        };
        stack.append(&mut self.stack_out);
        self.finish(s, e);
    }

    fn goto(&mut self, s: &mut State, to: u32) {
        let fi = s.frames.len() - 1;
        let f = s.frames[fi].f;
        let from = s.frames[fi].bb;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, ins) = &b.phis[0];
                let o = &ins.iter().find(|x| x.0 == from).expect("phi pred").1;
                let v = self.get(s, o);
                s.frames[fi].regs[*d as usize] = v;
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for (_, ins) in &b.phis {
                    let o = &ins.iter().find(|x| x.0 == from).expect("phi pred").1;
                    vals.push(self.get(s, o));
                }
                for ((d, _), v) in b.phis.iter().zip(vals) { s.frames[fi].regs[*d as usize] = v; }
            }
        }
        let fr = &mut s.frames[fi];
        fr.prev = from;
        fr.bb = to;
        fr.ip = 0;
    }
    #[inline]
    fn set(&mut self, s: &mut State, dst: u32, v: V) {
        let fi = s.frames.len() - 1;
        let fr = &mut s.frames[fi];
        if dst != NODST { fr.regs[dst as usize] = v; }
        fr.ip += 1;
    }
    fn do_ret(&mut self, s: &mut State, v: Option<V>) -> R<()> {
        let fr = s.frames.pop().unwrap();
        for id in fr.allocas.iter().rev() { self.release(s, *id); }
        if s.frames.is_empty() { return Err(End::Ok) }
        self.ret_to(s, fr.ret_dst, fr.ret_next, v);
        Ok(())
    }
    fn ret_to(&mut self, s: &mut State, dst: u32, next: u32, v: Option<V>) {
        let fi = s.frames.len() - 1;
        if dst != NODST { if let Some(v) = v { s.frames[fi].regs[dst as usize] = v; } }
        if next != NODST { self.goto(s, next) } else { s.frames[fi].ip += 1; }
    }

    fn bin(&mut self, b: Bin, w: u32, x: &V, y: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (x, y) {
            let (x, y) = (*x, *y);
            let m = if w >= 64 { !0u64 } else { (1u64 << w) - 1 };
            let sx = |v: u64| -> i64 { let sh = 64 - w; ((v << sh) as i64) >> sh };
            return Ok(V::C(match b {
                Bin::Add => x.wrapping_add(y) & m,
                Bin::Sub => x.wrapping_sub(y) & m,
                Bin::Mul => x.wrapping_mul(y) & m,
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
                Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                Bin::AShr => ((sx(x) >> y.min(w as u64 - 1)) as u64) & m,
                Bin::UDiv => { if y == 0 { return Err(End::Viol("division by zero".into())) } x / y }
                Bin::URem => { if y == 0 { return Err(End::Viol("division by zero".into())) } x % y }
                Bin::SDiv => { if y == 0 { return Err(End::Viol("division by zero".into())) } (sx(x).wrapping_div(sx(y)) as u64) & m }
                Bin::SRem => { if y == 0 { return Err(End::Viol("division by zero".into())) } (sx(x).wrapping_rem(sx(y)) as u64) & m }
            }));
        }
        let (ex, ey) = (self.ex(x, w), self.ex(y, w));
        let op = match b { Bin::Add => X::Add, Bin::Sub => X::Sub, Bin::Mul => X::Mul, Bin::UDiv => X::UDiv, Bin::SDiv => X::SDiv,
            Bin::URem => X::URem, Bin::SRem => X::SRem, Bin::Shl => X::Shl, Bin::LShr => X::LShr, Bin::AShr => X::AShr,
            Bin::And => X::And, Bin::Or => X::Or, Bin::Xor => X::Xor };
        let r = self.a.bin(op, ex, ey);
        Ok(self.val(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, x: &V, y: &V) -> V {
        if let (V::C(x), V::C(y)) = (x, y) {
            let (x, y) = (*x, *y);
            let sx = |v: u64| -> i64 { if w >= 64 { v as i64 } else { let sh = 64 - w; ((v << sh) as i64) >> sh } };
            return V::C(match p {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y,
                Pred::Slt => sx(x) < sx(y), Pred::Sle => sx(x) <= sx(y), Pred::Sgt => sx(x) > sx(y), Pred::Sge => sx(x) >= sx(y),
            } as u64);
        }
        let (ex, ey) = (self.ex(x, w), self.ex(y, w));
        let r = match p {
            Pred::Eq => self.a.bin(X::Eq, ex, ey),
            Pred::Ne => { let q = self.a.bin(X::Eq, ex, ey); self.a.not(q) }
            Pred::Ult => self.a.bin(X::Ult, ex, ey),
            Pred::Ule => self.a.bin(X::Ule, ex, ey),
            Pred::Ugt => self.a.bin(X::Ult, ey, ex),
            Pred::Uge => self.a.bin(X::Ule, ey, ex),
            Pred::Slt => self.a.bin(X::Slt, ex, ey),
            Pred::Sle => self.a.bin(X::Sle, ex, ey),
            Pred::Sgt => self.a.bin(X::Slt, ey, ex),
            Pred::Sge => self.a.bin(X::Sle, ey, ex),
        };
        self.val(r)
    }
    fn cast(&mut self, c: Cast, st: &Ty, dt: &Ty, v: V) -> R<V> {
        if let (Ty::Vec(e, n), Cast::Bitcast) = (st, c) {
            let p = self.pack(&v, e.bits());
            if let Ty::Vec(e2, n2) = dt { return Ok(self.unpack(&p, e2.bits(), *n2 as usize)) }
            let _ = n;
            return Ok(p);
        }
        if let (Ty::Vec(e2, n2), Cast::Bitcast) = (dt, c) { return Ok(self.unpack(&v, e2.bits(), *n2 as usize)) }
        if let (Ty::Vec(e1, _), Ty::Vec(e2, _), V::Agg(vs)) = (st, dt, &v) {
            let mut out = Vec::new();
            for x in vs.iter() { out.push(self.cast(c, e1, e2, x.clone())?); }
            return Ok(V::Agg(Rc::new(out)));
        }
        let (sw, dw) = (st.bits(), dt.bits());
        match c {
            Cast::Nop | Cast::Bitcast => Ok(v),
            Cast::Trunc => match v {
                V::C(x) => Ok(V::C(if dw >= 64 { x } else { x & ((1u64 << dw) - 1) })),
                V::X(e) => { let r = self.a.extract(e, 0, dw as u8); Ok(self.val(r)) }
                _ => Err(End::Err("trunc agg".into())),
            },
            Cast::ZExt => match v {
                V::C(x) if dw <= 64 => Ok(V::C(x)),
                v => { let e = self.ex(&v, sw); let r = self.a.zext(e, dw as u8); Ok(self.val(r)) }
            },
            Cast::SExt => match v {
                V::C(x) if dw <= 64 => Ok(V::C((expr::sext(x as u128, sw as u8) as u64) & mask(dw as u8) as u64)),
                v => { let e = self.ex(&v, sw); let r = self.a.sext(e, dw as u8); Ok(self.val(r)) }
            },
            _ => {
                let x = match v { V::C(x) => x, _ => return Err(End::Err("float of an aggregate".into())) };
                let fv = if sw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                Ok(V::C(match c {
                    Cast::FpToUi => fv as u64,
                    Cast::FpToSi => (fv as i64) as u64,
                    Cast::UiToFp => if dw == 32 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() },
                    Cast::SiToFp => { let i = expr::sext(x as u128, sw as u8) as i64; if dw == 32 { (i as f32).to_bits() as u64 } else { (i as f64).to_bits() } }
                    Cast::FpExt => fv.to_bits(),
                    Cast::FpTrunc => (fv as f32).to_bits() as u64,
                    _ => unreachable!(),
                }))
            }
        }
    }

    fn step(&mut self, s: &mut State) -> R<()> {
        let (ins, fi): (&'static Ins, usize) = {
            let fi = s.frames.len() - 1;
            let fr = &s.frames[fi];
            (&fr.f.blocks[fr.bb as usize].ins[fr.ip as usize], fi)
        };
        s.steps += 1;
        let dst = ins.dst;
        match &ins.op {
            Op::Nop => { s.frames[fi].ip += 1; }
            Op::Bin(b, w, lanes, x, y) => {
                let (x, y) = (self.get(s, x), self.get(s, y));
                if *lanes > 0 {
                    let (xs, ys) = match (&x, &y) { (V::Agg(a), V::Agg(b)) => (a.clone(), b.clone()), _ => return Err(End::Err("vector op".into())) };
                    let mut out = Vec::new();
                    for (a, c) in xs.iter().zip(ys.iter()) { out.push(self.bin(*b, *w, a, c)?); }
                    self.set(s, dst, V::Agg(Rc::new(out)));
                } else {
                    if matches!(b, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
                        if let V::X(e) = &y {
                            let z = self.a.konst(0, *w as u8);
                            let q = self.a.bin(X::Eq, *e, z);
                            if self.branch(s, q)? { return Err(End::Viol("division by zero".into())) }
                        }
                    }
                    let v = match self.easy_div(s, *b, *w, &x, &y) { Some(v) => v, None => self.bin(*b, *w, &x, &y)? };
                    self.set(s, dst, v);
                }
            }
            Op::FBin(o, w, x, y) => {
                let (x, y) = (self.get(s, x), self.get(s, y));
                let (x, y) = (self.conc(s, &x)?, self.conc(s, &y)?); // floating point: one value per path
                let f = |a: f64, b: f64| match o { b'a' => a + b, b's' => a - b, b'm' => a * b, _ => a / b };
                let r = if *w == 32 { (f(f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) as f32).to_bits() as u64 }
                    else { f(f64::from_bits(x), f64::from_bits(y)).to_bits() };
                self.set(s, dst, V::C(r));
            }
            Op::FCmp(p, w, x, y) => {
                let (x, y) = (self.get(s, x), self.get(s, y));
                let (x, y) = (self.conc(s, &x)?, self.conc(s, &y)?); // floating point: one value per path
                let (x, y) = if *w == 32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x), f64::from_bits(y)) };
                let un = x.is_nan() || y.is_nan();
                let r = match &p[1..] { "eq" => x == y, "ne" => x != y, "lt" => x < y, "le" => x <= y, "gt" => x > y, "ge" => x >= y, _ => false };
                let r = match &**p { "ord" => !un, "uno" => un, _ if p.starts_with('u') => un || r, _ => !un && r };
                self.set(s, dst, V::C(r as u64));
            }
            Op::ICmp(p, w, lanes, x, y) => {
                let (x, y) = (self.get(s, x), self.get(s, y));
                if *lanes > 0 {
                    let (xs, ys) = match (&x, &y) { (V::Agg(a), V::Agg(b)) => (a.clone(), b.clone()), _ => return Err(End::Err("vector icmp".into())) };
                    let mut out = Vec::new();
                    for (a, c) in xs.iter().zip(ys.iter()) { out.push(self.icmp(*p, *w, a, c)); }
                    self.set(s, dst, V::Agg(Rc::new(out)));
                } else {
                    let v = self.icmp(*p, *w, &x, &y);
                    self.set(s, dst, v);
                }
            }
            Op::Select(c, t, x, y) => {
                let mut c = self.get(s, c);
                if let V::X(e) = c { if let Some(b) = self.settled(s, e) { c = V::C(b as u64); } }
                let v = match c {
                    V::C(c) => if c & 1 == 1 { self.get(s, x) } else { self.get(s, y) },
                    V::X(c) => {
                        let (x, y) = (self.get(s, x), self.get(s, y));
                        match (t, &x, &y) {
                            (Ty::Int(w), _, _) => {
                                let (ex, ey) = (self.ex(&x, *w), self.ex(&y, *w));
                                let r = self.a.ite(c, ex, ey);
                                self.val(r)
                            }
                            _ => if self.branch(s, c)? { x } else { y },
                        }
                    }
                    _ => return Err(End::Err("select".into())),
                };
                self.set(s, dst, v);
            }
            Op::Load(t, p) => {
                let p = self.get(s, p);
                let v = match p {
                    V::C(a) => self.load_ty(s, a, t)?,
                    V::X(e) => {
                        if let Some(a) = s.conc.get(&e).copied() { self.load_ty(s, a, t)? }
                        else if let Some(a) = self.fixed(s, e) { self.load_ty(s, a, t)? }
                        else {
                            match self.table_load(s, e, t)? {
                                Some(v) => v,
                                None => { let a = self.concretize(s, e)?; self.load_ty(s, a, t)? }
                            }
                        }
                    }
                    _ => return Err(End::Err("load".into())),
                };
                self.set(s, dst, v);
            }
            Op::Store(t, v, p) => {
                let (v, p) = (self.get(s, v), self.get(s, p));
                let a = self.conc(s, &p)?;
                self.store_ty(s, a, t, &v)?;
                s.frames[fi].ip += 1;
            }
            Op::Gep(b, k, ix) => {
                let b = self.get(s, b);
                let mut acc = match b {
                    V::C(a) => V::C(a.wrapping_add(*k)),
                    V::X(e) => { let kk = self.a.konst(*k as u128, 64); let r = self.a.bin(X::Add, e, kk); self.val(r) }
                    _ => return Err(End::Err("gep".into())),
                };
                for (o, w, sc) in ix {
                    let i = self.get(s, o);
                    acc = match (&acc, &i) {
                        (V::C(a), V::C(i)) => {
                            let i = if *w >= 64 { *i } else { expr::sext(*i as u128, *w as u8) as u64 };
                            V::C(a.wrapping_add(i.wrapping_mul(*sc)))
                        }
                        _ => {
                            let a = self.ex(&acc, 64);
                            let i = self.ex(&i, *w);
                            let i = self.a.sext(i, 64);
                            let k = self.a.konst(*sc as u128, 64);
                            let m = self.a.bin(X::Mul, i, k);
                            let r = self.a.bin(X::Add, a, m);
                            self.val(r)
                        }
                    };
                }
                self.set(s, dst, acc);
            }
            Op::Alloca(sz, n) => {
                let n = self.get(s, n);
                let n = self.conc(s, &n)?;
                let a = self.alloc(s, (*sz * n) as usize, false);
                s.frames[fi].allocas.push((a >> 32) as u32);
                self.set(s, dst, V::C(a));
            }
            Op::Cast(c, st, dt, o) => {
                let mut v = self.get(s, o);
                // floating point: one value per path
                if let (V::X(_), false) = (&v, matches!(c, Cast::Nop | Cast::Bitcast | Cast::Trunc | Cast::ZExt | Cast::SExt)) { v = V::C(self.conc(s, &v)?); }
                let r = self.cast(*c, st, dt, v)?;
                self.set(s, dst, r);
            }
            Op::Br(b) => self.goto(s, *b),
            Op::CondBr(c, a, b) => {
                let c = self.get(s, c);
                let t = match c {
                    V::C(c) => c & 1 == 1,
                    V::X(e) => self.branch(s, e)?,
                    _ => return Err(End::Err("br".into())),
                };
                self.goto(s, if t { *a } else { *b });
            }
            Op::Switch(o, d, cases, w) => {
                let v = self.get(s, o);
                match v {
                    V::C(x) => {
                        let t = cases.iter().find(|c| c.0 == x as u128).map(|c| c.1).unwrap_or(*d);
                        self.goto(s, t);
                    }
                    V::X(e) => self.switch(s, e, *d, cases, *w)?,
                    _ => return Err(End::Err("switch".into())),
                }
            }
            Op::Ret(o) => {
                let v = o.as_ref().map(|o| self.get(s, o));
                self.do_ret(s, v)?;
            }
            Op::Unreachable => return Err(End::Viol("unreachable instruction executed".into())),
            Op::Extract(o, ix) => {
                let mut v = self.get(s, o);
                for i in ix { v = match v { V::Agg(vs) => vs[*i as usize].clone(), _ => return Err(End::Err("extractvalue".into())) }; }
                self.set(s, dst, v);
            }
            Op::Insert(o, x, ix, t) => {
                let v = self.get(s, o);
                let x = self.get(s, x);
                let v = match v { V::Agg(_) => v, _ => self.zero_agg(t) };
                let r = insert(v, x, ix)?;
                self.set(s, dst, r);
            }
            Op::AtomicRmw(op, t, p, v) => {
                let (p, v) = (self.get(s, p), self.get(s, v));
                let a = self.conc(s, &p)?;
                let w = t.bits();
                let old = self.load_n(s, a, w)?;
                let new = match &**op {
                    "xchg" => v,
                    "add" => self.bin(Bin::Add, w, &old, &v)?,
                    "sub" => self.bin(Bin::Sub, w, &old, &v)?,
                    "and" => self.bin(Bin::And, w, &old, &v)?,
                    "or" => self.bin(Bin::Or, w, &old, &v)?,
                    "xor" => self.bin(Bin::Xor, w, &old, &v)?,
                    o => return Err(End::Err(format!("atomicrmw {}", o))),
                };
                self.store_n(s, a, w, &new)?;
                self.set(s, dst, old);
            }
            Op::CmpXchg(t, p, c, n) => {
                let (p, c, n) = (self.get(s, p), self.get(s, c), self.get(s, n));
                let a = self.conc(s, &p)?;
                let w = t.bits();
                let old = self.load_n(s, a, w)?;
                let eq = self.icmp(Pred::Eq, w, &old, &c);
                let ok = match eq { V::C(x) => x == 1, V::X(e) => self.branch(s, e)?, _ => false };
                if ok { self.store_n(s, a, w, &n)?; }
                self.set(s, dst, V::Agg(Rc::new(vec![old, V::C(ok as u64)])));
            }
            Op::Copy(o) => { let v = self.get(s, o); self.set(s, dst, v); }
            Op::ExtractElem(v, i) => {
                let (v, i) = (self.get(s, v), self.get(s, i));
                let i = self.conc(s, &i)?;
                let r = match v { V::Agg(vs) => vs[i as usize].clone(), _ => return Err(End::Err("extractelement".into())) };
                self.set(s, dst, r);
            }
            Op::InsertElem(v, e, i, t) => {
                let (v, e, i) = (self.get(s, v), self.get(s, e), self.get(s, i));
                let i = self.conc(s, &i)?;
                let v = match v { V::Agg(_) => v, _ => self.zero_agg(t) };
                let r = insert(v, e, &[i as u32])?;
                self.set(s, dst, r);
            }
            Op::Shuffle(a, b, ix, n) => {
                let (a, b) = (self.get(s, a), self.get(s, b));
                let at = |v: &V, i: usize| match v { V::Agg(x) => x[i].clone(), v => v.clone() };
                let r = ix.iter().map(|i| if *i < *n { at(&a, *i as usize) } else { at(&b, (*i - *n) as usize) }).collect();
                self.set(s, dst, V::Agg(Rc::new(r)));
            }
            Op::Call { callee, args, ret, next } => {
                match callee {
                    Callee::Asm => { self.ret_to(s, dst, *next, Some(V::C(0))); }
                    Callee::Intr(n) => {
                        let mut av = Vec::with_capacity(args.len());
                        for (_, o) in args { av.push(self.get(s, o)); }
                        let v = self.intrinsic(s, n, args, &av, ret)?;
                        self.ret_to(s, dst, *next, v);
                    }
                    Callee::Direct(f) => self.call(s, *f, args, dst, *next)?,
                    Callee::Reg(o) => {
                        let p = self.get(s, o);
                        let a = self.conc(s, &p)?;
                        let id = (a >> 32) as u32;
                        if id < FUNC_BASE || id >= self.gbase || a & 0xffff_ffff != 0 { return Err(End::Viol(format!("call through invalid pointer {:#x}", a))) }
                        self.call(s, id - FUNC_BASE, args, dst, *next)?;
                    }
                }
            }
            Op::Unsupported(w) => return Err(End::Err(format!("unsupported instruction {}", w))),
        }
        Ok(())
    }
    fn zero_agg(&mut self, t: &Ty) -> V {
        match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => V::Agg(Rc::new((0..t.nelem()).map(|i| self.zero_agg(t.elem(i))).collect())),
            _ => V::C(0),
        }
    }
    fn switch(&mut self, s: &mut State, e: E, d: u32, cases: &'static [(u128, u32)], w: u32) -> R<()> {
        self.touch(s, e)?;
        self.stats.branches += 1;
        // distinct targets; default group is last
        let mut groups: Vec<(u32, Vec<u128>)> = Vec::new();
        for (k, t) in cases {
            if *t == d { continue }
            match groups.iter_mut().find(|g| g.0 == *t) { Some(g) => g.1.push(*k), None => groups.push((*t, vec![*k])) }
        }
        let mut conds: Vec<(u32, E)> = Vec::new();
        let mut any: Option<E> = None;
        for (t, ks) in &groups {
            let mut c: Option<E> = None;
            for k in ks {
                let kk = self.a.konst(*k, w as u8);
                let q = self.a.bin(X::Eq, e, kk);
                c = Some(match c { None => q, Some(c) => self.a.bin(X::Or, c, q) });
            }
            let c = c.unwrap();
            any = Some(match any { None => c, Some(x) => self.a.bin(X::Or, x, c) });
            conds.push((*t, c));
        }
        let dc = match any { Some(x) => self.a.not(x), None => self.a.konst(1, 1) };
        conds.push((d, dc));
        if let Some(dec) = self.next_dec(s) {
            let i = match dec { Dec::Target(i) => i, d => return Err(End::Err(format!("internal: replay mismatch {:?}", d))) };
            let (t, c) = conds[i as usize];
            self.add(s, c);
            self.goto(s, t);
            return Ok(());
        }
        let v = self.eval(s, e);
        let own = groups.iter().position(|g| g.1.contains(&v)).unwrap_or(groups.len());
        for (i, (t, c)) in conds.iter().enumerate() {
            if i == own { continue }
            if let Some(false) = s.known.get(c) { continue }
            if let Some(m) = self.feasible(s, *c)? {
                let mut o = s.clone();
                o.model = m;
                o.decs.push((o.steps, Dec::Target(i as u32)));
                o.forks += 1;
                self.add(&mut o, *c);
                self.goto(&mut o, *t);
                self.stats.forks += 1;
                self.stack_out.push(o);
            }
        }
        s.decs.push((s.steps, Dec::Target(own as u32)));
        let (t, c) = conds[own];
        self.add(s, c);
        self.goto(s, t);
        Ok(())
    }
    fn call(&mut self, s: &mut State, f: u32, args: &'static [(Ty, Opd)], dst: u32, next: u32) -> R<()> {
        match self.sh.kinds[f as usize] {
            Kind::Lossy | Kind::StrDebug | Kind::NumDisplay if !s.exact && self.text_call(s, f, args, dst, next)? => Ok(()),
            Kind::Def | Kind::Lossy | Kind::StrDebug | Kind::NumDisplay => {
                self.seen_funcs[f as usize] = true;
                let func: &'static Func = self.m.func(f);
                let mut regs = Vec::with_capacity(func.nregs as usize);
                for (_, o) in args.iter().take(func.nparams as usize) { regs.push(self.get(s, o)); }
                regs.resize(func.nregs as usize, V::C(0));
                if s.frames.len() > 2000 { return Err(End::Viol("call depth exceeded".into())) }
                s.frames.push(Frame { fid: f, f: func, bb: 0, ip: 0, prev: 0, regs, allocas: vec![], ret_dst: dst, ret_next: next });
                Ok(())
            }
            Kind::Panic => {
                let d = &self.m.funcs[f as usize];
                let name = if d.pretty.is_empty() { d.name.clone() } else { d.pretty.clone() };
                // the innermost frame that belongs to the crate under test
                let at = self.stack(s).into_iter().find(|n| n.contains("dir_signature") || n.contains("index::")).unwrap_or_default();
                let mut extra = String::new();
                // panic message when it is a plain string argument
                for (i, (t, o)) in args.iter().enumerate() {
                    if *t == Ty::Ptr && i == 0 {
                        if let V::C(a) = self.get(s, o) {
                            let len = args.get(1).map(|x| self.get(s, &x.1));
                            if let Some(V::C(n)) = len { let n = if name.contains("fmt") { n >> 1 } else { n };
                                if n < 200 && self.obj(s, a, n).is_ok() { extra = self.cstring(s, a, n).unwrap_or_default(); } }
                        }
                    }
                }
                if !extra.is_ascii() { extra.clear(); }
                Err(End::Viol(format!("panic: {} {} in {}", short(&name, &d.name), extra, at)))
            }
            Kind::B(b) => {
                let mut av = Vec::with_capacity(args.len());
                for (_, o) in args { av.push(self.get(s, o)); }
                let v = self.builtin(s, b, &av)?;
                self.ret_to(s, dst, next, v);
                Ok(())
            }
            Kind::Missing => Err(End::Err(format!("call of unmodelled external function {}", self.m.funcs[f as usize].name))),
        }
    }
    /// The value matters to control flow, a check or an observation: opaque text may not.
    fn touch(&mut self, s: &State, e: E) -> R<()> {
        if self.a.vars[e as usize][3] >> 63 == 1 && s.snap.is_some() { return Err(End::Exact) }
        Ok(())
    }
    /// Human-readable rendering of symbolic bytes (`String::from_utf8_lossy`, `<str as Debug>::fmt`) is
    /// replaced by opaque text; if a path ever looks at that text it is redone with the real code.
    fn text_call(&mut self, s: &mut State, f: u32, args: &'static [(Ty, Opd)], dst: u32, next: u32) -> R<bool> {
        let mut a = Vec::new();
        for (_, o) in args { a.push(self.get(s, o)); }
        let num = self.sh.kinds[f as usize] == Kind::NumDisplay;
        let debug = num || self.sh.kinds[f as usize] == Kind::StrDebug;
        let o = if debug { 0 } else { 1 };
        if a.len() != if num { 2 } else { 3 } { return Err(End::Err("text helper with unexpected signature".into())) }
        // numbers: only inside format!(), whose text is for people
        if num && !s.frames.iter().any(|f| self.m.funcs[f.fid as usize].name.contains("5alloc3fmt6format12format_inner")) { return Ok(false) }
        let (p, n) = (self.conc(s, &a[o])?, if num { 8 } else { self.conc(s, &a[o + 1])? });
        let mut symbolic = false;
        for i in 0..n { if let V::X(_) = self.byte(s, p + i)? { symbolic = true; break } }
        if !symbolic { return Ok(false) }
        if let Some(r) = &s.replay {
            if r[s.rpos].1 == Dec::Exact && s.snap.is_none() {
                self.next_dec(s);
                s.exact = true;
                return Ok(false);
            }
        }
        if s.snap.is_none() { s.snap = Some(Rc::new((s.clone(), std::cell::Cell::new(false)))); }
        let len = if num { 20 } else if debug { n + 2 } else { n };
        let buf = self.alloc(s, len as usize, false);
        for i in 0..len {
            // no two opaque bytes are taken to be equal
            let ov = V::X(self.a.var(expr::OPAQUE + s.ntext % expr::OPAQUE_N, 8));
            s.ntext += 1;
            self.store_n(s, buf + i, 8, &ov)?;
        }
        if debug {
            let w = self.conc(s, &a[if num { 1 } else { 2 }])?;
            let (d, vt) = (self.load_n(s, w, 64)?, self.load_n(s, w + 8, 64)?);
            let vt = self.conc(s, &vt)?;
            let fp = self.load_n(s, vt + 24, 64)?;
            let fp = self.conc(s, &fp)?;
            let id = (fp >> 32) as u32;
            if id < FUNC_BASE || id >= self.gbase { return Err(End::Err("write_str pointer".into())) }
            let fid = id - FUNC_BASE;
            let func: &'static Func = self.m.func(fid);
            self.seen_funcs[fid as usize] = true;
            let mut regs = vec![d, V::C(buf), V::C(len)];
            if (func.nparams as usize) != 3 { return Err(End::Err("write_str signature".into())) }
            regs.resize(func.nregs as usize, V::C(0));
            s.frames.push(Frame { fid, f: func, bb: 0, ip: 0, prev: 0, regs, allocas: vec![], ret_dst: dst, ret_next: next });
        } else {
            let r = self.conc(s, &a[0])?;
            self.store_n(s, r, 64, &V::C(1 << 63))?;
            self.store_n(s, r + 8, 64, &V::C(buf))?;
            self.store_n(s, r + 16, 64, &V::C(len))?;
            self.ret_to(s, dst, next, None);
        }
        Ok(true)
    }
    fn alloc_checked(&mut self, s: &mut State, size: &V) -> R<u64> {
        let lim = self.sh.cfg.max_alloc;
        if let V::X(e) = size {
            let k = self.a.konst(lim as u128, 64);
            let big = self.a.bin(X::Ult, k, *e);
            if self.branch(s, big)? {
                return Err(End::Viol(format!("allocation larger than {} bytes requested", lim)));
            }
            // the size stays symbolic: any object that is large enough will do
            for room in [256, 4096, 65536] {
                let k = self.a.konst(room as u128, 64);
                let big = self.a.bin(X::Ult, k, *e);
                if room >= lim { break }
                if !self.branch(s, big)? { return Ok(room) }
            }
            return Ok(lim)
        }
        let n = self.conc(s, size)?;
        if n > lim { return Err(End::Viol(format!("allocation larger than {} bytes requested", lim))) }
        Ok(n)
    }
    fn builtin(&mut self, s: &mut State, b: B, a: &[V]) -> R<Option<V>> {
        Ok(match b {
            B::Malloc | B::RustAlloc | B::RustAllocZ => {
                let n = self.alloc_checked(s, &a[0])?;
                let p = self.alloc(s, n as usize, true);
                s.count(n, 0);
                Some(V::C(p))
            }
            B::Calloc => {
                let k = self.conc(s, &a[0])?;
                let n = self.conc(s, &a[1])?;
                let n = self.alloc_checked(s, &V::C(k.saturating_mul(n)))?;
                let p = self.alloc(s, n as usize, true);
                s.count(n, 0);
                Some(V::C(p))
            }
            B::PosixMemalign => {
                let o = self.conc(s, &a[0])?;
                let n = self.alloc_checked(s, &a[2])?;
                let p = self.alloc(s, n as usize, true);
                s.count(n, 0);
                self.store_n(s, o, 64, &V::C(p))?;
                Some(V::C(0))
            }
            B::Free | B::RustDealloc => {
                let p = self.conc(s, &a[0])?;
                if p != 0 {
                    let id = (p >> 32) as u32;
                    if s.mem.get(id as usize).map_or(true, |x| x.is_none()) || p & 0xffff_ffff != 0 { return Err(End::Viol("invalid free".into())) }
                    let n = s.mem[id as usize].as_ref().unwrap().bytes.len() as u64;
                    s.count(0, n);
                    self.release(s, id);
                }
                None
            }
            B::Realloc | B::RustRealloc => {
                let p = self.conc(s, &a[0])?;
                let (n, old) = if b == B::Realloc { (self.alloc_checked(s, &a[1])?, None) } else { let o = self.conc(s, &a[1])?; (self.alloc_checked(s, &a[3])?, Some(o)) };
                let _ = old;
                let q = self.alloc(s, n as usize, true);
                if p != 0 {
                    let olen = self.obj(s, p, 0)?.bytes.len() as u64;
                    self.copy(s, q, p, olen.min(n))?;
                    self.release(s, (p >> 32) as u32);
                    s.count(n, olen);
                } else { s.count(n, 0) }
                Some(V::C(q))
            }
            B::Memcpy | B::Memmove => {
                let (d, sr, n) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?, self.conc(s, &a[2])?);
                self.copy(s, d, sr, n)?;
                Some(V::C(d))
            }
            B::Memset => {
                let (d, n) = (self.conc(s, &a[0])?, self.conc(s, &a[2])?);
                self.memset(s, d, &a[1], n)?;
                Some(V::C(d))
            }
            B::Memcmp | B::Bcmp => {
                let (x, y, n) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?, self.conc(s, &a[2])?);
                Some(self.memcmp(s, x, y, n, b == B::Bcmp)?)
            }
            B::Strlen => {
                let p = self.conc(s, &a[0])?;
                let mut i = 0;
                loop {
                    let v = self.byte(s, p + i)?;
                    let z = match v { V::C(x) => x == 0, V::X(e) => { let k = self.a.konst(0, 8); let q = self.a.bin(X::Eq, e, k); self.branch(s, q)? } _ => false };
                    if z { break }
                    i += 1;
                }
                Some(V::C(i))
            }
            B::Memchr | B::Memrchr => {
                let (p, n) = (self.conc(s, &a[0])?, self.conc(s, &a[2])?);
                let c = self.ex(&a[1], 32);
                let c = self.a.extract(c, 0, 8);
                let mut r = 0;
                for j in 0..n {
                    let i = if b == B::Memchr { j } else { n - 1 - j };
                    let v = self.byte(s, p + i)?;
                    let v = self.ex(&v, 8);
                    let q = self.a.bin(X::Eq, v, c);
                    if self.branch(s, q)? { r = p + i; break }
                }
                Some(V::C(r))
            }
            B::Errno => Some(V::C((self.errno_id as u64) << 32)),
            B::Ret0 => Some(V::C(0)),
            B::Nop => None,
            B::Abort => return Err(End::Viol("abort() called".into())),
            B::SymBytes => {
                let (p, n) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                let (np, nl) = (self.conc(s, &a[2])?, self.conc(s, &a[3])?);
                let name = self.cstring(s, np, nl)?;
                if s.nvars + n as usize > expr::OPAQUE { return Err(End::Err("too many symbolic bytes".into())) }
                let v0 = s.nvars;
                Rc::make_mut(&mut s.inputs).push((name, v0, n as usize));
                s.nvars += n as usize;
                if s.model.len() < s.nvars { let nv = s.nvars; Rc::make_mut(&mut s.model).resize(nv, 0); }
                for i in 0..n {
                    let e = self.a.var(v0 + i as usize, 8);
                    self.store_n(s, p + i, 8, &V::X(e))?;
                }
                None
            }
            B::SymAssume => {
                match &a[0] {
                    V::C(c) => if c & 1 == 0 { return Err(End::Cut) },
                    V::X(e) => {
                        let e = self.a.extract(*e, 0, 1);
                        if let Some(k) = self.a.is_const(e) { if k == 0 { return Err(End::Cut) } return Ok(None) }
                        self.touch(s, e)?;
                        if self.eval(s, e) != 1 {
                            match self.feasible(s, e)? { None => return Err(End::Cut), Some(m) => s.model = m }
                        }
                        self.add(s, e);
                    }
                    _ => return Err(End::Err("assume".into())),
                }
                None
            }
            B::SymCheck => {
                self.stats.checks += 1;
                let (np, nl) = (self.conc(s, &a[1])?, self.conc(s, &a[2])?);
                match &a[0] {
                    V::C(c) => if c & 1 == 0 { let m = self.cstring(s, np, nl)?; return Err(End::Viol(m)) },
                    V::X(e) => {
                        let e = self.a.extract(*e, 0, 1);
                        self.touch(s, e)?;
                        if s.replay.is_none() {
                            self.stats.checks_solver += 1;
                            let ne = self.a.not(e);
                            if let Some(m) = self.feasible(s, ne)? {
                                if s.snap.is_some() && !s.exact { return Err(End::Exact) }
                                let msg = self.cstring(s, np, nl)?;
                                self.violation(s, msg, &m, None);
                                if self.eval(s, e) != 1 {
                                    match self.feasible(s, e)? { None => return Err(End::Cut), Some(m) => s.model = m }
                                }
                            }
                        }
                        self.add(s, e);
                    }
                    _ => return Err(End::Err("check".into())),
                }
                None
            }
            B::SymCover => {
                let (np, nl) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                let n = self.cstring(s, np, nl)?;
                if !s.covers.contains(&n) { Rc::make_mut(&mut s.covers).insert(n); }
                None
            }
            B::SymFail => {
                let (np, nl) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                let n = self.cstring(s, np, nl)?;
                return Err(End::Viol(n));
            }
            B::SymLog => {
                let (np, nl, p, n) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?, self.conc(s, &a[2])?, self.conc(s, &a[3])?);
                let name = self.cstring(s, np, nl)?;
                let mut vs = Vec::new();
                for i in 0..n {
                    let b = self.byte(s, p + i)?;
                    if let V::X(e) = &b { self.touch(s, *e)?; }
                    vs.push(b);
                }
                Rc::make_mut(&mut s.log).push((name, vs));
                None
            }
            B::SymParam => {
                let (np, nl) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?);
                let n = self.cstring(s, np, nl)?;
                match self.sh.cfg.params.get(&n) { Some(v) => Some(V::C(*v)), None => return Err(End::Err(format!("parameter {} not given", n))) }
            }
            B::SymHeap => Some(V::C(if self.conc(s, &a[0])? & 1 != 0 { s.peak = s.live; s.live } else { s.peak })),
            B::SymConc => Some(V::C(self.conc(s, &a[0])?)),
            B::SymReject => return Err(End::Cut),
            B::SymEnd => return Err(End::Ok),
            B::SymIsSym => Some(V::C(1)),
            B::SymGuess => { // value under the current model (never used for soundness)
                Some(match &a[0] { V::X(e) => V::C(self.eval(s, *e) as u64), v => v.clone() })
            }
        })
    }
    fn memset(&mut self, s: &mut State, d: u64, v: &V, n: u64) -> R<()> {
        if n == 0 { return Ok(()) }
        match v {
            V::C(x) => {
                let o = self.obj_mut(s, d, n)?;
                let off = (d & 0xffff_ffff) as usize;
                for b in &mut o.bytes[off..off + n as usize] { *b = *x as u8; }
                if let Some(sy) = &mut o.sym { for e in &mut sy[off..off + n as usize] { *e = 0; } }
            }
            V::X(e) => {
                let b = self.a.extract(*e, 0, 8);
                for i in 0..n { self.store_n(s, d + i, 8, &V::X(b))?; }
            }
            _ => return Err(End::Err("memset".into())),
        }
        Ok(())
    }
    fn memcmp(&mut self, s: &mut State, x: u64, y: u64, n: u64, eq_only: bool) -> R<V> {
        if n == 0 { return Ok(V::C(0)) }
        self.obj(s, x, n)?;
        self.obj(s, y, n)?;
        let mut bs = Vec::with_capacity(n as usize);
        let mut all_c = true;
        for i in 0..n {
            let (p, q) = (self.byte(s, x + i)?, self.byte(s, y + i)?);
            match (&p, &q) {
                (V::C(a), V::C(b)) => {
                    if a != b {
                        if all_c { return Ok(V::C(if a < b { 0xffff_ffff } else { 1 })) }
                        if eq_only { return Ok(V::C(1)) }
                        bs.push((p, q));
                        break;
                    }
                }
                _ => { all_c = false; bs.push((p, q)); }
            }
        }
        if bs.is_empty() { return Ok(V::C(0)) }
        if eq_only {
            let mut c = self.a.konst(1, 1);
            for (p, q) in &bs {
                let (p, q) = (self.ex(p, 8), self.ex(q, 8));
                let r = self.a.bin(X::Eq, p, q);
                c = self.a.bin(X::And, c, r);
            }
            let nc = self.a.not(c);
            let r = self.a.zext(nc, 32);
            return Ok(self.val(r));
        }
        let mut r = self.a.konst(0, 32);
        let one = self.a.konst(1, 32);
        let neg = self.a.konst(0xffff_ffff, 32);
        for (p, q) in bs.iter().rev() {
            let (p, q) = (self.ex(p, 8), self.ex(q, 8));
            let eq = self.a.bin(X::Eq, p, q);
            let lt = self.a.bin(X::Ult, p, q);
            let d = self.a.ite(lt, neg, one);
            r = self.a.ite(eq, r, d);
        }
        Ok(self.val(r))
    }
    fn intrinsic(&mut self, s: &mut State, n: &str, args: &'static [(Ty, Opd)], a: &[V], ret: &Ty) -> R<Option<V>> {
        let n = &n[5..];
        let w = args.get(0).map_or(0, |x| x.0.bits());
        let base = n.split('.').next().unwrap();
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let (d, sr, l) = (self.conc(s, &a[0])?, self.conc(s, &a[1])?, self.conc(s, &a[2])?);
            self.copy(s, d, sr, l)?;
            return Ok(None);
        }
        if n.starts_with("memset") {
            let (d, l) = (self.conc(s, &a[0])?, self.conc(s, &a[2])?);
            self.memset(s, d, &a[1], l)?;
            return Ok(None);
        }
        if n.starts_with("threadlocal.address") { return Ok(Some(a[0].clone())) }
        if n.starts_with("is.constant") { return Ok(Some(V::C(0))) }
        if n.starts_with("expect") { return Ok(Some(a[0].clone())) }
        if n.starts_with("trap") || n.starts_with("ubsantrap") { return Err(End::Viol("trap".into())) }
        if n.starts_with("ptrmask") { return self.bin(Bin::And, 64, &a[0], &a[1]).map(Some) }
        if n.contains(".with.overflow") {
            let p: Vec<&str> = n.split('.').collect();
            let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
            let (op, signed) = match p[0] { "uadd" => (X::Add, false), "usub" => (X::Sub, false), "umul" => (X::Mul, false),
                "sadd" => (X::Add, true), "ssub" => (X::Sub, true), "smul" => (X::Mul, true), o => return Err(End::Err(o.into())) };
            let r = self.a.bin(op, x, y);
            let ov = if !signed {
                match op {
                    X::Add => self.a.bin(X::Ult, r, x),
                    X::Sub => self.a.bin(X::Ult, x, y),
                    _ => {
                        let k = self.a.is_const(y).or(self.a.is_const(x));
                        match k {
                            Some(0) => self.a.konst(0, 1),
                            Some(k) => { let o = if self.a.is_const(y).is_some() { x } else { y }; let lim = self.a.konst(mask(w as u8) / k, w as u8); self.a.bin(X::Ult, lim, o) }
                            None => {
                                let ww = (2 * w) as u8;
                                let (xx, yy) = (self.a.zext(x, ww), self.a.zext(y, ww));
                                let p = self.a.bin(X::Mul, xx, yy);
                                let h = self.a.extract(p, w as u8, w as u8);
                                let z = self.a.konst(0, w as u8);
                                let q = self.a.bin(X::Eq, h, z);
                                self.a.not(q)
                            }
                        }
                    }
                }
            } else {
                let ww = if op == X::Mul { 2 * w } else { w + 1 } as u8;
                let (xx, yy) = (self.a.sext(x, ww), self.a.sext(y, ww));
                let p = self.a.bin(op, xx, yy);
                let rr = self.a.sext(r, ww);
                let q = self.a.bin(X::Eq, p, rr);
                self.a.not(q)
            };
            return Ok(Some(V::Agg(Rc::new(vec![self.val(r), self.val(ov)]))));
        }
        if n.starts_with("fptoui.sat") || n.starts_with("fptosi.sat") {
            let x = self.conc(s, &a[0])?;
            let f = if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
            let rw = ret.bits();
            let m = mask(rw as u8) as u64;
            return Ok(Some(V::C(if base == "fptoui" { (f as u64).min(m) } else {
                let lim = (m >> 1) as i64;
                ((f as i64).max(-lim - 1).min(lim)) as u64 & m
            })));
        }
        if matches!(base, "ceil" | "floor" | "round" | "roundeven" | "rint" | "nearbyint" | "trunc" | "sqrt" | "fabs" | "log2" | "log10" | "log" | "exp2" | "exp" | "pow" | "powi" | "minnum" | "maxnum" | "copysign") {
            let d = |x: u64| if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
            let xb = self.conc(s, &a[0])?;
            let x = d(xb);
            let mut y = 0.0;
            let mut yb = 0;
            if a.len() > 1 { yb = self.conc(s, &a[1])?; y = d(yb); }
            let r = match base {
                "ceil" => x.ceil(), "floor" => x.floor(), "round" => x.round(), "trunc" => x.trunc(), "sqrt" => x.sqrt(), "fabs" => x.abs(),
                "log2" => x.log2(), "log10" => x.log10(), "log" => x.ln(), "exp2" => x.exp2(), "exp" => x.exp(), "pow" => x.powf(y),
                "powi" => x.powi(yb as i32), "minnum" => x.min(y), "maxnum" => x.max(y), "copysign" => x.copysign(y), _ => x.round_ties_even(),
            };
            return Ok(Some(V::C(if w == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() })));
        }
        if n.contains(".sat.") {
            let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
            let p: Vec<&str> = n.split('.').collect();
            let r = match p[0] {
                "uadd" => { let r = self.a.bin(X::Add, x, y); let c = self.a.bin(X::Ult, r, x); let m = self.a.konst(mask(w as u8), w as u8); self.a.ite(c, m, r) }
                "usub" => { let r = self.a.bin(X::Sub, x, y); let c = self.a.bin(X::Ult, x, y); let z = self.a.konst(0, w as u8); self.a.ite(c, z, r) }
                o => return Err(End::Err(format!("intrinsic {}.sat", o))),
            };
            return Ok(Some(self.val(r)));
        }
        let sel = |me: &mut Self, c: E, x: E, y: E| { let r = me.a.ite(c, x, y); me.val(r) };
        match base {
            "umax" | "umin" | "smax" | "smin" => {
                if let (Ty::Vec(..), _) = (&args[0].0, 0) { return Err(End::Err("vector minmax".into())) }
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let lt = self.a.bin(if base.starts_with('u') { X::Ult } else { X::Slt }, x, y);
                Ok(Some(if base.ends_with("min") { sel(self, lt, x, y) } else { sel(self, lt, y, x) }))
            }
            "abs" => {
                let x = self.ex(&a[0], w);
                let z = self.a.konst(0, w as u8);
                let ng = self.a.bin(X::Sub, z, x);
                let c = self.a.bin(X::Slt, x, z);
                Ok(Some(sel(self, c, ng, x)))
            }
            "ucmp" | "scmp" => {
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let rw = ret.bits() as u8;
                let lt = self.a.bin(if base == "ucmp" { X::Ult } else { X::Slt }, x, y);
                let eq = self.a.bin(X::Eq, x, y);
                let (z, o, m) = (self.a.konst(0, rw), self.a.konst(1, rw), self.a.konst(mask(rw), rw));
                let t = self.a.ite(eq, z, o);
                Ok(Some(sel(self, lt, m, t)))
            }
            "fshl" | "fshr" => {
                let (x, y, k) = (self.ex(&a[0], w), self.ex(&a[1], w), self.ex(&a[2], w));
                let k = match self.a.is_const(k) { Some(k) => (k % w as u128) as u8, None => return Err(End::Err("symbolic funnel shift".into())) };
                let w8 = w as u8;
                let r = if k == 0 { if base == "fshl" { x } else { y } } else {
                    let c = self.a.konst(k as u128, w8);
                    let c2 = self.a.konst((w8 - k) as u128, w8);
                    let (h, l) = if base == "fshl" { (self.a.bin(X::Shl, x, c), self.a.bin(X::LShr, y, c2)) } else { (self.a.bin(X::Shl, x, c2), self.a.bin(X::LShr, y, c)) };
                    self.a.bin(X::Or, h, l)
                };
                Ok(Some(self.val(r)))
            }
            "bswap" => {
                let x = self.ex(&a[0], w);
                let nb = w / 8;
                let mut r = self.a.extract(x, 0, 8);
                for i in 1..nb { let b = self.a.extract(x, (i * 8) as u8, 8); r = self.a.concat(r, b); }
                Ok(Some(self.val(r)))
            }
            "bitreverse" => {
                let x = self.ex(&a[0], w);
                let mut r = self.a.extract(x, 0, 1);
                for i in 1..w { let b = self.a.extract(x, i as u8, 1); r = self.a.concat(r, b); }
                Ok(Some(self.val(r)))
            }
            "ctpop" | "ctlz" | "cttz" => {
                match &a[0] {
                    V::C(x) => Ok(Some(V::C(match base { "ctpop" => x.count_ones() as u64,
                        "ctlz" => (x.leading_zeros() - (64 - w)) as u64, _ => (x.trailing_zeros().min(w)) as u64 }))),
                    V::X(e) => {
                        let e = *e;
                        let w8 = w as u8;
                        if base == "ctpop" {
                            let mut r = self.a.konst(0, w8);
                            for i in 0..w { let b = self.a.extract(e, i as u8, 1); let b = self.a.zext(b, w8); r = self.a.bin(X::Add, r, b); }
                            return Ok(Some(self.val(r)));
                        }
                        let mut r = self.a.konst(w as u128, w8);
                        for j in (0..w).rev() {
                            let i = if base == "cttz" { j } else { w - 1 - j };
                            let b = self.a.extract(e, i as u8, 1);
                            let k = self.a.konst(j as u128, w8);
                            r = self.a.ite(b, k, r);
                        }
                        Ok(Some(self.val(r)))
                    }
                    _ => Err(End::Err("vector ctpop".into())),
                }
            }
            _ => Err(End::Err(format!("unsupported intrinsic llvm.{}", n))),
        }
    }
}

fn short(p: &str, n: &str) -> String { if p == n || p.is_empty() { n.to_string() } else { p.to_string() } }

fn insert(v: V, x: V, ix: &[u32]) -> R<V> {
    match v {
        V::Agg(mut vs) => {
            let m = Rc::make_mut(&mut vs);
            let i = ix[0] as usize;
            if ix.len() == 1 { m[i] = x; } else { let old = std::mem::replace(&mut m[i], V::C(0)); m[i] = insert(old, x, &ix[1..])?; }
            Ok(V::Agg(vs))
        }
        _ => Err(End::Err("insertvalue".into())),
    }
}

// ---------- serialisation between processes ----------
struct W(Vec<u8>);
impl W {
    fn u(&mut self, v: u64) { self.0.extend_from_slice(&v.to_le_bytes()) }
    fn b(&mut self, v: &[u8]) { self.u(v.len() as u64); self.0.extend_from_slice(v) }
    fn s(&mut self, v: &str) { self.b(v.as_bytes()) }
    fn kv(&mut self, v: &[(String, Vec<u8>)]) { self.u(v.len() as u64); for (k, x) in v { self.s(k); self.b(x); } }
    fn map(&mut self, m: &BTreeMap<String, u64>) { self.u(m.len() as u64); for (k, v) in m { self.s(k); self.u(*v); } }
}
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn u(&mut self) -> u64 { let (a, b) = self.0.split_at(8); self.0 = b; u64::from_le_bytes(a.try_into().unwrap()) }
    fn b(&mut self) -> Vec<u8> { let n = self.u() as usize; let (a, b) = self.0.split_at(n); self.0 = b; a.to_vec() }
    fn s(&mut self) -> String { String::from_utf8_lossy(&self.b()).into_owned() }
    fn kv(&mut self) -> Vec<(String, Vec<u8>)> { let n = self.u(); (0..n).map(|_| { let k = self.s(); let v = self.b(); (k, v) }).collect() }
    fn map(&mut self) -> BTreeMap<String, u64> { let n = self.u(); (0..n).map(|_| { let k = self.s(); let v = self.u(); (k, v) }).collect() }
}
pub fn ser_job(d: &[(u64, Dec)], m: &[u64]) -> Vec<u8> {
    let mut w = W(Vec::new());
    w.u(d.len() as u64);
    for (k, x) in d {
        w.u(*k);
        match x {
            Dec::Side(b) => w.u(*b as u64),
            Dec::Target(t) => { w.u(2); w.u(*t as u64) }
            Dec::Eq(v) => { w.u(3); w.u(*v) }
            Dec::Neq(v) => { w.u(4); w.u(*v) }
            Dec::Exact => w.u(5),
            Dec::SideR(b) => w.u(8 + *b as u64),
            Dec::Forced(b) => w.u(6 + *b as u64),
        }
    }
    w.b(&m.iter().map(|x| *x as u8).collect::<Vec<u8>>());
    w.0
}
fn de_job(b: &[u8]) -> Job {
    let mut r = Rd(b);
    let n = r.u();
    let decs = (0..n).map(|_| (r.u(), match r.u() { 0 => Dec::Side(false), 1 => Dec::Side(true), 2 => Dec::Target(r.u() as u32), 3 => Dec::Eq(r.u()), 4 => Dec::Neq(r.u()), 6 => Dec::Forced(false), 7 => Dec::Forced(true), 8 => Dec::SideR(false), 9 => Dec::SideR(true), _ => Dec::Exact })).collect();
    let model = r.b().into_iter().map(|x| x as u64).collect();
    Job { decs, model }
}
fn ser_results(r: &Results, seen: &[u32]) -> Vec<u8> {
    let mut w = W(Vec::new());
    for v in [r.paths, r.cut, r.branches, r.forks, r.queries, r.solver_queries, r.cache_hits, r.solver_nanos, r.max_query_ms, r.slow, r.checks,
        r.checks_solver, r.steps, r.max_path_steps, r.unknown, r.max_vars as u64, r.arena_restarts, r.pending, r.exact_redo, r.range_decided] { w.u(v) }
    w.map(&r.viol_counts);
    w.map(&r.covers);
    w.map(&r.errors);
    w.u(seen.len() as u64);
    for s in seen { w.u(*s as u64) }
    w.u(r.violations.len() as u64);
    for v in &r.violations { w.s(&v.msg); w.u(v.stack.len() as u64); for s in &v.stack { w.s(s) } w.kv(&v.inputs); w.kv(&v.log); }
    w.u(r.samples.len() as u64);
    for s in &r.samples { w.u(s.0); w.kv(&s.1); w.kv(&s.2); }
    w.0
}
pub fn merge_results(b: &[u8], t: &mut Results, cfg: &Cfg) {
    let mut r = Rd(b);
    t.paths += r.u(); t.cut += r.u(); t.branches += r.u(); t.forks += r.u(); t.queries += r.u(); t.solver_queries += r.u(); t.cache_hits += r.u();
    t.solver_nanos += r.u(); t.max_query_ms = t.max_query_ms.max(r.u()); t.slow += r.u(); t.checks += r.u(); t.checks_solver += r.u();
    t.steps += r.u(); t.max_path_steps = t.max_path_steps.max(r.u()); t.unknown += r.u(); t.max_vars = t.max_vars.max(r.u() as usize);
    t.arena_restarts += r.u(); t.pending += r.u(); t.exact_redo += r.u(); t.range_decided += r.u();
    for (k, v) in r.map() { *t.viol_counts.entry(k).or_insert(0) += v; }
    for (k, v) in r.map() { *t.covers.entry(k).or_insert(0) += v; }
    for (k, v) in r.map() { *t.errors.entry(k).or_insert(0) += v; }
    let n = r.u();
    for _ in 0..n { let f = r.u() as u32; t.funcs.insert(f); }
    let n = r.u();
    for _ in 0..n {
        let msg = r.s();
        let k = r.u();
        let stack = (0..k).map(|_| r.s()).collect();
        let inputs = r.kv();
        let log = r.kv();
        if t.violations.iter().filter(|v| v.msg == msg).count() < 3 { t.violations.push(Violation { msg, stack, inputs, log }); }
    }
    let n = r.u();
    for _ in 0..n { let h = r.u(); let i = r.kv(); let l = r.kv(); t.samples.push((h, i, l)); }
    t.samples.sort_by_key(|x| x.0);
    t.samples.truncate(cfg.nsamples);
}
