//! Minimal FFI to libz3 plus translation of arena expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;

#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_del_config(c: *mut c_void);
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: *mut c_void) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_mk_solver_for_logic(c: Ctx, s: *mut c_void) -> Solver;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> *mut c_void;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_reset(c: Ctx, s: Solver);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, a: Ast, compl: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_dec_ref(c: Ctx, a: Ast);
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, so: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, so: Sort) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
}

extern "C" fn on_err(_c: Ctx, e: c_int) { eprintln!("z3 error code {}", e); }

pub struct Z3 {
    c: Ctx,
    s: Solver,
    s2: Solver,
    memo: Vec<Ast>,
    one: Ast,
    zero: Ast,
    pub queries: u64,
    pub nanos: u64,
    pub slow: u64,
    pub max_ms: u64,
    since_reset: u32,
    mode: u32,
}

#[derive(Clone, Debug)]
pub enum Res { Unsat, Sat(Vec<(usize, u64)>), Unknown }

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            if timeout_ms > 0 { let k = CString::new("timeout").unwrap();
            let v = CString::new(timeout_ms.to_string()).unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr()); }
            let c = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let l = CString::new("QF_BV").unwrap();
            let s2 = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s2);
            let b1 = Z3_mk_bv_sort(c, 1);
            let one = Z3_mk_unsigned_int64(c, 1, b1);
            Z3_inc_ref(c, one);
            let zero = Z3_mk_unsigned_int64(c, 0, b1);
            Z3_inc_ref(c, zero);
            Z3 { c, s, s2, memo: Vec::new(), one, zero, queries: 0, nanos: 0, slow: 0, max_ms: 0, since_reset: 0, mode: std::env::var("SYMX_Z3MODE").ok().and_then(|x| x.parse().ok()).unwrap_or(0) }
        }
    }
    unsafe fn num(&self, v: u128, w: u8) -> Ast {
        if w <= 64 {
            Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w as c_uint))
        } else {
            let h = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, Z3_mk_bv_sort(self.c, w as c_uint - 64));
            Z3_inc_ref(self.c, h);
            let l = Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, 64));
            Z3_inc_ref(self.c, l);
            let r = Z3_mk_concat(self.c, h, l);
            r
        }
    }
    unsafe fn b2v(&self, b: Ast) -> Ast {
        Z3_inc_ref(self.c, b);
        let r = Z3_mk_ite(self.c, b, self.one, self.zero);
        r
    }
    unsafe fn table(&mut self, t: &[u64], w: u8, idx: Ast, iw: u8, base: u64, bit: i32) -> Ast {
        // binary decision over index bits
        let c = self.c;
        let size = 1u64 << (bit + 1);
        let get = |i: u64| t.get(i as usize).copied().unwrap_or(0);
        let v0 = get(base);
        if (0..size).all(|i| get(base + i) == v0) {
            let r = self.num(v0 as u128, w);
            Z3_inc_ref(c, r);
            return r;
        }
        let lo = self.table(t, w, idx, iw, base, bit - 1);
        let hi = self.table(t, w, idx, iw, base + (1 << bit), bit - 1);
        let b = Z3_mk_extract(c, bit as c_uint, bit as c_uint, idx);
        Z3_inc_ref(c, b);
        let e = Z3_mk_eq(c, b, self.one);
        Z3_inc_ref(c, e);
        let r = Z3_mk_ite(c, e, hi, lo);
        Z3_inc_ref(c, r);
        r
    }
    /// bv-sorted ast (1-bit conditions are bv1)
    unsafe fn tr(&mut self, a: &Arena, e: E) -> Ast {
        let i = e as usize;
        if self.memo.len() < a.nodes.len() { self.memo.resize(a.nodes.len(), std::ptr::null_mut()); }
        if !self.memo[i].is_null() { return self.memo[i] }
        let n = a.nodes[i];
        let c = self.c;
        let mut k = [std::ptr::null_mut(); 3];
        for (j, x) in a.kids(&n).iter().enumerate() { if let Some(x) = x { k[j] = self.tr(a, *x); } }
        let r = match n.op {
            Op::Const => self.num(n.k, n.w),
            Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, n.w as c_uint)),
            Op::Add => Z3_mk_bvadd(c, k[0], k[1]),
            Op::Sub => Z3_mk_bvsub(c, k[0], k[1]),
            Op::Mul => Z3_mk_bvmul(c, k[0], k[1]),
            Op::UDiv => Z3_mk_bvudiv(c, k[0], k[1]),
            Op::SDiv => Z3_mk_bvsdiv(c, k[0], k[1]),
            Op::URem => Z3_mk_bvurem(c, k[0], k[1]),
            Op::SRem => Z3_mk_bvsrem(c, k[0], k[1]),
            Op::Shl => Z3_mk_bvshl(c, k[0], k[1]),
            Op::LShr => Z3_mk_bvlshr(c, k[0], k[1]),
            Op::AShr => Z3_mk_bvashr(c, k[0], k[1]),
            Op::And => Z3_mk_bvand(c, k[0], k[1]),
            Op::Or => Z3_mk_bvor(c, k[0], k[1]),
            Op::Xor => Z3_mk_bvxor(c, k[0], k[1]),
            Op::Not => Z3_mk_bvnot(c, k[0]),
            Op::Eq => self.b2v(Z3_mk_eq(c, k[0], k[1])),
            Op::Ult => self.b2v(Z3_mk_bvult(c, k[0], k[1])),
            Op::Ule => self.b2v(Z3_mk_bvule(c, k[0], k[1])),
            Op::Slt => self.b2v(Z3_mk_bvslt(c, k[0], k[1])),
            Op::Sle => self.b2v(Z3_mk_bvsle(c, k[0], k[1])),
            Op::Concat => Z3_mk_concat(c, k[0], k[1]),
            Op::Extract => Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, k[0]),
            Op::ZExt => Z3_mk_zero_ext(c, (n.w - a.nodes[n.a as usize].w) as c_uint, k[0]),
            Op::SExt => Z3_mk_sign_ext(c, (n.w - a.nodes[n.a as usize].w) as c_uint, k[0]),
            Op::Ite => {
                let b = Z3_mk_eq(c, k[0], self.one);
                Z3_inc_ref(c, b);
                Z3_mk_ite(c, b, k[1], k[2])
            }
            Op::Table => {
                let t = a.tables[n.k as usize].clone();
                let iw = a.nodes[n.a as usize].w;
                let mut bits = 0;
                while (1usize << bits) < t.len() { bits += 1 }
                let bits = bits.min(iw as i32).max(1);
                self.table(&t, n.w, k[0], iw, 0, bits - 1)
            }
        };
        Z3_inc_ref(c, r);
        self.memo[i] = r;
        r
    }
    unsafe fn run(&mut self, s: Solver, asts: &[Ast], vars: &[(usize, Ast)]) -> Res {
        let c = self.c;
        Z3_solver_push(c, s);
        for x in asts { Z3_solver_assert(c, s, *x); }
        let r = Z3_solver_check(c, s);
        let res = match r {
            -1 => Res::Unsat,
            1 => {
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut out = Vec::with_capacity(vars.len());
                for (ix, v) in vars {
                    let mut o: Ast = std::ptr::null_mut();
                    let mut val = 0u64;
                    if Z3_model_eval(c, m, *v, true, &mut o) {
                        Z3_inc_ref(c, o);
                        Z3_get_numeral_uint64(c, o, &mut val);
                        Z3_dec_ref(c, o);
                    }
                    out.push((*ix, val));
                }
                Z3_model_dec_ref(c, m);
                Res::Sat(out)
            }
            _ => Res::Unknown,
        };
        Z3_solver_pop(c, s, 1);
        res
    }
    /// Check satisfiability of the conjunction of 1-bit expressions.
    pub fn check(&mut self, a: &mut Arena, cs: &[E], vars: &[usize]) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        let r = unsafe {
            let mut asts = Vec::new();
            for e in cs {
                let t = self.tr(a, *e);
                let q = Z3_mk_eq(self.c, t, self.one);
                Z3_inc_ref(self.c, q);
                asts.push(q);
            }
            let mut vs = Vec::new();
            for v in vars {
                let w = a.var_w[*v];
                let e = a.var(*v, w);
                let t = self.tr(a, e);
                vs.push((*v, t));
            }
            self.since_reset += 1;
            if self.since_reset > 2000 { Z3_solver_reset(self.c, self.s); Z3_solver_reset(self.c, self.s2); self.since_reset = 0; }
            let mut r = if self.mode == 0 { self.run(self.s2, &asts, &vs) } else { self.run(self.s, &asts, &vs) };
            if let Res::Unknown = r { self.slow += 1; r = if self.mode == 0 { self.run(self.s, &asts, &vs) } else { self.run(self.s2, &asts, &vs) }; }
            for q in asts { Z3_dec_ref(self.c, q); }
            r
        };
        let el = t0.elapsed();
        self.nanos += el.as_nanos() as u64;
        self.max_ms = self.max_ms.max(el.as_millis() as u64);
        r
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_solver_dec_ref(self.c, self.s2);
            let _ = Z3_mk_not;
            Z3_del_context(self.c);
        }
    }
}
