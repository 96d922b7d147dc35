//! Hash-consed bit-vector expressions with simplification and evaluation.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr,
    And, Or, Xor, Not, Eq, Ult, Ule, Slt, Sle, Concat, Extract, ZExt, SExt,
    Ite, Table,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    /// constant value, variable index, extract low bit, table id
    pub k: u128,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type VarSet = [u64; 4];
/// Variable indices from here on stand for opaque text; they share bit 255 of the variable sets.
pub const OPAQUE: usize = 1 << 16;
pub const OPAQUE_N: usize = 4096;

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vars: Vec<VarSet>,
    map: FxMap<Node, E>,
    pub tables: Vec<std::rc::Rc<Vec<u64>>>,
    table_map: FxMap<(Vec<u64>, u8), u32>,
    stamp: Vec<u32>,
    val: Vec<u128>,
    cur: u32,
    pub var_w: Vec<u8>,
    /// variables beyond the exact range of the variable sets exist
    pub big: bool,
}

pub fn mask(w: u8) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u8) -> i128 {
    if w >= 128 { return v as i128 }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn fold(op: Op, w: u8, aw: u8, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
        Op::Sle => (sext(a, aw) <= sext(b, aw)) as u128,
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: Vec::new(), vars: Vec::new(), map: Default::default(),
            tables: Vec::new(), table_map: Default::default(),
            stamp: Vec::new(), val: Vec::new(), cur: 0, var_w: Vec::new(), big: false,
        };
        a.konst(0, 1); // id 0: never used as a "symbolic" marker
        a
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let id = self.nodes.len() as E;
        let mut vs: VarSet = [0; 4];
        match n.op {
            Op::Const => {}
            Op::Var => { let i = if n.k as usize >= OPAQUE { 255 } else { (n.k as usize) % 255 }; vs[i / 64] |= 1 << (i % 64); }
            _ => {
                for x in self.kids(&n).into_iter().flatten() {
                    let s = &self.vars[x as usize];
                    for i in 0..4 { vs[i] |= s[i]; }
                }
            }
        }
        self.nodes.push(n);
        self.vars.push(vs);
        self.stamp.push(0);
        self.val.push(0);
        self.map.insert(n, id);
        id
    }
    pub fn kids(&self, n: &Node) -> [Option<E>; 3] {
        match n.op {
            Op::Const | Op::Var => [None; 3],
            Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::Table => [Some(n.a), None, None],
            Op::Ite => [Some(n.a), Some(n.b), Some(n.c)],
            _ => [Some(n.a), Some(n.b), None],
        }
    }
    pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    pub fn w(&self, e: E) -> u8 { self.nodes[e as usize].w }
    pub fn konst(&mut self, v: u128, w: u8) -> E {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    pub fn var(&mut self, idx: usize, w: u8) -> E {
        if self.var_w.len() <= idx { self.var_w.resize(idx + 1, 8); }
        self.var_w[idx] = w;
        if idx >= 255 && idx < OPAQUE { self.big = true; }
        self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: idx as u128 })
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        match n.op {
            Op::Const => self.konst(!n.k, n.w),
            Op::Not => n.a,
            // not(a<b) = b<=a
            Op::Ult => self.bin(Op::Ule, n.b, n.a),
            Op::Ule => self.bin(Op::Ult, n.b, n.a),
            Op::Slt => self.bin(Op::Sle, n.b, n.a),
            Op::Sle => self.bin(Op::Slt, n.b, n.a),
            _ => self.mk(Node { op: Op::Not, w: n.w, a, b: 0, c: 0, k: 0 }),
        }
    }
    /// An upper bound for the value of e (cheap)
    fn ubound(&self, e: E) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => n.k,
            Op::ZExt => self.ubound(n.a),
            Op::And => {
                let (x, y) = (self.ub1(n.a), self.ub1(n.b));
                x.min(y)
            }
            Op::LShr => match self.is_const(n.b) { Some(k) if k < 128 => self.ub1(n.a) >> k, _ => mask(n.w) },
            Op::Table => *self.tables[n.k as usize].iter().max().unwrap_or(&0) as u128,
            Op::Ite => self.ub1(n.b).max(self.ub1(n.c)),
            Op::Add => {
                let s = self.ub1(n.a).saturating_add(self.ub1(n.b));
                if s > mask(n.w) { mask(n.w) } else { s }
            }
            Op::URem => match self.is_const(n.b) { Some(k) if k > 0 => k - 1, _ => mask(n.w) },
            Op::UDiv => match self.is_const(n.b) { Some(k) if k > 0 => self.ub1(n.a) / k, _ => mask(n.w) },
            Op::Mul => match self.is_const(n.b) {
                Some(k) => { let u = self.ub1(n.a).saturating_mul(k); if u > mask(n.w) { mask(n.w) } else { u } }
                _ => mask(n.w) },
            _ => mask(n.w),
        }
    }
    fn ub1(&self, e: E) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => n.k,
            Op::ZExt => mask(self.w(n.a)).min(self.ub2(n.a)),
            Op::And | Op::LShr | Op::Table | Op::URem | Op::UDiv | Op::Mul | Op::Add | Op::Ite => self.ub2(e),
            _ => mask(n.w),
        }
    }
    fn ub2(&self, e: E) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => n.k,
            Op::ZExt => mask(self.w(n.a)),
            Op::Table => *self.tables[n.k as usize].iter().max().unwrap_or(&0) as u128,
            Op::And => match self.is_const(n.b) { Some(k) => k, None => mask(n.w) },
            Op::LShr => match self.is_const(n.b) { Some(k) if k < 128 => mask(n.w) >> k, _ => mask(n.w) },
            Op::URem => match self.is_const(n.b) { Some(k) if k > 0 => k - 1, _ => mask(n.w) },
            Op::UDiv => match self.is_const(n.b) { Some(k) if k > 0 => mask(n.w) / k, _ => mask(n.w) },
            Op::Mul => match (self.n(n.a).op, self.is_const(n.b)) {
                (Op::ZExt, Some(k)) => mask(self.w(self.n(n.a).a)).saturating_mul(k).min(mask(n.w)),
                _ => mask(n.w) },
            _ => mask(n.w),
        }
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        debug_assert!(na.w == nb.w, "width mismatch {:?} {:?} {:?}", op, na, nb);
        let aw = na.w;
        let is_cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let w = if is_cmp { 1 } else { aw };
        let ca = if na.op == Op::Const { Some(na.k) } else { None };
        let cb = if nb.op == Op::Const { Some(nb.k) } else { None };
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold(op, w, aw, x, y);
            return self.konst(v, w);
        }
        // canonical order for commutative ops: constant on the right
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            return self.bin0(op, w, b, a);
        }
        self.bin0(op, w, a, b)
    }
    fn bin0(&mut self, op: Op, w: u8, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let aw = na.w;
        let ca = self.is_const(a);
        let cb = self.is_const(b);
        let m = mask(aw);
        match op {
            Op::Add => {
                if cb == Some(0) { return a }
                if let Some(k) = cb {
                    if na.op == Op::Add { if let Some(k2) = self.is_const(na.b) {
                        let kk = self.konst(k.wrapping_add(k2), w);
                        return self.bin(Op::Add, na.a, kk);
                    } }
                }
                // (x - y) + y
                if na.op == Op::Sub && na.b == b { return na.a }
                if nb.op == Op::Sub && nb.b == a { return nb.a }
            }
            Op::Sub => {
                if cb == Some(0) { return a }
                if a == b { return self.konst(0, w) }
                if let Some(k) = cb { let kk = self.konst(k.wrapping_neg(), w); return self.bin(Op::Add, a, kk) }
                if na.op == Op::Add { if na.a == b { return na.b } if na.b == b { return na.a } }
            }
            Op::Mul => {
                if cb == Some(0) { return b }
                if cb == Some(1) { return a }
                if let Some(k) = cb {
                    if na.op == Op::Mul { if let Some(k2) = self.is_const(na.b) {
                        let kk = self.konst(k.wrapping_mul(k2), w);
                        return self.bin(Op::Mul, na.a, kk);
                    } }
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) { return a }
                if let Some(k) = cb { if k.is_power_of_two() {
                    let s = self.konst(k.trailing_zeros() as u128, w);
                    return self.bin(Op::LShr, a, s);
                }
                if k > 0 && self.ubound(a) < k { return self.konst(0, w) } }
            }
            Op::URem => {
                if cb == Some(1) { return self.konst(0, w) }
                if let Some(k) = cb { if k.is_power_of_two() {
                    let s = self.konst(k - 1, w);
                    return self.bin(Op::And, a, s);
                }
                if k > 0 && self.ubound(a) < k { return a } }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) { return a }
                if ca == Some(0) { return a }
                if let Some(k) = cb {
                    if k >= w as u128 && op != Op::AShr { return self.konst(0, w) }
                    let k = k as u8;
                    if op == Op::LShr {
                        // zext(extract(a, k..))
                        let x = self.extract(a, k, w - k);
                        return self.zext(x, w);
                    }
                    if op == Op::Shl {
                        let x = self.extract(a, 0, w - k);
                        let z = self.konst(0, k);
                        return self.concat(x, z);
                    }
                }
            }
            Op::And => {
                if cb == Some(0) { return b }
                if cb == Some(m) { return a }
                if a == b { return a }
                if let Some(k) = cb {
                    if na.op == Op::And { if let Some(k2) = self.is_const(na.b) {
                        let kk = self.konst(k & k2, w);
                        return self.bin(Op::And, na.a, kk);
                    } }
                    // low mask -> zext(extract)
                    if (k + 1).is_power_of_two() {
                        let n = (k + 1).trailing_zeros() as u8;
                        let x = self.extract(a, 0, n);
                        return self.zext(x, w);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let kk = self.konst(k, iw);
                        let x = self.bin(Op::And, na.a, kk);
                        return self.zext(x, w);
                    }
                    if na.op == Op::Concat {
                        let lw = self.w(na.b);
                        let kh = self.konst(k >> lw, w - lw);
                        let kl = self.konst(k, lw);
                        let h = self.bin(Op::And, na.a, kh);
                        let l = self.bin(Op::And, na.b, kl);
                        return self.concat(h, l);
                    }
                    // mask of high bits: concat(extract, 0)
                    let tz = k.trailing_zeros() as u8;
                    if tz > 0 && k == (m >> tz) << tz {
                        let h = self.extract(a, tz, w - tz);
                        let z = self.konst(0, tz);
                        return self.concat(h, z);
                    }
                }
                if w == 1 {
                    if na.op == Op::Not && na.a == b { return self.konst(0, 1) }
                    if nb.op == Op::Not && nb.a == a { return self.konst(0, 1) }
                }
            }
            Op::Or => {
                if cb == Some(0) { return a }
                if cb == Some(m) { return b }
                if a == b { return a }
                if w == 1 {
                    if na.op == Op::Not && na.a == b { return self.konst(1, 1) }
                    if nb.op == Op::Not && nb.a == a { return self.konst(1, 1) }
                }
                // or of disjoint pieces: zext/concat with zero parts
                if let Some(r) = self.or_disjoint(a, b, w) { return r }
                if let Some(r) = self.or_disjoint(b, a, w) { return r }
            }
            Op::Xor => {
                if cb == Some(0) { return a }
                if a == b { return self.konst(0, w) }
                if cb == Some(m) { return self.not(a) }
                if let Some(k) = cb {
                    if na.op == Op::Xor { if let Some(k2) = self.is_const(na.b) {
                        let kk = self.konst(k ^ k2, w);
                        return self.bin(Op::Xor, na.a, kk);
                    } }
                    if na.op == Op::ZExt && aw > 1 {
                        let iw = self.w(na.a);
                        if k <= mask(iw) {
                            let kk = self.konst(k, iw);
                            let x = self.bin(Op::Xor, na.a, kk);
                            return self.zext(x, w);
                        }
                    }
                }
            }
            Op::Eq => {
                if a == b { return self.konst(1, 1) }
                if aw == 1 {
                    match cb { Some(1) => return a, Some(0) => return self.not(a), _ => {} }
                }
                if let Some(k) = cb {
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) { return self.konst(0, 1) }
                            let kk = self.konst(k, iw);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let low = k & mask(iw);
                            if (sext(low, iw) as u128) & m != k { return self.konst(0, 1) }
                            let kk = self.konst(low, iw);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let kh = self.konst(k >> lw, aw - lw);
                            let kl = self.konst(k, lw);
                            let x = self.bin(Op::Eq, na.a, kh);
                            if self.is_const(x) == Some(0) { return x }
                            let y = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Add => if let Some(k2) = self.is_const(na.b) {
                            let kk = self.konst(k.wrapping_sub(k2), aw);
                            return self.bin(Op::Eq, na.a, kk);
                        },
                        Op::Xor => if let Some(k2) = self.is_const(na.b) {
                            let kk = self.konst(k ^ k2, aw);
                            return self.bin(Op::Eq, na.a, kk);
                        },
                        Op::Not => { let kk = self.konst(!k, aw); return self.bin(Op::Eq, na.a, kk); }
                        Op::Ite => {
                            // push eq into ite with const branches
                            let (tc, ec) = (self.is_const(na.b), self.is_const(na.c));
                            match (tc, ec) {
                                (Some(t), Some(e)) => {
                                    return if t == k && e == k { self.konst(1, 1) }
                                        else if t == k { na.a }
                                        else if e == k { self.not(na.a) }
                                        else { self.konst(0, 1) };
                                }
                                (Some(t), None) => {
                                    let r = self.bin(Op::Eq, na.c, b);
                                    return if t == k { self.bin(Op::Or, na.a, r) }
                                        else { let na_ = self.not(na.a); self.bin(Op::And, na_, r) };
                                }
                                (None, Some(e)) => {
                                    let r = self.bin(Op::Eq, na.b, b);
                                    return if e == k { let na_ = self.not(na.a); self.bin(Op::Or, na_, r) }
                                        else { self.bin(Op::And, na.a, r) };
                                }
                                _ => {}
                            }
                        }
                        Op::And => if let Some(k2) = self.is_const(na.b) {
                            if k & !k2 != 0 { return self.konst(0, 1) }
                        },
                        _ => {}
                    }
                    if self.ubound(a) < k { return self.konst(0, 1) }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                    let x = self.bin(Op::Eq, na.a, nb.a);
                    if self.is_const(x) == Some(0) { return x }
                    let y = self.bin(Op::Eq, na.b, nb.b);
                    return self.bin(Op::And, x, y);
                }
            }
            Op::Ult => {
                if a == b { return self.konst(0, 1) }
                if cb == Some(0) { return self.konst(0, 1) }
                if ca == Some(m) { return self.konst(0, 1) }
                if cb == Some(1) { let z = self.konst(0, aw); return self.bin(Op::Eq, a, z) }
                if let Some(k) = cb {
                    if self.ubound(a) < k { return self.konst(1, 1) }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let kk = self.konst(k, iw); // k <= ubound <= mask(iw)
                        return self.bin(Op::Ult, na.a, kk);
                    }
                }
                if let Some(k) = ca {
                    if self.ubound(b) <= k { return self.konst(0, 1) }
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        let kk = self.konst(k, iw);
                        return self.bin(Op::Ult, kk, nb.a);
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ult, na.a, nb.a);
                }
            }
            Op::Ule => {
                if a == b { return self.konst(1, 1) }
                if ca == Some(0) { return self.konst(1, 1) }
                if cb == Some(m) { return self.konst(1, 1) }
                if cb == Some(0) { return self.bin(Op::Eq, a, b) }
                if let Some(k) = cb {
                    let kk = self.konst(k + 1, aw);
                    return self.bin(Op::Ult, a, kk);
                }
                if let Some(k) = ca {
                    let kk = self.konst(k - 1, aw);
                    return self.bin(Op::Ult, kk, b);
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ule, na.a, nb.a);
                }
            }
            Op::Slt => {
                if a == b { return self.konst(0, 1) }
                let sb = aw - 1;
                if cb == Some(0) {
                    let x = self.extract(a, sb, 1);
                    return x;
                }
                // both known non-negative -> unsigned
                if aw > 1 && self.ubound(a) <= mask(sb) && self.ubound(b) <= mask(sb) {
                    return self.bin(Op::Ult, a, b);
                }
            }
            Op::Sle => {
                if a == b { return self.konst(1, 1) }
                let sb = aw - 1;
                if ca == Some(0) {
                    let x = self.extract(b, sb, 1);
                    return self.not(x);
                }
                if cb == Some(m) { // a <= -1  <=> a < 0
                    return self.extract(a, sb, 1);
                }
                if aw > 1 && self.ubound(a) <= mask(sb) && self.ubound(b) <= mask(sb) {
                    return self.bin(Op::Ule, a, b);
                }
                // normalise with constants to Slt
                if let Some(k) = cb { if k != mask(sb) {
                    let kk = self.konst(k.wrapping_add(1), aw);
                    return self.bin(Op::Slt, a, kk);
                } }
            }
            _ => {}
        }
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }
    fn or_disjoint(&mut self, a: E, b: E, w: u8) -> Option<E> {
        // a = concat(x, 0_k), b < 2^k  ->  concat(x, extract(b, 0, k))
        let na = self.n(a);
        if na.op == Op::Concat && self.is_const(na.b) == Some(0) {
            let k = self.w(na.b);
            if self.ubound(b) <= mask(k) {
                let l = self.extract(b, 0, k);
                return Some(self.concat(na.a, l));
            }
            // split both at k
            let nb = self.n(b);
            if nb.op == Op::Concat || nb.op == Op::ZExt || nb.op == Op::Const {
                let bl = self.extract(b, 0, k);
                let bh = self.extract(b, k, w - k);
                if self.is_const(bh) == Some(0) { return Some(self.concat(na.a, bl)) }
                let h = self.bin(Op::Or, na.a, bh);
                return Some(self.concat(h, bl));
            }
        }
        // zext over concat: a = zext(concat(x,0_k))
        if na.op == Op::ZExt {
            let iw = self.w(na.a);
            if self.ubound(b) <= mask(iw) {
                let bl = self.extract(b, 0, iw);
                let r = self.bin(Op::Or, na.a, bl);
                return Some(self.zext(r, w));
            }
        }
        None
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w + nl.w;
        if let (Some(x), Some(y)) = (self.is_const(hi), self.is_const(lo)) {
            return self.konst((x << nl.w) | y, w);
        }
        if nh.op == Op::Const && nh.k == 0 { return self.zext(lo, w) }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a
            && nh.k == nl.k + nl.w as u128 {
            return self.extract(nh.a, nl.k as u8, w);
        }
        // concat(extract(x, k..top), concat... ) handled by right association
        if nh.op == Op::Extract && nl.op != Op::Extract && nh.a == lo && nh.k == nl.w as u128 {
            return self.extract(lo, 0, w);
        }
        // low part of the same value in a simplified form
        if nh.op == Op::Extract && nh.k >= nl.w as u128 && nl.op != Op::Concat && nl.op != Op::Extract {
            let k = nh.k as u8 - nl.w;
            if self.extract(nh.a, k, nl.w) == lo { return self.extract(nh.a, k, w) }
        }
        // x's low part: extract(x,8,..) ++ (x truncated as same var) when lo == extract(x,0,n) simplified to x? covered above
        if nl.op == Op::Concat {
            // (hi ++ a) ++ b when hi,a merge
            let m = { let na = self.n(nl.a);
                (nh.op == Op::Extract && na.op == Op::Extract && nh.a == na.a && nh.k == na.k + na.w as u128)
                || (nh.op == Op::Const && na.op == Op::Const)
                || (nh.op == Op::Extract && nh.k >= na.w as u128 && self.extract(nh.a, nh.k as u8 - na.w, na.w) == nl.a) };
            if m {
                let x = self.concat(hi, nl.a);
                return self.concat(x, nl.b);
            }
        }
        if nh.op == Op::Concat {
            // associate to the right: (a ++ b) ++ c -> a ++ (b ++ c)
            let x = self.concat(nh.b, lo);
            return self.concat(nh.a, x);
        }
        if nh.op == Op::ZExt {
            let iw = self.w(nh.a);
            let x = self.concat(nh.a, lo);
            debug_assert!(iw + nl.w < w);
            return self.zext(x, w);
        }
        self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u8, n: u8) -> E {
        let na = self.n(a);
        debug_assert!(lo + n <= na.w && n > 0);
        if lo == 0 && n == na.w { return a }
        match na.op {
            Op::Const => return self.konst(na.k >> lo, n),
            Op::Extract => return self.extract(na.a, lo + na.k as u8, n),
            Op::ZExt => {
                let iw = self.w(na.a);
                if lo >= iw { return self.konst(0, n) }
                if lo + n <= iw { return self.extract(na.a, lo, n) }
                let x = self.extract(na.a, lo, iw - lo);
                return self.zext(x, n);
            }
            Op::SExt => {
                let iw = self.w(na.a);
                if lo + n <= iw { return self.extract(na.a, lo, n) }
                if lo < iw { let x = self.extract(na.a, lo, iw - lo); return self.sext(x, n) }
                let x = self.extract(na.a, iw - 1, 1);
                return self.sext(x, n);
            }
            Op::Concat => {
                let lw = self.w(na.b);
                if lo + n <= lw { return self.extract(na.b, lo, n) }
                if lo >= lw { return self.extract(na.a, lo - lw, n) }
                let l = self.extract(na.b, lo, lw - lo);
                let h = self.extract(na.a, 0, n - (lw - lo));
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(na.a, lo, n);
                let y = self.extract(na.b, lo, n);
                return self.bin(na.op, x, y);
            }
            Op::Not if na.w > 1 => {
                let x = self.extract(na.a, lo, n);
                return self.not(x);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(na.a, 0, n);
                let y = self.extract(na.b, 0, n);
                return self.bin(na.op, x, y);
            }
            Op::Ite => {
                if self.is_const(na.b).is_some() || self.is_const(na.c).is_some() || n <= 8 {
                    let x = self.extract(na.b, lo, n);
                    let y = self.extract(na.c, lo, n);
                    return self.ite(na.a, x, y);
                }
            }
            Op::Table => {
                let t: Vec<u64> = self.tables[na.k as usize].iter()
                    .map(|v| (((*v as u128) >> lo) & mask(n)) as u64).collect();
                return self.table(t, na.a, n);
            }
            _ => {}
        }
        if self.ubound(a) < (1u128 << lo) { return self.konst(0, n) }
        self.mk(Node { op: Op::Extract, w: n, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let na = self.n(a);
        if na.w == w { return a }
        debug_assert!(na.w < w);
        match na.op {
            Op::Const => return self.konst(na.k, w),
            Op::ZExt => return self.zext(na.a, w),
            _ => {}
        }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let na = self.n(a);
        if na.w == w { return a }
        match na.op {
            Op::Const => return self.konst(sext(na.k, na.w) as u128, w),
            Op::SExt => return self.sext(na.a, w),
            Op::ZExt => return self.zext(na.a, w),
            _ => {}
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, t: E, e: E) -> E {
        if let Some(k) = self.is_const(c) { return if k == 1 { t } else { e } }
        if t == e { return t }
        let nc = self.n(c);
        if nc.op == Op::Not { return self.ite(nc.a, e, t) }
        let w = self.w(t);
        if w == 1 {
            match (self.is_const(t), self.is_const(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, e),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, e) }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, t) }
                _ => {}
            }
        }
        let ne = self.n(e);
        if ne.op == Op::Ite && ne.b == t {
            let d = self.bin(Op::Or, c, ne.a);
            return self.ite(d, t, ne.c);
        }
        let nt = self.n(t);
        if nt.op == Op::ZExt && ne.op == Op::ZExt && self.w(nt.a) == self.w(ne.a) {
            let x = self.ite(c, nt.a, ne.a);
            return self.zext(x, w);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: t, c: e, k: 0 })
    }
    /// Lookup in a constant table; index values beyond the table read as 0
    /// (callers constrain the index first).
    pub fn table(&mut self, t: Vec<u64>, idx: E, w: u8) -> E {
        if let Some(k) = self.is_const(idx) {
            let v = t.get(k as usize).copied().unwrap_or(0);
            return self.konst(v as u128, w);
        }
        if t.iter().all(|x| *x == t[0]) { return self.konst(t[0] as u128, w) }
        let key = (t, w);
        let id = match self.table_map.get(&key) {
            Some(i) => *i,
            None => {
                let i = self.tables.len() as u32;
                self.tables.push(std::rc::Rc::new(key.0.clone()));
                self.table_map.insert(key, i);
                i
            }
        };
        self.mk(Node { op: Op::Table, w, a: idx, b: 0, c: 0, k: id as u128 })
    }
    pub fn show(&self, e: E) -> String { let mut b = 400; self.show1(e, &mut b) }
    fn show1(&self, e: E, b: &mut i32) -> String {
        *b -= 1;
        if *b < 0 { return "..".into() }
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            Op::Extract => format!("{}[{}+{}]", self.show1(n.a, b), n.k, n.w),
            _ => {
                let k: Vec<String> = self.kids(&n).iter().flatten().map(|k| self.show1(*k, b)).collect();
                format!("{:?}{}({})", n.op, n.w, k.join(", "))
            }
        }
    }
    pub fn eval_begin(&mut self) {
        self.cur = self.cur.wrapping_add(1);
        if self.cur == 0 {
            for s in self.stamp.iter_mut() { *s = 0; }
            self.cur = 1;
        }
    }
    /// Evaluate under a model (variables not in it are 0). Call eval_begin first.
    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        let i = e as usize;
        if self.stamp[i] == self.cur { return self.val[i] }
        let n = self.nodes[i];
        let v = match n.op {
            Op::Const => n.k,
            Op::Var => model.get(n.k as usize).copied().unwrap_or(0) as u128 & mask(n.w),
            Op::Not => !self.eval(n.a, model) & mask(n.w),
            Op::Concat => {
                let lw = self.w(n.b);
                (self.eval(n.a, model) << lw) | self.eval(n.b, model)
            }
            Op::Extract => (self.eval(n.a, model) >> n.k) & mask(n.w),
            Op::ZExt => self.eval(n.a, model),
            Op::SExt => { let aw = self.w(n.a); (sext(self.eval(n.a, model), aw) as u128) & mask(n.w) }
            Op::Ite => if self.eval(n.a, model) == 1 { self.eval(n.b, model) } else { self.eval(n.c, model) },
            Op::Table => {
                let x = self.eval(n.a, model) as usize;
                self.tables[n.k as usize].get(x).copied().unwrap_or(0) as u128
            }
            _ => {
                let a = self.eval(n.a, model);
                let b = self.eval(n.b, model);
                let aw = self.w(n.a);
                fold(n.op, n.w, aw, a, b)
            }
        };
        self.stamp[i] = self.cur;
        self.val[i] = v;
        v
    }
}

pub fn vs_overlap(a: &VarSet, b: &VarSet) -> bool {
    (0..4).any(|i| a[i] & b[i] != 0)
}
