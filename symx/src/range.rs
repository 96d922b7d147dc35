//! Unsigned interval analysis of an expression under per-byte domains (a cheap unsatisfiability test
//! before the solver is asked).
use crate::expr::{fold, mask, sext, Arena, FxMap, Op, E};

pub type Dom = [u64; 4];

/// The integer sum of one function per byte variable: exact when nothing wraps.
#[derive(Clone, Default)]
pub struct Sep { k: i128, v: std::collections::BTreeMap<u32, std::rc::Rc<[i128; 256]>> }

pub struct Ranges<'a> {
    pub a: &'a mut Arena,
    pub doms: &'a FxMap<u32, Dom>,
    pub memo: FxMap<E, (u128, u128)>,
    pub seps: FxMap<E, Option<std::rc::Rc<Sep>>>,
    pub single: &'a mut FxMap<(E, Dom), (u128, u128)>,
}

/// The only variable of `e`, if it has exactly one and that is a byte.
pub fn single_var(a: &Arena, e: E) -> Option<u32> {
    let v = &a.vars[e as usize];
    let n: u32 = v.iter().map(|x| x.count_ones()).sum();
    if n != 1 || a.big { return None }
    let i = (0..4).find(|i| v[*i] != 0).unwrap();
    let k = i as u32 * 64 + v[i].trailing_zeros();
    if k < 255 && a.var_w.get(k as usize) == Some(&8) { Some(k) } else { None }
}
pub fn domain(a: &mut Arena, e: E, var: u32) -> Dom {
    let mut d = [0u64; 4];
    let mut m = vec![0u64; var as usize + 1];
    for x in 0..256usize {
        m[var as usize] = x as u64;
        a.eval_begin();
        if a.eval(e, &m) == 1 { d[x / 64] |= 1 << (x % 64); }
    }
    d
}

impl<'a> Ranges<'a> {
    pub fn get(&mut self, e: E) -> (u128, u128) {
        let n = self.a.nodes[e as usize];
        if n.op == Op::Const { return (n.k, n.k) }
        if let Some(r) = self.memo.get(&e) { return *r }
        let r = self.get1(e);
        self.memo.insert(e, r);
        r
    }
    fn get1(&mut self, e: E) -> (u128, u128) {
        let n = self.a.nodes[e as usize];
        let m = mask(n.w);
        let full = (0, m);
        if let Some(v) = single_var(self.a, e) {
            let d = self.doms.get(&v).copied().unwrap_or([!0; 4]);
            if let Some(r) = self.single.get(&(e, d)) { return *r }
            let (mut lo, mut hi) = (u128::MAX, 0);
            let mut md = vec![0u64; v as usize + 1];
            for x in 0..256usize {
                if d[x / 64] >> (x % 64) & 1 == 0 { continue }
                md[v as usize] = x as u64;
                self.a.eval_begin();
                let r = self.a.eval(e, &md);
                lo = lo.min(r);
                hi = hi.max(r);
            }
            let r = if lo > hi { full } else { (lo, hi) };
            self.single.insert((e, d), r);
            return r;
        }
        match n.op {
            Op::Const => (n.k, n.k),
            Op::Var => full,
            Op::Not => { let a = self.get(n.a); (m - a.1, m - a.0) }
            Op::ZExt => self.get(n.a),
            Op::SExt => {
                let aw = self.a.w(n.a);
                let a = self.get(n.a);
                let half = 1u128 << (aw - 1);
                if a.1 < half || a.0 >= half { ((sext(a.0, aw) as u128) & m, (sext(a.1, aw) as u128) & m) } else { full }
            }
            Op::Extract => { let a = self.get(n.a); let (x, y) = (a.0 >> n.k, a.1 >> n.k); if y <= m { (x, y) } else { full } }
            Op::Concat => {
                let lw = self.a.w(n.b);
                let (a, b) = (self.get(n.a), self.get(n.b));
                (a.0 << lw | b.0, a.1 << lw | b.1)
            }
            Op::Ite => {
                let c = self.get(n.a);
                if c == (1, 1) { return self.get(n.b) }
                if c == (0, 0) { return self.get(n.c) }
                let (a, b) = (self.get(n.b), self.get(n.c));
                let cn = self.a.nodes[n.a as usize];
                if matches!(cn.op, Op::Ult | Op::Ule) {
                    if cn.a == n.b && cn.b == n.c { return (a.0.min(b.0), a.1.min(b.1)) }
                    if cn.a == n.c && cn.b == n.b { return (a.0.max(b.0), a.1.max(b.1)) }
                }
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::Table => {
                let a = self.get(n.a);
                let t = self.a.tables[n.k as usize].clone();
                if a.1 >= t.len() as u128 { return (0, t.iter().copied().max().unwrap_or(0) as u128) }
                let s = &t[a.0 as usize..=a.1 as usize];
                (*s.iter().min().unwrap() as u128, *s.iter().max().unwrap() as u128)
            }
            _ => {
                let aw = self.a.w(n.a);
                let (a, b) = (self.get(n.a), self.get(n.b));
                if a.0 == a.1 && b.0 == b.1 { let r = fold(n.op, n.w, aw, a.0, b.0); return (r, r) }
                match n.op {
                    Op::Add => if let Some(h) = a.1.checked_add(b.1) { if h <= m { (a.0 + b.0, h) } else { full } } else { full },
                    Op::Sub => if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { full },
                    Op::Mul => match a.1.checked_mul(b.1) { Some(h) if h <= m => (a.0 * b.0, h), _ => full },
                    Op::UDiv => if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { full },
                    Op::URem => if b.0 > 0 { (0, a.1.min(b.1 - 1)) } else { full },
                    Op::And => (0, a.1.min(b.1)),
                    Op::Or | Op::Xor => {
                        let bits = 128 - (a.1 | b.1).leading_zeros();
                        let h = if bits >= 128 { !0 } else { (1u128 << bits) - 1 };
                        (if n.op == Op::Or { a.0.max(b.0) } else { 0 }, h.min(m))
                    }
                    Op::Shl => if b.0 == b.1 && b.0 < 128 && a.1.leading_zeros() as u128 >= b.0 && a.1 << b.0 <= m { (a.0 << b.0, a.1 << b.0) } else { full },
                    Op::LShr => if b.0 == b.1 && b.0 < n.w as u128 { (a.0 >> b.0, a.1 >> b.0) } else { (0, a.1) },
                    Op::Eq => if a.1 < b.0 || b.1 < a.0 { (0, 0) } else {
                        match self.diff(n.a, n.b) { Some((0, 0)) => (1, 1), Some((l, h)) if l > 0 || h < 0 => (0, 0), _ => (0, 1) }
                    },
                    Op::Ult => if a.1 < b.0 { (1, 1) } else if a.0 >= b.1 { (0, 0) } else {
                        match self.diff(n.a, n.b) { Some((_, h)) if h < 0 => (1, 1), Some((l, _)) if l >= 0 => (0, 0), _ => (0, 1) }
                    },
                    Op::Ule => if a.1 <= b.0 { (1, 1) } else if a.0 > b.1 { (0, 0) } else {
                        match self.diff(n.a, n.b) { Some((_, h)) if h <= 0 => (1, 1), Some((l, _)) if l > 0 => (0, 0), _ => (0, 1) }
                    },
                    Op::Slt | Op::Sle => {
                        let half = 1u128 << (aw - 1);
                        if a.1 < half && b.1 < half {
                            if n.op == Op::Slt { if a.1 < b.0 { (1, 1) } else if a.0 >= b.1 { (0, 0) } else { (0, 1) } }
                            else if a.1 <= b.0 { (1, 1) } else if a.0 > b.1 { (0, 0) } else { (0, 1) }
                        } else { (0, 1) }
                    }
                    _ => full,
                }
            }
        }
    }

    /// Exact range of a - b over the domains, when both are separable.
    fn diff(&mut self, a: E, b: E) -> Option<(i128, i128)> {
        let x = self.sep(a)?;
        let y = self.sep(b)?;
        let (mut lo, mut hi) = (x.k.checked_sub(y.k)?, x.k.checked_sub(y.k)?);
        let mut vars: Vec<u32> = x.v.keys().chain(y.v.keys()).copied().collect();
        vars.sort_unstable();
        vars.dedup();
        for v in vars {
            let d = self.doms.get(&v).copied().unwrap_or([!0; 4]);
            let (mut l, mut h) = (i128::MAX, i128::MIN);
            for i in 0..256usize {
                if d[i / 64] >> (i % 64) & 1 == 0 { continue }
                let t = x.v.get(&v).map_or(0, |f| f[i]).checked_sub(y.v.get(&v).map_or(0, |f| f[i]))?;
                l = l.min(t);
                h = h.max(t);
            }
            if l > h { return None }
            lo = lo.checked_add(l)?;
            hi = hi.checked_add(h)?;
        }
        Some((lo, hi))
    }
    fn sep(&mut self, e: E) -> Option<std::rc::Rc<Sep>> {
        if let Some(r) = self.seps.get(&e) { return r.clone() }
        let r = self.sep1(e).map(std::rc::Rc::new);
        self.seps.insert(e, r.clone());
        r
    }
    fn sep1(&mut self, e: E) -> Option<Sep> {
        let n = self.a.nodes[e as usize];
        if n.w > 64 { return None }
        if n.op == Op::Const { return Some(Sep { k: n.k as i128, v: Default::default() }) }
        if let Some(v) = single_var(self.a, e) {
            let mut t = [0i128; 256];
            let mut md = vec![0u64; v as usize + 1];
            for i in 0..256usize {
                md[v as usize] = i as u64;
                self.a.eval_begin();
                t[i] = self.a.eval(e, &md) as i128;
            }
            let mut s = Sep::default();
            s.v.insert(v, std::rc::Rc::new(t));
            return Some(s);
        }
        let m = mask(n.w);
        match n.op {
            Op::ZExt => self.sep(n.a).map(|x| (*x).clone()),
            Op::Extract => { let a = self.get(n.a); if n.k == 0 && a.1 <= m { self.sep(n.a).map(|x| (*x).clone()) } else { None } }
            Op::Ite => match self.get(n.a) { (1, 1) => self.sep(n.b).map(|x| (*x).clone()), (0, 0) => self.sep(n.c).map(|x| (*x).clone()), _ => None },
            Op::Concat => {
                let lw = self.a.w(n.b);
                let (a, b) = (self.sep(n.a)?, self.sep(n.b)?);
                scale(&a, 1i128.checked_shl(lw as u32)?).and_then(|a| plus(&a, &b, 1))
            }
            Op::Add => {
                let (a, b) = (self.get(n.a), self.get(n.b));
                let wrap = if a.1.checked_add(b.1)? <= m { 0 } else if a.0 + b.0 > m { m as i128 + 1 } else { return None };
                let mut r = plus(&*self.sep(n.a)?, &*self.sep(n.b)?, 1)?;
                r.k -= wrap;
                Some(r)
            }
            Op::Sub => {
                let (a, b) = (self.get(n.a), self.get(n.b));
                if a.0 < b.1 { return None }
                plus(&*self.sep(n.a)?, &*self.sep(n.b)?, -1)
            }
            Op::Mul => {
                let (a, b) = (self.get(n.a), self.get(n.b));
                if a.1.checked_mul(b.1)? > m { return None }
                if b.0 == b.1 { scale(&*self.sep(n.a)?, b.0 as i128) } else if a.0 == a.1 { scale(&*self.sep(n.b)?, a.0 as i128) } else { None }
            }
            Op::Shl => {
                let (a, b) = (self.get(n.a), self.get(n.b));
                if b.0 != b.1 || b.0 >= 64 || a.1 >> 64 != 0 || a.1 << b.0 > m { return None }
                scale(&*self.sep(n.a)?, 1i128 << b.0)
            }
            _ => None,
        }
    }
}
fn scale(a: &Sep, k: i128) -> Option<Sep> {
    let mut r = Sep { k: a.k.checked_mul(k)?, v: Default::default() };
    for (v, f) in &a.v {
        let mut t = [0i128; 256];
        for i in 0..256 { t[i] = f[i].checked_mul(k)?; }
        r.v.insert(*v, std::rc::Rc::new(t));
    }
    Some(r)
}
fn plus(a: &Sep, b: &Sep, s: i128) -> Option<Sep> {
    let mut r = a.clone();
    r.k = r.k.checked_add(b.k * s)?;
    for (v, f) in &b.v {
        let mut t = r.v.get(v).map(|x| **x).unwrap_or([0; 256]);
        for i in 0..256 { t[i] = t[i].checked_add(f[i] * s)?; }
        r.v.insert(*v, std::rc::Rc::new(t));
    }
    Some(r)
}
