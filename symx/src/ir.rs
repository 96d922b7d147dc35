//! Parser for textual LLVM IR (the subset rustc emits), decoded lazily per function.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(Arc<Ty>, u64),
    Vec(Arc<Ty>, u64),
    Struct(Arc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(t, _) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let s = ((*w as u64) + 7) / 8; let a = self.align(); (s + a - 1) / a * a }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(t, n) => t.size() * n,
            Ty::Vec(t, n) => match **t { Ty::Int(w) => (w as u64 * n + 7) / 8, _ => t.size() * n },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    o += t.size();
                }
                if !*packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !*packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if j == i { return o }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(t, _) | Ty::Vec(t, _) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Arr(t, _) | Ty::Vec(t, _) => t,
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn nelem(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(_, n) | Ty::Vec(_, n) => *n as usize,
            _ => panic!("nelem"),
        }
    }
    /// width in bits of a scalar
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(w) => *w, _ => 0 }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    K(u64),
    Big(u128, u32),
    Agg(Arc<Vec<Opd>>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Nop, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc, Bitcast }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Reg(Opd), Intr(Arc<str>), Asm }

#[derive(Clone, Debug)]
pub enum Op {
    Bin(Bin, u32, u32, Opd, Opd),             // op, width, lanes(0 scalar)
    FBin(u8, u32, Opd, Opd),
    FCmp(Arc<str>, u32, Opd, Opd),
    ICmp(Pred, u32, u32, Opd, Opd),
    Select(Opd, Ty, Opd, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, u64, Vec<(Opd, u32, u64)>),
    Alloca(u64, Opd),
    Cast(Cast, Ty, Ty, Opd),
    Call { callee: Callee, args: Vec<(Ty, Opd)>, ret: Ty, next: u32 },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, Vec<(u128, u32)>, u32),
    Ret(Option<Opd>),
    Unreachable,
    Extract(Opd, Vec<u32>),
    Insert(Opd, Opd, Vec<u32>, Ty),
    AtomicRmw(Arc<str>, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Copy(Opd),
    ExtractElem(Opd, Opd),
    InsertElem(Opd, Opd, Opd, Ty),
    Shuffle(Opd, Opd, Vec<u32>, u32),
    Nop,
    Unsupported(Arc<str>),
}

#[derive(Clone, Debug)]
pub struct Ins { pub dst: u32, pub op: Op }
pub const NODST: u32 = u32::MAX;

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<Ins>,
}
#[derive(Debug)]
pub struct Func {
    pub nregs: u32,
    pub nparams: u32,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: String,
    pub pretty: String,
    pub is_def: bool,
    pub ret: OnceLock<Ty>,
    range: (usize, usize),
    pub body: OnceLock<Arc<Func>>,
}

pub struct Global {
    pub name: String,
    pub konst: bool,
    pub bytes: Vec<u8>,
}

pub struct Module {
    text: Vec<u8>,
    pub syms: HashMap<String, u64>,
    pub funcs: Vec<FuncDecl>,
    /// object id of funcs[i] is i + FUNC_BASE
    pub globals: Vec<Global>,
    pub types: HashMap<String, Ty>,
}
pub const FUNC_BASE: u32 = 1;

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    W(&'a str),
    Loc(&'a str),
    Glo(&'a str),
    Num(i128),
    Hex(u64),
    Str(Vec<u8>),
    P(u8),
    Attr,
    Meta,
    Nl,
    Eof,
}

struct Lex<'a> { s: &'a [u8], p: usize, m: Option<&'a Module>, regs: HashMap<&'a str, u32>, aliases: Option<&'a HashMap<String, Ty>> }

fn idch(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'.' | b'_' | b'$' | b'-') }

impl<'a> Lex<'a> {
    fn new(s: &'a [u8], m: Option<&'a Module>) -> Lex<'a> {
        Lex { s, p: 0, m, regs: HashMap::new(), aliases: m.map(|m| &m.types) }
    }
    fn str(&self, a: usize, b: usize) -> &'a str { std::str::from_utf8(&self.s[a..b]).unwrap() }
    fn name(&mut self) -> &'a str {
        if self.s.get(self.p) == Some(&b'"') {
            let st = self.p + 1;
            let mut q = st;
            while self.s[q] != b'"' { q += 1 }
            self.p = q + 1;
            self.str(st, q)
        } else {
            let st = self.p;
            while self.p < self.s.len() && idch(self.s[self.p]) { self.p += 1 }
            self.str(st, self.p)
        }
    }
    fn next(&mut self) -> Tok<'a> {
        loop {
            if self.p >= self.s.len() { return Tok::Eof }
            let c = self.s[self.p];
            match c {
                b' ' | b'\t' | b'\r' => self.p += 1,
                b'\n' => { self.p += 1; return Tok::Nl }
                b';' => while self.p < self.s.len() && self.s[self.p] != b'\n' { self.p += 1 },
                b'%' => { self.p += 1; return Tok::Loc(self.name()) }
                b'@' => { self.p += 1; return Tok::Glo(self.name()) }
                b'#' => { self.p += 1; self.name(); return Tok::Attr }
                b'!' => {
                    self.p += 1;
                    self.name();
                    return Tok::Meta
                }
                b'"' => {
                    // quoted attribute or quoted label
                    let n = self.name();
                    if self.s.get(self.p) == Some(&b'=') { self.p += 1; self.name(); return Tok::Attr }
                    return Tok::W(n)
                }
                b'c' if self.s.get(self.p + 1) == Some(&b'"') => {
                    self.p += 2;
                    let mut v = Vec::new();
                    while self.s[self.p] != b'"' {
                        if self.s[self.p] == b'\\' {
                            if self.s[self.p + 1] == b'\\' { v.push(b'\\'); self.p += 2; continue }
                            let h = self.str(self.p + 1, self.p + 3);
                            v.push(u8::from_str_radix(h, 16).unwrap());
                            self.p += 3;
                        } else { v.push(self.s[self.p]); self.p += 1 }
                    }
                    self.p += 1;
                    return Tok::Str(v)
                }
                b'-' | b'0'..=b'9' => {
                    let st = self.p;
                    self.p += 1;
                    if c == b'0' && self.s.get(self.p) == Some(&b'x') {
                        self.p += 1;
                        while self.p < self.s.len() && self.s[self.p].is_ascii_hexdigit() { self.p += 1 }
                        return Tok::Hex(u64::from_str_radix(self.str(st + 2, self.p), 16).unwrap_or(0))
                    }
                    while self.p < self.s.len() && idch(self.s[self.p]) { self.p += 1 }
                    if self.s.get(self.p) == Some(&b'+') && self.s[self.p - 1] == b'e' && self.s[st..self.p].contains(&b'.') {
                        self.p += 1; // 1.0e+09
                        while self.p < self.s.len() && self.s[self.p].is_ascii_digit() { self.p += 1 }
                    }
                    let t = self.str(st, self.p);
                    // label "12:"
                    if let Ok(v) = t.parse::<i128>() { return Tok::Num(v) }
                    if let Ok(v) = t.parse::<u128>() { return Tok::Num(v as i128) }
                    if let Ok(f) = t.parse::<f64>() { return Tok::Hex(f.to_bits()) }
                    return Tok::W(t)
                }
                _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                    let st = self.p;
                    while self.p < self.s.len() && idch(self.s[self.p]) { self.p += 1 }
                    return Tok::W(self.str(st, self.p))
                }
                _ => { self.p += 1; return Tok::P(c) }
            }
        }
    }
    fn peek(&mut self) -> Tok<'a> { let p = self.p; let t = self.next(); self.p = p; t }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == Tok::P(c) { self.next(); true } else { false }
    }
    fn expect(&mut self, c: u8) {
        let p = self.p;
        let t = self.next();
        if t != Tok::P(c) { panic!("expected '{}' got {:?} near: {}", c as char, t,
            String::from_utf8_lossy(&self.s[p.saturating_sub(100)..(p + 100).min(self.s.len())])) }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.peek() == Tok::W(w) { self.next(); true } else { false }
    }
    fn skip_line(&mut self) { while self.p < self.s.len() && self.s[self.p] != b'\n' { self.p += 1 } }
    fn skip_nl(&mut self) { while self.peek() == Tok::Nl { self.next(); } }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => { d -= 1; if d == 0 { return } }
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
    /// Try to parse a type; None if the next token isn't one
    fn ty(&mut self) -> Ty {
        let p = self.p;
        match self.try_ty() {
            Some(t) => t,
            None => panic!("type expected near: {}", String::from_utf8_lossy(&self.s[p.saturating_sub(100)..(p + 80).min(self.s.len())])),
        }
    }
    fn try_ty(&mut self) -> Option<Ty> {
        let save = self.p;
        let t = match self.next() {
            Tok::W(w) => {
                if w == "void" { Ty::Void }
                else if w == "ptr" {
                    if self.eat_w("addrspace") { self.skip_parens(); }
                    Ty::Ptr
                }
                else if w == "float" { Ty::Float(32) }
                else if w == "double" { Ty::Float(64) }
                else if w == "x86_fp80" { Ty::Float(80) }
                else if w == "metadata" || w == "token" || w == "label" { Ty::Other }
                else if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) {
                    Ty::Int(w[1..].parse().unwrap())
                } else { self.p = save; return None }
            }
            Tok::P(b'[') => {
                let n = match self.next() { Tok::Num(n) => n as u64, _ => { self.p = save; return None } };
                if !self.eat_w("x") { self.p = save; return None }
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(Arc::new(t), n)
            }
            Tok::P(b'<') => {
                if self.peek() == Tok::P(b'{') {
                    self.next();
                    let mut f = Vec::new();
                    if !self.eat(b'}') {
                        loop { f.push(self.ty()); if !self.eat(b',') { break } }
                        self.expect(b'}');
                    }
                    self.expect(b'>');
                    Ty::Struct(Arc::new(f), true)
                } else {
                    let n = match self.next() { Tok::Num(n) => n as u64, _ => { self.p = save; return None } };
                    if !self.eat_w("x") { self.p = save; return None }
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(Arc::new(t), n)
                }
            }
            Tok::P(b'{') => {
                let mut f = Vec::new();
                if !self.eat(b'}') {
                    loop {
                        match self.try_ty() { Some(t) => f.push(t), None => { self.p = save; return None } }
                        if !self.eat(b',') { break }
                    }
                    if !self.eat(b'}') { self.p = save; return None }
                }
                Ty::Struct(Arc::new(f), false)
            }
            Tok::Loc(n) => {
                match self.aliases.and_then(|a| a.get(n)) {
                    Some(t) => t.clone(),
                    None => { self.p = save; return None }
                }
            }
            _ => { self.p = save; return None }
        };
        Some(t)
    }
    /// Skip parameter/return attributes.
    fn attrs(&mut self) {
        loop {
            let save = self.p;
            match self.next() {
                Tok::Attr => continue,
                Tok::W(w) => match w {
                    "align" => {
                        if self.peek() == Tok::P(b'(') { self.skip_parens() } else { self.next(); }
                    }
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none"
                    | "getelementptr" | "ptrtoint" | "inttoptr" | "add" | "sub" | "trunc" | "bitcast" | "splat" | "xor" | "mul" | "blockaddress" | "asm" => {
                        self.p = save; return
                    }
                    _ => {
                        // a type?
                        let after = self.p;
                        self.p = save;
                        if self.try_ty().is_some() { self.p = save; return }
                        self.p = after;
                        if self.peek() == Tok::P(b'(') { self.skip_parens() }
                    }
                },
                _ => { self.p = save; return }
            }
        }
    }
    fn sym(&self, n: &str) -> u64 {
        match self.m { Some(m) => *m.syms.get(n).unwrap_or_else(|| panic!("unknown symbol {}", n)), None => 0 }
    }
    fn reg(&mut self, n: &'a str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn zero(t: &Ty) -> Opd {
        match t {
            Ty::Int(w) if *w > 64 => Opd::Big(0, *w),
            Ty::Arr(e, n) | Ty::Vec(e, n) => Opd::Agg(Arc::new(vec![Self::zero(e); *n as usize])),
            Ty::Struct(f, _) => Opd::Agg(Arc::new(f.iter().map(Self::zero).collect())),
            _ => Opd::K(0),
        }
    }
    fn const_int(v: i128, t: &Ty) -> Opd {
        match t {
            Ty::Int(w) if *w > 64 => Opd::Big(v as u128 & crate::expr::mask(*w as u8), *w),
            Ty::Int(w) => Opd::K((v as u128 & crate::expr::mask(*w as u8)) as u64),
            _ => Opd::K(v as u64),
        }
    }
    fn k(&mut self, o: Opd) -> u64 {
        match o { Opd::K(v) => v, Opd::Big(v, _) => v as u64, o => panic!("constant expected {:?}", o) }
    }
    fn opd(&mut self, t: &Ty) -> Opd {
        let p = self.p;
        match self.next() {
            Tok::Loc(n) => { let r = self.reg(n); Opd::Reg(r) }
            Tok::Glo(n) => Opd::K(self.sym(n)),
            Tok::Num(v) => match t { Ty::Float(64) => Opd::K((v as f64).to_bits()), _ => Self::const_int(v, t) },
            Tok::Hex(v) => match t { Ty::Float(32) => Opd::K((f64::from_bits(v) as f32).to_bits() as u64), _ => Opd::K(v) },
            Tok::Str(v) => Opd::Agg(Arc::new(v.into_iter().map(|b| Opd::K(b as u64)).collect())),
            Tok::W("true") => Opd::K(1),
            Tok::W("false") => Opd::K(0),
            Tok::W("null") | Tok::W("none") => Opd::K(0),
            Tok::W("undef") | Tok::W("poison") | Tok::W("zeroinitializer") => Self::zero(t),
            Tok::W("splat") => {
                self.expect(b'(');
                let et = self.ty();
                let o = self.opd(&et);
                self.expect(b')');
                Opd::Agg(Arc::new(vec![o; t.nelem()]))
            }
            Tok::W("getelementptr") => {
                while let Tok::W(_) = self.peek() { self.next(); if self.peek() == Tok::P(b'(') { break } }
                // inrange(..) attribute
                self.expect(b'(');
                if let Tok::Num(_) = self.peek() { // inrange(a, b)
                    while self.next() != Tok::P(b')') {}
                    self.expect(b'(');
                }
                let bt = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let b = self.opd(&pt);
                let mut addr = self.k(b);
                let mut cur = bt;
                let mut first = true;
                while self.eat(b',') {
                    let it = self.ty();
                    let i = self.opd(&it);
                    let i = self.k(i);
                    let i = crate::expr::sext(i as u128, it.bits() as u8) as i64;
                    if first { addr = addr.wrapping_add((cur.size() as i64).wrapping_mul(i) as u64); first = false; }
                    else {
                        addr = addr.wrapping_add(match &cur {
                            Ty::Struct(..) => cur.field_off(i as usize),
                            _ => (cur.elem(0).size() as i64).wrapping_mul(i) as u64 });
                        let n = cur.elem(if let Ty::Struct(..) = cur { i as usize } else { 0 }).clone();
                        cur = n;
                    }
                }
                self.expect(b')');
                Opd::K(addr)
            }
            Tok::W(c @ ("ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "ptrtoaddr")) => {
                let _ = c;
                self.expect(b'(');
                let st = self.ty();
                let o = self.opd(&st);
                if !self.eat_w("to") { panic!("to") }
                let dt = self.ty();
                self.expect(b')');
                match o {
                    Opd::K(v) => match dt { Ty::Int(w) if w <= 64 => Opd::K((v as u128 & crate::expr::mask(w as u8)) as u64),
                                            Ty::Int(w) => Opd::Big(v as u128, w), _ => Opd::K(v) },
                    o => o,
                }
            }
            Tok::W(c @ ("add" | "sub" | "xor" | "mul")) => {
                while let Tok::W(_) = self.peek() { self.next(); }
                self.expect(b'(');
                let t1 = self.ty(); let a = self.opd(&t1); self.expect(b',');
                let t2 = self.ty(); let b = self.opd(&t2); self.expect(b')');
                let (a, b) = (self.k(a), self.k(b));
                let v = match c { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "xor" => a ^ b, _ => a.wrapping_mul(b) };
                Self::const_int(v as i128, &t1)
            }
            Tok::P(c @ (b'{' | b'[' | b'<')) => {
                let mut packed = false;
                if c == b'<' && self.eat(b'{') { packed = true; }
                let mut v = Vec::new();
                let close = match c { b'{' => b'}', b'[' => b']', _ => if packed { b'}' } else { b'>' } };
                if !self.eat(close) {
                    loop {
                        let et = self.ty();
                        v.push(self.opd(&et));
                        if !self.eat(b',') { break }
                    }
                    self.expect(close);
                }
                if packed { self.expect(b'>'); }
                Opd::Agg(Arc::new(v))
            }
            t => panic!("operand expected, got {:?} near: {}", t, String::from_utf8_lossy(&self.s[p.saturating_sub(120)..(p + 100).min(self.s.len())])),
        }
    }
    fn tyopd(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        self.attrs();
        let o = self.opd(&t);
        (t, o)
    }
}

fn flatten(o: &Opd, t: &Ty, out: &mut Vec<u8>) {
    match (o, t) {
        (Opd::K(v), Ty::Arr(..)) | (Opd::K(v), Ty::Struct(..)) if *v == 0 => out.extend(std::iter::repeat(0).take(t.size() as usize)),
        (Opd::K(v), _) => {
            let n = t.size() as usize;
            for i in 0..n { out.push(if i < 8 { (v >> (8 * i)) as u8 } else { 0 }) }
        }
        (Opd::Big(v, _), _) => for i in 0..t.size() as usize { out.push(if i < 16 { (v >> (8 * i)) as u8 } else { 0 }) },
        (Opd::Agg(es), _) => {
            let base = out.len();
            for (i, e) in es.iter().enumerate() {
                let off = t.field_off(i) as usize;
                while out.len() < base + off { out.push(0) }
                flatten(e, t.elem(i), out);
            }
            while out.len() < base + t.size() as usize { out.push(0) }
        }
        (Opd::Reg(_), _) => panic!("reg in constant"),
    }
}

impl Module {
    /// `builtin` tells whether the executor implements an external symbol
    /// (extern_weak symbols that are neither defined nor builtin resolve to null).
    pub fn load(path: &str, builtin: &dyn Fn(&str) -> bool) -> Module {
        let text = std::fs::read(path).expect("read ir");
        let mut m = Module { text: Vec::new(), syms: HashMap::new(), funcs: Vec::new(), globals: Vec::new(), types: HashMap::new() };
        // line index of top-level entities
        let mut gl: Vec<(usize, usize)> = Vec::new();
        let mut p = 0;
        let mut pretty = String::new();
        let mut aliases = Vec::new();
        while p < text.len() {
            let e = text[p..].iter().position(|c| *c == b'\n').map(|i| p + i).unwrap_or(text.len());
            let line = &text[p..e];
            if line.starts_with(b"@") {
                let mut lx = Lex::new(line, None);
                lx.next();
                // alias?
                let s = std::str::from_utf8(line).unwrap();
                let head: &str = s.split('"').next().unwrap();
                if head.contains(" alias ") { aliases.push((p, e)); } else { gl.push((p, e)); }
            } else if line.starts_with(b"%") {
                let mut lx = Lex::new(line, None);
                if let Tok::Loc(n) = lx.next() {
                    lx.expect(b'=');
                    if lx.eat_w("type") { let al = m.types.clone(); lx.aliases = Some(&al); let t = lx.try_ty().unwrap_or(Ty::Other); m.types.insert(n.to_string(), t); }
                }
            } else if line.starts_with(b"; ") && !line.starts_with(b"; Function Attrs") {
                pretty = String::from_utf8_lossy(&line[2..]).into_owned();
            } else if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                let is_def = line.starts_with(b"define ");
                let at = line.iter().position(|c| *c == b'@').unwrap();
                let mut lx = Lex::new(&line[at + 1..], None);
                let name = lx.name().to_string();
                let mut end = e;
                if is_def {
                    // find "\n}\n"
                    let mut q = e;
                    loop {
                        if text[q] == b'\n' && text[q + 1] == b'}' && (q + 2 >= text.len() || text[q + 2] == b'\n') { end = q + 2; break }
                        q += 1;
                    }
                }
                let id = m.funcs.len() as u64 + FUNC_BASE as u64;
                m.syms.insert(name.clone(), id << 32);
                m.funcs.push(FuncDecl { pretty: if is_def { std::mem::take(&mut pretty) } else { String::new() }, name, is_def, ret: OnceLock::new(), range: (p, end), body: OnceLock::new() });
                pretty.clear();
                p = end + 1;
                continue;
            } else if line.is_empty() { pretty.clear(); }
            p = e + 1;
        }
        let gbase = m.funcs.len() as u64 + FUNC_BASE as u64;
        let mut defs = Vec::new();
        let mut n = 0;
        for (a, b) in gl {
            let mut lx = Lex::new(&text[a..b], None);
            let name = match lx.next() { Tok::Glo(n) => n.to_string(), t => panic!("{:?}", t) };
            let head = std::str::from_utf8(&text[a..b]).unwrap();
            let hw: Vec<&str> = head.split_whitespace().take(12).collect();
            let weak = hw.contains(&"extern_weak");
            if weak && !builtin(&name) && !m.syms.contains_key(&name) { m.syms.insert(name, 0); continue }
            if m.syms.contains_key(&name) { continue }
            m.syms.insert(name.clone(), (gbase + n) << 32);
            n += 1;
            defs.push((name, a, b));
        }
        // constructors: [__init_array_start, __init_array_end) lists the functions in .init_array sections
        let ctor = |a: usize, b: usize| { let l = std::str::from_utf8(&text[a..b]).unwrap(); l.contains("section \".init_array") };
        let nctor = defs.iter().filter(|d| ctor(d.1, d.2)).count() as u64;
        if let Some(p) = m.syms.get("__init_array_start").copied() { m.syms.insert("__init_array_end".into(), p + 8 * nctor); }
        let ctors: Vec<bool> = defs.iter().map(|d| ctor(d.1, d.2)).collect();
        m.text = text;
        for (a, b) in aliases {
            let t = m.text[a..b].to_vec();
            let mut lx = Lex::new(&t, Some(&m));
            let name = match lx.next() { Tok::Glo(n) => n.to_string(), t => panic!("{:?}", t) };
            while lx.next() != Tok::W("alias") {}
            lx.ty();
            lx.expect(b',');
            let (_, o) = lx.tyopd();
            let v = lx.k(o);
            m.syms.insert(name, v);
        }
        let mut globals = Vec::new();
        for (name, a, b) in defs {
            let s = &m.text[a..b];
            let mut lx = Lex::new(s, Some(&m));
            lx.next();
            lx.expect(b'=');
            let mut konst = false;
            let mut external = false;
            loop {
                match lx.next() {
                    Tok::W("constant") => { konst = true; break }
                    Tok::W("global") => break,
                    Tok::W("external") | Tok::W("extern_weak") => external = true,
                    Tok::P(b'(') => { lx.p -= 1; lx.skip_parens() }
                    Tok::Eof => panic!("bad global {}", String::from_utf8_lossy(s)),
                    _ => {}
                }
            }
            let t = lx.ty();
            let mut bytes = Vec::new();
            if external || matches!(lx.peek(), Tok::P(b',') | Tok::Eof) { bytes = vec![0; t.size() as usize]; }
            else { let o = lx.opd(&t); flatten(&o, &t, &mut bytes); }
            globals.push(Global { name, konst, bytes });
        }
        if let Some(i) = globals.iter().position(|g: &Global| g.name == "__init_array_start") {
            let b: Vec<u8> = globals.iter().zip(&ctors).filter(|x| *x.1).flat_map(|x| x.0.bytes.clone()).collect();
            globals[i].bytes = b;
        }
        m.globals = globals;
        m
    }
    pub fn first_global(&self) -> u32 { self.funcs.len() as u32 + FUNC_BASE }
    pub fn func(&self, i: u32) -> &Arc<Func> {
        self.funcs[i as usize].body.get_or_init(|| Arc::new(self.parse_func(i as usize)))
    }
    fn parse_func(&self, i: usize) -> Func {
        let (a, b) = self.funcs[i].range;
        let s = &self.text[a..b];
        let mut lx = Lex::new(s, Some(self));
        // header: up to '@name(' params
        loop { if let Tok::Glo(_) = lx.next() { break } }
        lx.expect(b'(');
        let mut nparams = 0;
        let mut unnamed = 0;
        if !lx.eat(b')') {
            loop {
                if let Tok::P(b'.') = lx.peek() { while lx.peek() != Tok::P(b')') { lx.next(); } break }
                if let Tok::W("...") = lx.peek() { lx.next(); break }
                lx.ty();
                lx.attrs();
                match lx.peek() {
                    Tok::Loc(n) => { lx.next(); lx.reg(n); }
                    _ => { let n: &'static str = Box::leak(format!("{}", unnamed).into_boxed_str()); lx.reg(n); }
                }
                unnamed += 1;
                nparams += 1;
                if !lx.eat(b',') { break }
            }
            lx.expect(b')');
        }
        lx.skip_line();
        let mut blocks: Vec<Block> = vec![Block { phis: vec![], ins: vec![] }];
        let mut labels: HashMap<&str, u32> = HashMap::new();
        // pre-scan labels
        {
            let mut nb = 0u32;
            let mut first = true;
            let txt = std::str::from_utf8(s).unwrap();
            for line in txt.split('\n').skip(1) {
                if line.is_empty() || line.starts_with(' ') || line.starts_with('}') || line.starts_with(';') {
                    if line.starts_with("  ") { first = false; }
                    continue
                }
                let q = if line.starts_with('"') { line[1..].find('"').map(|i| &line[1..1 + i]) } else { line.find(':').map(|i| &line[..i]) };
                if let Some(l) = q {
                    if first { labels.insert(l, 0); first = false; }
                    else { nb += 1; labels.insert(l, nb); }
                }
            }
            // entry block without explicit label: its implicit name is the number of params
            if !labels.values().any(|v| *v == 0) {
                let n: &'static str = Box::leak(format!("{}", nparams).into_boxed_str());
                labels.insert(n, 0);
            }
            for _ in 0..nb { blocks.push(Block { phis: vec![], ins: vec![] }) }
        }
        let mut cur = 0usize;
        loop {
            lx.skip_nl();
            let save = lx.p;
            let at_line_start = save == 0 || s[save - 1] == b'\n' || s[..save].iter().rev().take_while(|c| **c != b'\n').all(|c| *c == b' ');
            debug_assert!(at_line_start);
            let indented = { let mut q = lx.p; let mut ind = false; while q < s.len() && s[q] == b' ' { q += 1; ind = true } ind };
            match lx.peek() {
                Tok::Eof => break,
                Tok::P(b'}') => break,
                _ => {}
            }
            if !indented {
                // label or comment
                let line_end = s[lx.p..].iter().position(|c| *c == b'\n').map(|i| lx.p + i).unwrap_or(s.len());
                let line = std::str::from_utf8(&s[lx.p..line_end]).unwrap();
                if !line.starts_with(';') {
                    let l = if line.starts_with('"') { &line[1..1 + line[1..].find('"').unwrap()] } else { &line[..line.find(':').unwrap()] };
                    cur = labels[l] as usize;
                }
                lx.p = line_end;
                continue;
            }
            let mut dst = NODST;
            if let Tok::Loc(n) = lx.peek() {
                lx.next();
                dst = lx.reg(n);
                lx.expect(b'=');
            }
            let op = self.parse_ins(&mut lx, &labels, dst, &mut blocks[cur]);
            if let Some(op) = op { blocks[cur].ins.push(Ins { dst, op }); }
            lx.skip_line();
        }
        Func { nregs: lx.regs.len() as u32, nparams, blocks }
    }
    fn parse_ins<'a>(&self, lx: &mut Lex<'a>, labels: &HashMap<&'a str, u32>, dst: u32, blk: &mut Block) -> Option<Op> {
        let start = lx.p;
        let w = match lx.next() {
            Tok::W(w) => w,
            Tok::P(b'#') | Tok::Attr => { return None } // #dbg_...
            Tok::P(b']') => return None,
            t => panic!("instruction expected: {:?}", t),
        };
        let label = |lx: &mut Lex<'a>| -> u32 {
            if !lx.eat_w("label") { panic!("label expected") }
            match lx.next() { Tok::Loc(n) => *labels.get(n).unwrap_or_else(|| panic!("unknown label {}", n)), t => panic!("{:?}", t) }
        };
        let flags = |lx: &mut Lex<'a>| {
            loop {
                match lx.peek() {
                    Tok::W("nuw") | Tok::W("nsw") | Tok::W("exact") | Tok::W("disjoint") | Tok::W("nneg") | Tok::W("samesign")
                    | Tok::W("inbounds") | Tok::W("nusw") | Tok::W("volatile") | Tok::W("atomic") | Tok::W("weak") | Tok::W("fast") => { lx.next(); }
                    _ => break,
                }
            }
        };
        let bin = |b: Bin| Some(b);
        let b = match w {
            "add" => bin(Bin::Add), "sub" => bin(Bin::Sub), "mul" => bin(Bin::Mul), "udiv" => bin(Bin::UDiv),
            "sdiv" => bin(Bin::SDiv), "urem" => bin(Bin::URem), "srem" => bin(Bin::SRem), "shl" => bin(Bin::Shl),
            "lshr" => bin(Bin::LShr), "ashr" => bin(Bin::AShr), "and" => bin(Bin::And), "or" => bin(Bin::Or), "xor" => bin(Bin::Xor),
            _ => None,
        };
        if let Some(b) = b {
            flags(lx);
            let t = lx.ty();
            let x = lx.opd(&t);
            lx.expect(b',');
            let y = lx.opd(&t);
            let (bw, lanes) = match &t { Ty::Vec(e, n) => (e.bits(), *n as u32), t => (t.bits(), 0) };
            return Some(Op::Bin(b, bw, lanes, x, y));
        }
        Some(match w {
            "fadd" | "fsub" | "fmul" | "fdiv" => {
                flags(lx);
                let t = lx.ty();
                let x = lx.opd(&t); lx.expect(b',');
                let y = lx.opd(&t);
                Op::FBin(w.as_bytes()[1], t.bits(), x, y)
            }
            "fneg" => {
                flags(lx);
                let t = lx.ty();
                let x = lx.opd(&t);
                let w = t.bits();
                Op::Bin(Bin::Xor, w, 0, x, Opd::K(1 << (w - 1)))
            }
            "fcmp" => {
                flags(lx);
                let p = match lx.next() { Tok::W(p) => p, t => panic!("{:?}", t) };
                let t = lx.ty();
                let x = lx.opd(&t); lx.expect(b',');
                let y = lx.opd(&t);
                Op::FCmp(p.into(), t.bits(), x, y)
            }
            "icmp" => {
                flags(lx);
                let p = match lx.next() {
                    Tok::W(p) => match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge,
                        "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, _ => panic!("{}", p) },
                    t => panic!("{:?}", t) };
                let t = lx.ty();
                let x = lx.opd(&t);
                lx.expect(b',');
                let y = lx.opd(&t);
                let (bw, lanes) = match &t { Ty::Vec(e, n) => (e.bits(), *n as u32), t => (t.bits(), 0) };
                Op::ICmp(p, bw, lanes, x, y)
            }
            "select" => {
                flags(lx);
                let (ct, c) = lx.tyopd();
                lx.expect(b',');
                let (t, x) = lx.tyopd();
                lx.expect(b',');
                let (_, y) = lx.tyopd();
                if let Ty::Vec(..) = ct { return Some(Op::Unsupported("vector select".into())) }
                Op::Select(c, t, x, y)
            }
            "load" => {
                flags(lx);
                let t = lx.ty();
                lx.expect(b',');
                let (_, p) = lx.tyopd();
                Op::Load(t, p)
            }
            "store" => {
                flags(lx);
                let (t, v) = lx.tyopd();
                lx.expect(b',');
                let (_, p) = lx.tyopd();
                Op::Store(t, v, p)
            }
            "getelementptr" => {
                flags(lx);
                if lx.eat_w("inrange") { lx.skip_parens(); }
                let bt = lx.ty();
                lx.expect(b',');
                let (_, base) = lx.tyopd();
                let mut k = 0u64;
                let mut v = Vec::new();
                let mut cur = bt;
                let mut first = true;
                while lx.eat(b',') {
                    if let Tok::Meta = lx.peek() { break }
                    let (it, i) = lx.tyopd();
                    let sz;
                    if first { sz = cur.size(); first = false; }
                    else {
                        if let Ty::Struct(..) = cur {
                            let ix = match i { Opd::K(v) => v as usize, _ => panic!("struct idx") };
                            k = k.wrapping_add(cur.field_off(ix));
                            let n = cur.elem(ix).clone();
                            cur = n;
                            continue;
                        }
                        let n = cur.elem(0).clone();
                        sz = n.size();
                        cur = n;
                    }
                    match i {
                        Opd::K(x) => k = k.wrapping_add((crate::expr::sext(x as u128, it.bits() as u8) as i64).wrapping_mul(sz as i64) as u64),
                        i => v.push((i, it.bits(), sz)),
                    }
                }
                Op::Gep(base, k, v)
            }
            "alloca" => {
                let t = lx.ty();
                let mut n = Opd::K(1);
                if lx.eat(b',') {
                    if let Tok::W("align") = lx.peek() {} else { let (_, o) = lx.tyopd(); n = o; }
                }
                Op::Alloca(t.size(), n)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                flags(lx);
                let (st, o) = lx.tyopd();
                if !lx.eat_w("to") { panic!("to expected") }
                let dt = lx.ty();
                let c = match w {
                    "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "bitcast" => Cast::Bitcast,
                    "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp,
                    "fpext" => Cast::FpExt, "fptrunc" => Cast::FpTrunc,
                    _ => { let (a, b) = (st.bits(), dt.bits()); if a == b { Cast::Nop } else if a > b { Cast::Trunc } else { Cast::ZExt } }
                };
                Op::Cast(c, st, dt, o)
            }
            "freeze" => { let (_, o) = lx.tyopd(); Op::Copy(o) }
            "phi" => {
                flags(lx);
                let t = lx.ty();
                let mut v = Vec::new();
                loop {
                    lx.expect(b'[');
                    let o = lx.opd(&t);
                    lx.expect(b',');
                    let l = match lx.next() { Tok::Loc(n) => *labels.get(n).unwrap_or_else(|| panic!("unknown label {}", n)), t => panic!("{:?}", t) };
                    lx.expect(b']');
                    v.push((l, o));
                    if !lx.eat(b',') { break }
                    if let Tok::Meta = lx.peek() { break }
                }
                blk.phis.push((dst, v));
                return None;
            }
            "br" => {
                if let Tok::W("label") = lx.peek() { Op::Br(label(lx)) }
                else {
                    let (_, c) = lx.tyopd();
                    lx.expect(b',');
                    let a = label(lx);
                    lx.expect(b',');
                    let b = label(lx);
                    Op::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, o) = lx.tyopd();
                lx.expect(b',');
                let d = label(lx);
                lx.expect(b'[');
                let mut v = Vec::new();
                loop {
                    lx.skip_nl();
                    if lx.eat(b']') { break }
                    let (ct, k) = lx.tyopd();
                    let k = match k { Opd::K(v) => v as u128, Opd::Big(v, _) => v, _ => panic!() };
                    let _ = ct;
                    lx.expect(b',');
                    let l = label(lx);
                    v.push((k, l));
                }
                Op::Switch(o, d, v, t.bits())
            }
            "ret" => {
                if lx.eat_w("void") { Op::Ret(None) } else { let (_, o) = lx.tyopd(); Op::Ret(Some(o)) }
            }
            "unreachable" => Op::Unreachable,
            "resume" => { Op::Unsupported("resume".into()) }
            "landingpad" => {
                // skip clauses
                lx.skip_line();
                loop {
                    let save = lx.p;
                    lx.skip_nl();
                    match lx.peek() { Tok::W("cleanup") | Tok::W("catch") | Tok::W("filter") => { lx.skip_line(); }
                        _ => { lx.p = save; break } }
                }
                Op::Unsupported("landingpad".into())
            }
            "tail" | "musttail" | "notail" => {
                return self.parse_ins(lx, labels, dst, blk);
            }
            "call" | "invoke" => {
                loop {
                    match lx.peek() {
                        Tok::W("fastcc") | Tok::W("ccc") | Tok::W("coldcc") | Tok::W("preserve_mostcc") | Tok::W("preserve_allcc") | Tok::W("nuw") | Tok::W("nsw") | Tok::W("fast") => { lx.next(); }
                        _ => break }
                }
                lx.attrs();
                let ret = lx.ty();
                // function type (varargs)
                if let Tok::P(b'(') = lx.peek() { lx.skip_parens(); }
                let mut asm = false;
                let callee = match lx.next() {
                    Tok::Glo(n) => {
                        if n.starts_with("llvm.") { Callee::Intr(n.into()) }
                        else {
                            let a = *self.syms.get(n).unwrap_or_else(|| panic!("unknown fn {}", n));
                            let id = (a >> 32) as u32;
                            if id >= FUNC_BASE && id < self.first_global() { Callee::Direct(id - FUNC_BASE) } else { Callee::Reg(Opd::K(a)) }
                        }
                    }
                    Tok::Loc(n) => { let r = lx.reg(n); Callee::Reg(Opd::Reg(r)) }
                    Tok::W("asm") => { asm = true; Callee::Asm }
                    Tok::W("inttoptr") => return Some(Op::Unsupported("call inttoptr".into())),
                    t => panic!("callee {:?} near {}", t, String::from_utf8_lossy(&lx.s[start..(start + 200).min(lx.s.len())])),
                };
                if asm {
                    while lx.peek() != Tok::P(b'(') { lx.next(); }
                }
                lx.expect(b'(');
                let mut args = Vec::new();
                if !lx.eat(b')') {
                    loop {
                        let t = lx.ty();
                        if t == Ty::Other {
                            // metadata
                            let mut d = 0;
                            loop {
                                match lx.peek() {
                                    Tok::P(b'(') | Tok::P(b'{') => { d += 1; lx.next(); }
                                    Tok::P(b')') if d == 0 => break,
                                    Tok::P(b',') if d == 0 => break,
                                    Tok::P(b')') | Tok::P(b'}') => { d -= 1; lx.next(); }
                                    _ => { lx.next(); }
                                }
                            }
                        } else {
                            lx.attrs();
                            let o = lx.opd(&t);
                            args.push((t, o));
                        }
                        if !lx.eat(b',') { break }
                    }
                    lx.expect(b')');
                }
                let mut next = NODST;
                if w == "invoke" {
                    loop {
                        match lx.next() { Tok::W("to") => break, Tok::Eof => panic!("invoke"), _ => {} }
                    }
                    next = label(lx);
                }
                if let Callee::Intr(n) = &callee {
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.dbg") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.prefetch")
                        || n.starts_with("llvm.donothing") || n.starts_with("llvm.va_") {
                        if next == NODST { return Some(Op::Nop) }
                        return Some(Op::Br(next));
                    }
                }
                Op::Call { callee, args, ret, next }
            }
            "extractvalue" => {
                let (_, a) = lx.tyopd();
                let mut ix = Vec::new();
                while lx.eat(b',') { match lx.next() { Tok::Num(n) => ix.push(n as u32), _ => break } }
                Op::Extract(a, ix)
            }
            "insertvalue" => {
                let (t, a) = lx.tyopd();
                lx.expect(b',');
                let (_, v) = lx.tyopd();
                let mut ix = Vec::new();
                while lx.eat(b',') { match lx.next() { Tok::Num(n) => ix.push(n as u32), _ => break } }
                Op::Insert(a, v, ix, t)
            }
            "atomicrmw" => {
                flags(lx);
                let o = match lx.next() { Tok::W(o) => o, t => panic!("{:?}", t) };
                let (_, p) = lx.tyopd();
                lx.expect(b',');
                let (t, v) = lx.tyopd();
                Op::AtomicRmw(o.into(), t, p, v)
            }
            "cmpxchg" => {
                flags(lx);
                let (_, p) = lx.tyopd();
                lx.expect(b',');
                let (t, c) = lx.tyopd();
                lx.expect(b',');
                let (_, n) = lx.tyopd();
                Op::CmpXchg(t, p, c, n)
            }
            "fence" => Op::Nop,
            "extractelement" => {
                let (_, v) = lx.tyopd();
                lx.expect(b',');
                let (_, i) = lx.tyopd();
                Op::ExtractElem(v, i)
            }
            "insertelement" => {
                let (t, v) = lx.tyopd();
                lx.expect(b',');
                let (_, e) = lx.tyopd();
                lx.expect(b',');
                let (_, i) = lx.tyopd();
                Op::InsertElem(v, e, i, t)
            }
            "shufflevector" => {
                let (t, a) = lx.tyopd();
                lx.expect(b',');
                let (_, b2) = lx.tyopd();
                lx.expect(b',');
                let (_, m) = lx.tyopd();
                let ix = match m { Opd::Agg(v) => v.iter().map(|o| match o { Opd::K(k) => *k as u32, _ => 0 }).collect(), _ => return Some(Op::Unsupported("shuffle".into())) };
                Op::Shuffle(a, b2, ix, t.nelem() as u32)
            }
            _ => Op::Unsupported(w.into()),
        })
    }
}
