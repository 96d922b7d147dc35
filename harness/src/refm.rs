//! Reference model, written from FORMAT.v1.rst and the property statements, not from the code under test.
#![allow(dead_code)]
use dir_signature::HashType;
use digest::{FixedOutput, Update, VariableOutput};

pub const HASHES: [&str; 3] = ["sha512/256", "blake2b/256", "blake3/256"];
pub fn hash_type(i: usize) -> HashType {
    match i { 0 => HashType::sha512_256(), 1 => HashType::blake2b_256(), _ => HashType::blake3_256() }
}
/// One-shot hash of a byte string.
pub fn hash(i: usize, d: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    match i {
        0 => { let mut h = sha2::Sha512Trunc256::default(); h.update(d); o.copy_from_slice(h.finalize_fixed().as_ref()); }
        1 => { let mut h = <blake2::VarBlake2b as VariableOutput>::new(32).unwrap(); h.update(d); h.finalize_variable(|x| o.copy_from_slice(x)); }
        _ => { let mut h = blake3::Hasher::new(); h.update(d); o.copy_from_slice(h.finalize().as_bytes()); }
    }
    o
}
pub fn hexd(n: u8) -> u8 { b"0123456789abcdef"[(n & 15) as usize] }
pub fn hex(d: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(d.len() * 2);
    for b in d { v.push(hexd(b >> 4)); v.push(hexd(b & 15)); }
    v
}
pub fn escape(d: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(d.len() * 4);
    for &b in d {
        if b <= 0x20 || b >= 0x7f || b == b'\\' { v.push(b'\\'); v.push(b'x'); v.push(hexd(b >> 4)); v.push(hexd(b & 15)); } else { v.push(b) }
    }
    v
}
fn digit(b: u8) -> Option<u8> {
    match b { b'0'..=b'9' => Some(b - b'0'), b'a'..=b'f' => Some(b - b'a' + 10), b'A'..=b'F' => Some(b - b'A' + 10), _ => None }
}
pub fn unescape(d: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(d.len());
    let mut i = 0;
    while i < d.len() {
        if i + 3 < d.len() && d[i] == b'\\' && d[i + 1] == b'x' {
            if let (Some(a), Some(b)) = (digit(d[i + 2]), digit(d[i + 3])) { v.push(a * 16 + b); i += 4; continue }
        }
        v.push(d[i]);
        i += 1;
    }
    v
}
pub fn dec(mut n: u64) -> Vec<u8> {
    let mut t = [0u8; 20];
    let mut i = 20;
    loop { i -= 1; t[i] = b'0' + (n % 10) as u8; n /= 10; if n == 0 { break } }
    t[i..].to_vec()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ent {
    Dir(Vec<u8>),
    File { path: Vec<u8>, exe: bool, size: u64, hashes: Vec<u8> },
    Link(Vec<u8>, Vec<u8>),
}
impl Ent {
    pub fn path(&self) -> &[u8] { match self { Ent::Dir(p) => p, Ent::File { path, .. } => path, Ent::Link(p, _) => p } }
    pub fn is_dir(&self) -> bool { matches!(self, Ent::Dir(_)) }
}
pub fn join(dir: &[u8], name: &[u8]) -> Vec<u8> {
    let mut p = dir.to_vec();
    if p.last() != Some(&b'/') { p.push(b'/') }
    p.extend_from_slice(name);
    p
}
pub enum Line { Entry(Ent), Footer, Bad }

fn number(f: &[u8]) -> Option<u64> {
    if f.is_empty() { return None }
    let mut v: u64 = 0;
    for &b in f {
        if !(b'0'..=b'9').contains(&b) { return None }
        v = v.checked_mul(10)?.checked_add((b - b'0') as u64)?;
    }
    Some(v)
}
fn hash_field(f: &[u8]) -> Option<Vec<u8>> {
    if f.len() != 64 { return None }
    let mut v = Vec::with_capacity(32);
    for i in 0..32 { v.push(digit(f[2 * i])? * 16 + digit(f[2 * i + 1])?); }
    Some(v)
}
/// One line (without its newline), in the documented grammar.
pub fn line(row: &[u8], cur: Option<&[u8]>, bs: u64) -> Line {
    if row.len() >= 1 && row[0] == b'/' {
        if row.contains(&b' ') { return Line::Bad }
        return Line::Entry(Ent::Dir(unescape(row)));
    }
    if row.len() >= 2 && row[0] == b' ' && row[1] == b' ' {
        return match entry(&row[2..], cur, bs) { Some(e) => Line::Entry(e), None => Line::Bad };
    }
    if hash_field(row).is_some() { Line::Footer } else { Line::Bad }
}
fn entry(row: &[u8], cur: Option<&[u8]>, bs: u64) -> Option<Ent> {
    let mut f = row.split(|b| *b == b' ');
    let name = unescape(f.next()?);
    let cur = cur?;
    if name.is_empty() || name.contains(&b'/') || name == b"." || name == b".." { return None }
    let path = join(cur, &name);
    let ty = f.next()?;
    if ty == b"s" {
        let d = f.next()?;
        if f.next().is_some() { return None }
        return Some(Ent::Link(path, unescape(d)));
    }
    if ty != b"f" && ty != b"x" { return None }
    let size = number(f.next()?)?;
    let mut rest = size;
    let mut hashes = Vec::new();
    while rest > 0 {
        hashes.extend(hash_field(f.next()?)?);
        rest = rest.saturating_sub(bs);
    }
    if f.next().is_some() { return None }
    Some(Ent::File { path, exe: ty == b"x", size, hashes })
}
/// What reading the body (everything after the header line) yields: entries, then the end or an error at a line.
pub fn body(d: &[u8], bs: u64) -> (Vec<Ent>, Result<(), usize>) {
    let mut out = Vec::new();
    let mut cur: Option<Vec<u8>> = None;
    let mut pos = 0;
    let mut no = 1;
    loop {
        no += 1;
        let e = match d[pos..].iter().position(|b| *b == b'\n') { Some(e) => pos + e, None => return (out, Err(no)) };
        let row = &d[pos..e];
        pos = e + 1;
        match line(row, cur.as_deref(), bs) {
            Line::Bad => return (out, Err(no)),
            Line::Footer => return (out, if pos == d.len() { Ok(()) } else { Err(no) }),
            Line::Entry(e) => { if let Ent::Dir(p) = &e { cur = Some(p.clone()) } out.push(e) }
        }
    }
}

// ---- index order ----
use std::cmp::Ordering;
fn cmp_bytes(a: &[u8], b: &[u8]) -> Ordering {
    for i in 0..a.len().min(b.len()) {
        if a[i] != b[i] { return if a[i] < b[i] { Ordering::Less } else { Ordering::Greater } }
    }
    a.len().cmp(&b.len())
}
pub fn comps(p: &[u8]) -> Vec<&[u8]> { p.split(|b| *b == b'/').filter(|c| !c.is_empty() && *c != b".").collect() }
fn cmp_comps(a: &[&[u8]], b: &[&[u8]]) -> Ordering {
    for i in 0..a.len().min(b.len()) {
        match cmp_bytes(a[i], b[i]) { Ordering::Equal => {} o => return o }
    }
    a.len().cmp(&b.len())
}
/// The order in which an index lists entries: by directory (component-wise); inside a directory the
/// directory line itself, then its files and links by name.
pub fn order(ad: bool, a: &[u8], bd: bool, b: &[u8]) -> Ordering {
    let (ca, cb) = (comps(a), comps(b));
    let (da, db) = (if ad { &ca[..] } else { &ca[..ca.len() - 1] }, if bd { &cb[..] } else { &cb[..cb.len() - 1] });
    match cmp_comps(da, db) {
        Ordering::Equal => match (ad, bd) {
            (true, true) => Ordering::Equal,
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            (false, false) => cmp_bytes(ca[ca.len() - 1], cb[cb.len() - 1]),
        },
        o => o,
    }
}
