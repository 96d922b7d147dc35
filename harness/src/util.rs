#![allow(dead_code)]
use crate::refm::{self, Ent};
use crate::sx;
use dir_signature::v1::{Entry, EntryKind, Parser, ParseError};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

pub fn path(b: &[u8]) -> &Path { Path::new(OsStr::from_bytes(b)) }
pub fn pbytes(p: &Path) -> &[u8] { p.as_os_str().as_bytes() }
pub fn kind(dir: bool, p: &[u8]) -> EntryKind<&Path> { if dir { EntryKind::Dir(path(p)) } else { EntryKind::File(path(p)) } }

/// Does the entry returned by the library carry exactly the expected values?
pub fn same(e: &Entry, x: &Ent, ht: usize, bs: u64) -> bool {
    match (e, x) {
        (Entry::Dir(p), Ent::Dir(q)) => sx::eq(pbytes(p), q),
        (Entry::Link(p, d), Ent::Link(q, t)) => sx::eq(pbytes(p), q) & sx::eq(pbytes(d), t),
        (Entry::File { path, exe, size, hashes }, Ent::File { path: q, exe: x, size: n, hashes: h }) => {
            let mut got = Vec::new();
            for i in hashes.iter() { got.extend_from_slice(i); }
            sx::eq(pbytes(path), q) & (exe == x) & (size == n) & sx::eq(&got, h)
                & (hashes.len() * 32 == h.len()) & (hashes.block_size() == bs) & (hashes.hash_type() == refm::hash_type(ht))
        }
        _ => false,
    }
}
/// Line number printed in a parse error, if it is one ("Parse error at line N: ...").
pub fn error_line(e: &ParseError) -> Option<usize> {
    use std::fmt::Write;
    struct Buf([u8; 64], usize);
    impl Write for Buf { fn write_str(&mut self, s: &str) -> std::fmt::Result { for &b in s.as_bytes() { if self.1 < 64 { self.0[self.1] = b; self.1 += 1; } } Ok(()) } }
    let mut b = Buf([0; 64], 0);
    let _ = write!(b, "{}", e);
    let p = b"Parse error at line ";
    if &b.0[..p.len()] != p { return None }
    let mut n = 0;
    let mut i = p.len();
    while i < b.1 && b.0[i].is_ascii_digit() { n = n * 10 + (b.0[i] - b'0') as usize; i += 1; }
    Some(n)
}
pub fn header(ht: usize, bs: u64) -> Vec<u8> {
    let mut v = b"DIRSIGNATURE.v1 ".to_vec();
    v.extend_from_slice(refm::HASHES[ht].as_bytes());
    v.extend_from_slice(b" block_size=");
    v.extend(refm::dec(bs));
    v.push(b'\n');
    v
}
pub fn hex64(seed: u8) -> Vec<u8> { refm::hex(&(0..32u8).map(|i| i.wrapping_mul(7).wrapping_add(seed)).collect::<Vec<u8>>()) }
pub fn text(body: &[u8]) -> Vec<u8> { let mut v = header(0, 32768); v.extend_from_slice(body); v }
pub fn with_footer(mut v: Vec<u8>) -> Vec<u8> { v.extend(hex64(9)); v.push(b'\n'); v }
pub fn open(d: &[u8]) -> Parser<&[u8]> { match Parser::new(d) { Ok(p) => p, Err(_) => sx::fail("harness: header refused") } }
