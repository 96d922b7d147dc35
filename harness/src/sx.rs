//! Interface to the symbolic executor (symbolic build) or to the replay runtime (native build).
#![allow(dead_code)]
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn sym_assume(c: bool);
    fn sym_check(c: bool, m: *const u8, n: usize);
    fn sym_cover(m: *const u8, n: usize);
    fn sym_fail(m: *const u8, n: usize) -> !;
    fn sym_reject() -> !;
    fn sym_end() -> !;
    fn sym_log(name: *const u8, nl: usize, p: *const u8, n: usize);
    fn sym_param(name: *const u8, nl: usize) -> u64;
    fn sym_concretize(v: u64) -> u64;
    fn sym_heap(start: bool) -> u64;
}
/// Fill `b` with unconstrained bytes.
pub fn fill(name: &str, b: &mut [u8]) { if !b.is_empty() { unsafe { sym_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) } } }
pub fn arr<const N: usize>(name: &str) -> [u8; N] { let mut b = [0u8; N]; fill(name, &mut b); b }
pub fn vec(name: &str, n: usize) -> Vec<u8> { let mut b = vec![0u8; n]; fill(name, &mut b); b }
pub fn byte(name: &str) -> u8 { arr::<1>(name)[0] }
pub fn u64v(name: &str) -> u64 { u64::from_le_bytes(arr::<8>(name)) }
/// A symbolic value in 0..n, explored value by value.
pub fn choose(name: &str, n: usize) -> usize {
    if n <= 1 { return 0 }
    let b = byte(name);
    assume((b as usize) < n);
    conc(b as u64) as usize
}
pub fn flag(name: &str) -> bool { choose(name, 2) == 1 }
pub fn conc(v: u64) -> u64 { unsafe { sym_concretize(v) } }
pub fn assume(c: bool) { unsafe { sym_assume(c) } }
pub fn check(c: bool, m: &str) { unsafe { sym_check(c, m.as_ptr(), m.len()) } }
pub fn fail(m: &str) -> ! { unsafe { sym_fail(m.as_ptr(), m.len()) } }
pub fn reject() -> ! { unsafe { sym_reject() } }
/// Any error number but that of an interruption.
pub fn errno() -> i32 { let e = byte("errno"); assume(e != 0 && e < 134 && e != 4); e as i32 }
/// This path ends here, in order.
pub fn end() -> ! { unsafe { sym_end() } }
pub fn cover(m: &str) { unsafe { sym_cover(m.as_ptr(), m.len()) } }
pub fn log(name: &str, b: &[u8]) { unsafe { sym_log(name.as_ptr(), name.len(), b.as_ptr(), b.len()) } }
pub fn param(name: &str) -> usize { unsafe { sym_param(name.as_ptr(), name.len()) as usize } }
/// Bytes equal (one expression, no early exit).
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}

/// Bytes allocated now; the most allocated at once since then.
pub fn heap_mark() -> u64 { unsafe { sym_heap(true) } }
pub fn heap_peak() -> u64 { unsafe { sym_heap(false) } }
