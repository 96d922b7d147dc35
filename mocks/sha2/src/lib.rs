//! Stand-in for the sha2 crate: same interface and life cycle (dirty finalize, reset), small digest.
pub use digest::{self, Digest};
use digest::{consts::U32, generic_array::GenericArray, FixedOutputDirty, Reset, Update};
// A digest that is injective on inputs of up to 28 bytes and sensitive to every byte of longer ones,
// small enough to be executed symbolically.  `tag` separates the hash types.
#[derive(Clone)]
struct Core { tag: u8, len: u64, acc: [u8; 28] }
impl Core {
    const fn new(tag: u8) -> Core { Core { tag, len: 0, acc: [tag; 28] } }
    fn feed(&mut self, d: &[u8]) {
        for &b in d {
            let i = (self.len % 28) as usize;
            self.acc[i] = self.acc[i].rotate_left(3) ^ b;
            self.len += 1;
        }
    }
    // an injective arrangement in which the first and the last byte can have every value
    fn out(&self) -> [u8; 32] {
        let mut o = [0u8; 32];
        o[..28].copy_from_slice(&self.acc);
        o[28] = self.tag;
        o[29] = (self.len >> 16) as u8;
        o[30] = (self.len >> 8) as u8;
        o[31] = self.len as u8 ^ o[0];
        o
    }
}
#[derive(Clone)]
pub struct Sha512Trunc256(Core);
impl Default for Sha512Trunc256 { fn default() -> Self { Sha512Trunc256(Core::new(0x51)) } }
impl std::fmt::Debug for Sha512Trunc256 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Sha512Trunc256") } }
impl Update for Sha512Trunc256 { fn update(&mut self, d: impl AsRef<[u8]>) { self.0.feed(d.as_ref()) } }
impl FixedOutputDirty for Sha512Trunc256 {
    type OutputSize = U32;
    fn finalize_into_dirty(&mut self, out: &mut GenericArray<u8, U32>) {
        out.copy_from_slice(&self.0.out());
        self.0.feed(b"\xdddirty"); // what a missing reset leaves behind
    }
}
impl Reset for Sha512Trunc256 { fn reset(&mut self) { *self = Default::default() } }
impl std::io::Write for Sha512Trunc256 {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.feed(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
