//! Stand-in for the blake2 crate: same interface and life cycle (dirty finalize, reset), small digest.
pub use digest::{self, Digest};
use digest::{InvalidOutputSize, Reset, Update, VariableOutputDirty};
// A digest that is injective on inputs of up to 28 bytes and sensitive to every byte of longer ones,
// small enough to be executed symbolically.  `tag` separates the hash types.
#[derive(Clone)]
struct Core { tag: u8, len: u64, acc: [u8; 28] }
impl Core {
    const fn new(tag: u8) -> Core { Core { tag, len: 0, acc: [tag; 28] } }
    fn feed(&mut self, d: &[u8]) {
        for &b in d {
            let i = (self.len % 28) as usize;
            self.acc[i] = self.acc[i].rotate_left(3) ^ b;
            self.len += 1;
        }
    }
    // an injective arrangement in which the first and the last byte can have every value
    fn out(&self) -> [u8; 32] {
        let mut o = [0u8; 32];
        o[..28].copy_from_slice(&self.acc);
        o[28] = self.tag;
        o[29] = (self.len >> 16) as u8;
        o[30] = (self.len >> 8) as u8;
        o[31] = self.len as u8 ^ o[0];
        o
    }
}
#[derive(Clone)]
pub struct VarBlake2b(Core, usize);
impl std::fmt::Debug for VarBlake2b { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("VarBlake2b") } }
impl Update for VarBlake2b { fn update(&mut self, d: impl AsRef<[u8]>) { self.0.feed(d.as_ref()) } }
impl VariableOutputDirty for VarBlake2b {
    fn new(n: usize) -> Result<Self, InvalidOutputSize> {
        if n == 0 || n > 64 { return Err(InvalidOutputSize) }
        Ok(VarBlake2b(Core::new(0xb2), n))
    }
    fn output_size(&self) -> usize { self.1 }
    fn finalize_variable_dirty(&mut self, f: impl FnOnce(&[u8])) {
        let mut o = [0u8; 64];
        o[..32].copy_from_slice(&self.0.out());
        self.0.feed(b"\xdddirty");
        f(&o[..self.1])
    }
}
impl Reset for VarBlake2b { fn reset(&mut self) { self.0 = Core::new(0xb2) } }
impl std::io::Write for VarBlake2b {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.feed(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
