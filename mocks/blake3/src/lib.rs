//! Stand-in for the blake3 crate: same interface and life cycle (finalize leaves the state), small digest.
use std::fmt;
pub const OUT_LEN: usize = 32;
// A digest that is injective on inputs of up to 28 bytes and sensitive to every byte of longer ones,
// small enough to be executed symbolically.  `tag` separates the hash types.
#[derive(Clone)]
struct Core { tag: u8, len: u64, acc: [u8; 28] }
impl Core {
    const fn new(tag: u8) -> Core { Core { tag, len: 0, acc: [tag; 28] } }
    fn feed(&mut self, d: &[u8]) {
        for &b in d {
            let i = (self.len % 28) as usize;
            self.acc[i] = self.acc[i].rotate_left(3) ^ b;
            self.len += 1;
        }
    }
    // an injective arrangement in which the first and the last byte can have every value
    fn out(&self) -> [u8; 32] {
        let mut o = [0u8; 32];
        o[..28].copy_from_slice(&self.acc);
        o[28] = self.tag;
        o[29] = (self.len >> 16) as u8;
        o[30] = (self.len >> 8) as u8;
        o[31] = self.len as u8 ^ o[0];
        o
    }
}
#[derive(Clone)]
pub struct Hasher(Core);
impl Default for Hasher { fn default() -> Self { Hasher::new() } }
impl fmt::Debug for Hasher { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Hasher") } }
impl Hasher {
    pub fn new() -> Hasher { Hasher(Core::new(0xb3)) }
    pub fn update(&mut self, d: &[u8]) -> &mut Self { self.0.feed(d); self }
    pub fn finalize(&self) -> Hash { Hash(self.0.out()) }
    pub fn reset(&mut self) -> &mut Self { self.0 = Core::new(0xb3); self }
    pub fn count(&self) -> u64 { self.0.len }
}
impl std::io::Write for Hasher {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.feed(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
pub fn hash(d: &[u8]) -> Hash { let mut h = Hasher::new(); h.update(d); h.finalize() }
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Hash([u8; 32]);
pub struct HexString([u8; 64]);
impl HexString { pub fn as_str(&self) -> &str { unsafe { std::str::from_utf8_unchecked(&self.0) } } }
impl std::ops::Deref for HexString { type Target = str; fn deref(&self) -> &str { self.as_str() } }
impl AsRef<str> for HexString { fn as_ref(&self) -> &str { self.as_str() } }
impl fmt::Display for HexString { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.as_str()) } }
impl Hash {
    pub const fn as_bytes(&self) -> &[u8; 32] { &self.0 }
    pub const fn from_bytes(b: [u8; 32]) -> Hash { Hash(b) }
    pub fn to_hex(&self) -> HexString {
        let t = b"0123456789abcdef";
        let mut s = [0u8; 64];
        for (i, b) in self.0.iter().enumerate() { s[2 * i] = t[(b >> 4) as usize]; s[2 * i + 1] = t[(b & 15) as usize]; }
        HexString(s)
    }
}
impl From<Hash> for [u8; 32] { fn from(h: Hash) -> [u8; 32] { h.0 } }
impl From<[u8; 32]> for Hash { fn from(h: [u8; 32]) -> Hash { Hash(h) } }
impl fmt::Display for Hash { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.to_hex().as_str()) } }
impl fmt::Debug for Hash { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.to_hex().as_str()) } }
