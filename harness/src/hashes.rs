//! C10 block hashes, C11 checking, C12 arrival of the bytes, C18 get_hash, C22 hash lists.
use crate::refm;
use crate::sx;
use crate::util::*;
use dir_signature::v1::{Entry, Hashes, Parser};
use std::io::{self, BufRead, ErrorKind, Read, Seek, SeekFrom};

/// A source that splits the data, interrupts and fails as the solver likes.
pub struct Src<'a> { pub data: &'a [u8], pub pos: u64, pub len: u64, pub shorts: usize, pub ints: usize, pub errs: usize, pub failed: bool, pub eofs: usize }
impl<'a> Src<'a> {
    pub fn new(data: &'a [u8], shorts: usize, ints: usize, errs: usize) -> Src<'a> { Src { data, pos: 0, len: data.len() as u64, shorts, ints, errs, failed: false, eofs: 0 } }
    /// How much of `n` available bytes the next read gives, or why it gives none.
    fn plan(&mut self, n: usize) -> io::Result<usize> {
        let mut opts = [0u8; 4];
        let mut k = 1;
        if self.shorts > 0 && n > 1 { opts[k] = 1; k += 1; }
        if self.ints > 0 { opts[k] = 2; k += 1; }
        if self.errs > 0 { opts[k] = 3; k += 1; }
        match opts[sx::choose("read", k)] {
            0 => Ok(n),
            1 => { self.shorts -= 1; sx::cover("short read"); Ok(cut(n)) }
            2 => { self.ints -= 1; sx::cover("interrupted"); Err(ErrorKind::Interrupted.into()) }
            _ => { self.errs -= 1; self.failed = true; sx::cover("read error"); Err(if sx::flag("early end") { ErrorKind::UnexpectedEof.into() } else { io::Error::from_raw_os_error(sx::errno()) }) }
        }
    }
}
/// How much of `n` bytes a short transfer moves.
pub fn cut(n: usize) -> usize {
    if sx::param("anycut") == 1 { return 1 + sx::choose("cut", n - 1) }
    if n > 2 && sx::flag("all but one") { n - 1 } else { 1 }
}
impl<'a> Read for Src<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let left = (self.len - self.pos) as usize;
        let n = self.plan(buf.len().min(left))?;
        let p = self.pos as usize;
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        if n == 0 { self.eofs += 1; }
        Ok(n)
    }
}
impl<'a> BufRead for Src<'a> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let p = self.pos as usize;
        let left = self.data.len() - p;
        let n = if left == 0 { 0 } else { self.plan(left)? };
        Ok(&self.data[p..p + n])
    }
    fn consume(&mut self, n: usize) { self.pos += n as u64; }
}
impl<'a> Seek for Src<'a> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let t = match s { SeekFrom::Start(x) => x as i128, SeekFrom::End(x) => self.len as i128 + x as i128, SeekFrom::Current(x) => self.pos as i128 + x as i128 };
        if t < 0 { return Err(ErrorKind::InvalidInput.into()) }
        self.pos = t as u64;
        Ok(self.pos)
    }
}
fn flat(h: &Hashes) -> Vec<u8> { let mut v = Vec::new(); for x in h.iter() { v.extend_from_slice(x); } v }
/// The hash of every block alone, and (finding K1) what blake3 gives when the hasher is never reset.
pub fn blocks(ht: usize, bs: u64, d: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let (mut v, mut k1) = (Vec::new(), Vec::new());
    let mut i = 0;
    while i < d.len() {
        let e = if (d.len() - i) as u64 <= bs { d.len() } else { i + bs as usize };
        v.extend_from_slice(&refm::hash(ht, &d[i..e]));
        k1.extend_from_slice(&refm::hash(ht, &d[..e]));
        i = e;
    }
    (v, k1)
}
/// K1 is listed in known_findings.txt: accept exactly that deviation.
pub fn known(k: u32) -> bool { sx::param("known") >> k & 1 == 1 }
pub fn expect_blocks(got: &[u8], ht: usize, bs: u64, d: &[u8], what: &str) {
    let (want, k1) = blocks(ht, bs, d);
    if ht == 2 && want.len() > 32 && known(1) {
        // cumulative hashes, as the finding describes
        let ok = sx::eq(got, &want);
        if !ok { sx::check(sx::eq(got, &k1), what); sx::cover("finding K1"); }
        return;
    }
    sx::check(sx::eq(got, &want), what);
}
fn block_size(n: usize) -> u64 {
    let k = sx::choose("block size", n + 2);
    if k < n { k as u64 + 1 } else if k == n { 32768 } else { u64::MAX }
}
#[no_mangle] pub extern "C" fn c10_hash_file() {
    let ht = sx::choose("hash", 3);
    let n = sx::choose("len", sx::param("len") + 1);
    let bs = block_size(sx::param("bs"));
    let d = sx::vec("data", n);
    let mut s = Src::new(&d, sx::param("shorts"), 0, 0);
    match Hashes::hash_file(refm::hash_type(ht), bs, &mut s) {
        Ok((size, h)) => {
            sx::check(size == n as u64, "C10: the size is not the number of bytes in the file");
            let want = n as u64 / bs + (n as u64 % bs != 0) as u64;
            sx::check(h.len() as u64 == want, "C10: the number of hashes is not ceil(size/block_size)");
            sx::check(h.block_size() == bs && h.hash_type() == refm::hash_type(ht), "C10: hash type or block size differs");
            expect_blocks(&flat(&h), ht, bs, &d, "C10: a hash is not the hash of its block alone");
            if n == 0 { sx::cover("empty") }
            if h.len() > 1 { sx::cover("several blocks") }
            if n > 0 && n as u64 % bs == 0 { sx::cover("whole blocks") }
            sx::log("n", &[h.len() as u8, size as u8]);
        }
        Err(_) => sx::fail("C10: hashing readable data fails"),
    }
}
/// Around the 8 KiB steps of a copy loop: any byte near a step changes the hash of its block, and no other.
#[no_mangle] pub extern "C" fn c10_large() {
    let ht = sx::choose("hash", 2);
    let n = [8191usize, 8192, 8193, 16384, 16385, 20000][sx::choose("len", 6)];
    let bs = [4096u64, 8191, 8192, 8193, 32768][sx::choose("block size", 5)];
    let mut d: Vec<u8> = vec![0; n];
    for i in (0..n).step_by(509) { d[i] = i as u8 ^ (i >> 8) as u8; }
    let at = [0usize, 4095, 8190, 8191, 8192, 8193, n - 1][sx::choose("at", 7)];
    if at >= n { sx::reject() }
    d[at] = sx::byte("byte");
    let mut s = Src::new(&d, sx::param("shorts"), 0, 0);
    match Hashes::hash_file(refm::hash_type(ht), bs, &mut s) {
        Ok((size, h)) => {
            sx::check(size == n as u64, "C10: the size is not the number of bytes in the file");
            sx::check(h.len() as u64 == n as u64 / bs + (n as u64 % bs != 0) as u64, "C10: the number of hashes is not ceil(size/block_size)");
            expect_blocks(&flat(&h), ht, bs, &d, "C10: a hash is not the hash of its block alone");
            if h.len() > 1 { sx::cover("several blocks") } else { sx::cover("one block") }
        }
        Err(_) => sx::fail("C10: hashing readable data fails"),
    }
}
#[no_mangle] pub extern "C" fn c11_check() {
    let ht = sx::choose("hash", 3);
    let bs = block_size(sx::param("bs"));
    let n = sx::choose("len", sx::param("len") + 1);
    let m = sx::choose("stream len", sx::param("len") + 1);
    let d = sx::vec("data", n);
    let e = sx::vec("stream", m);
    let h = match Hashes::hash_file(refm::hash_type(ht), bs, &d[..]) { Ok((_, h)) => h, Err(_) => sx::fail("C11: hashing readable data fails") };
    let mut s = Src::new(&e, sx::param("shorts"), sx::param("ints"), sx::param("errs"));
    match h.check_file(&mut s) {
        Ok(r) => {
            if s.failed { sx::check(!r, "C11: a check passes although the content could not be read"); return }
            if r { sx::check(sx::eq(&d, &e), "C11: a check passes for other content"); sx::cover("passes"); }
            else { sx::check(!sx::eq(&d, &e), "C11: a check of the recorded content fails"); sx::cover("fails"); }
            if !r && n == m { sx::cover("changed byte") }
            sx::log("same", &[r as u8]);
        }
        Err(_) => { if !s.failed { sx::fail("C11: checking readable data fails") } sx::cover("unreadable") }
    }
}
/// Hashing and checking under every arrival; an error of the source is an error of the call.
#[no_mangle] pub extern "C" fn c12_hash() {
    let ht = sx::choose("hash", 2);
    let bs = block_size(sx::param("bs"));
    let n = sx::choose("len", sx::param("len") + 1);
    let d = sx::vec("data", n);
    let (size, h) = match Hashes::hash_file(refm::hash_type(ht), bs, &d[..]) { Ok(x) => x, Err(_) => sx::fail("C12: hashing memory fails") };
    let mut s = Src::new(&d, sx::param("shorts"), sx::param("ints"), 1);
    if sx::flag("check") {
        // every recorded block intact, one changed, or data missing
        let what = sx::choose("stream", 3);
        let mut e = d.clone();
        if what == 1 { e.push(7) }
        if what == 2 { if n == 0 { sx::reject() } e[n - 1] ^= 1 }
        let mut s = Src::new(&e, sx::param("shorts"), sx::param("ints"), 1);
        let r = h.check_file(&mut s);
        match r {
            Ok(b) => { if s.failed { sx::fail("C12: a read error is hidden by check_file") } sx::check(b == (what == 0), "C12: check_file depends on how the bytes arrive"); sx::cover("checked"); }
            Err(_) => { if !s.failed { sx::fail("C12: check_file reports an error although no read failed") } sx::cover("check error"); }
        }
        return;
    }
    match Hashes::hash_file(refm::hash_type(ht), bs, &mut s) {
        Ok((z, g)) => {
            if s.failed { sx::fail("C12: a read error is hidden by hash_file") }
            sx::check(z == size && sx::eq(&flat(&g), &flat(&h)), "C12: hash_file depends on how the bytes arrive");
            sx::cover("hashed");
        }
        Err(_) => { if !s.failed { sx::fail("C12: hash_file reports an error although no read failed") } sx::cover("hash error"); }
    }
}
/// Parsing under every arrival (own BufRead, or a BufReader of some capacity).
#[no_mangle] pub extern "C" fn c12_parse() {
    let bodies: [&[u8]; 3] = [b"/\n  a s b\n", b"/\n  a f 0\n/b\n", b"/\n  a q\n"];
    let which = sx::choose("index", 3);
    let mut t = header(0, 2);
    t.extend_from_slice(bodies[which]);
    let at = header(0, 2).len() + 4;
    t[at] = sx::byte("name");
    let mut t = with_footer(t);
    let extra = sx::choose("extra", 3);
    if extra == 1 { t.push(b'\n'); }
    if extra == 2 { t.pop(); }
    let (want, end) = refm::body(&t[header(0, 2).len()..], 2);
    let mut s = Src::new(&t, sx::param("shorts"), sx::param("ints"), 1);
    match sx::choose("reader", 3) {
        0 => parse_all(&mut s, &want, end.is_ok()),
        1 => parse_all(&mut io::BufReader::with_capacity([7, 1, 2, 64][sx::choose("capacity", sx::param("capacities"))], &mut s), &want, end.is_ok()),
        _ => parse_all(&mut io::BufReader::with_capacity(300, &mut s), &want, end.is_ok()),
    }
}
trait Failed { fn failed(&self) -> bool; }
impl<'a> Failed for Src<'a> { fn failed(&self) -> bool { self.failed } }
impl<'a, 'b> Failed for io::BufReader<&'b mut Src<'a>> { fn failed(&self) -> bool { self.get_ref().failed } }
fn parse_all<R: BufRead + Failed>(r: &mut R, want: &[refm::Ent], good: bool) {
    let failed = |x: &R| x.failed();
    let mut p = match Parser::new(&mut *r) {
        Ok(p) => p,
        Err(_) => { if !failed(r) { sx::fail("C12: Parser::new fails although no read failed") } sx::cover("header error"); return }
    };
    let mut got = Vec::new();
    let mut err = false;
    {
        let mut it = p.iter();
        loop {
            match it.next() {
                None => break,
                Some(Ok(e)) => { got.push(e); if got.len() > want.len() { break } }
                Some(Err(_)) => { err = true; break }
            }
        }
    }
    let r = p.into_reader();
    let f = failed(r);
    if f {
        sx::check(err, "C12: a read error is hidden by the parser");
        sx::check(got.len() <= want.len(), "C12: entries appear when a read fails");
        sx::cover("parse error");
    } else {
        sx::check(got.len() == want.len() && err != good, "C12: parsing depends on how the bytes arrive");
        sx::cover("parsed");
    }
    let mut ok = true;
    for (e, w) in got.iter().zip(want) { ok &= same(e, w, 0, 2) }
    sx::check(ok, "C12: entries depend on how the bytes arrive");
}
/// get_hash under every arrival.
#[no_mangle] pub extern "C" fn c12_get_hash() {
    let ht = sx::choose("hash", 3);
    let mut t = header(ht, 2);
    t.extend_from_slice(b"/\n");
    let want = some_hash("footer");
    t.extend(refm::hex(&want));
    t.push(b'\n');
    let bad = sx::choose("extra", 3);
    if bad == 1 { t.push(b'\n') }
    if bad == 2 { t.pop(); }
    let mut s = Src::new(&t, sx::param("shorts"), sx::param("ints"), 1);
    match dir_signature::get_hash(&mut s) {
        Ok(h) => {
            if s.failed { sx::fail("C12: a read error is hidden by get_hash") }
            if bad != 0 { sx::fail("C12: get_hash accepts a bad footer") }
            sx::check(sx::eq(&h, &want), "C12: get_hash depends on how the bytes arrive");
            sx::cover("hash");
        }
        Err(_) => { if !s.failed && bad == 0 { sx::fail("C12: get_hash fails although no read failed") } sx::cover(if s.failed { "hash error" } else { "bad footer" }); }
    }
}

/// A hash with one symbolic byte (every digit of it would be a case split).
fn some_hash(tag: &str) -> [u8; 32] {
    let mut h = [0u8; 32];
    for i in 0..32 { h[i] = (i * 37 + 11) as u8; }
    let at = [0, 17, 31][sx::choose(tag, 3)];
    h[at] = sx::byte(tag);
    h
}
/// A file of symbolic length whose first and last bytes are given.
struct Virt<'a> { head: &'a [u8], tail: &'a [u8], len: u64, pos: u64, at_tail: Option<usize> }
impl<'a> Read for Virt<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let (src, from): (&[u8], usize) = match self.at_tail { Some(k) => (self.tail, k), None => (self.head, self.pos as usize) };
        let from = from.min(src.len());
        let n = buf.len().min(src.len() - from);
        buf[..n].copy_from_slice(&src[from..from + n]);
        match &mut self.at_tail { Some(k) => *k += n, None => self.pos += n as u64 }
        Ok(n)
    }
}
impl<'a> Seek for Virt<'a> {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        match s {
            SeekFrom::End(x) => {
                let back = (x as i128).unsigned_abs() as u64;
                if x > 0 || back > self.len { return Err(ErrorKind::InvalidInput.into()) }
                // the middle of the file is not laid out; nobody may look at it
                if back as usize > self.tail.len() { sx::reject() }
                self.at_tail = Some(self.tail.len() - back as usize);
                Ok(self.len - back)
            }
            SeekFrom::Start(x) if x <= self.head.len() as u64 => { self.pos = x; self.at_tail = None; Ok(x) }
            SeekFrom::Start(x) => {
                for k in 0..=self.tail.len() { if x == self.len - k as u64 { self.at_tail = Some(self.tail.len() - k); return Ok(x) } }
                sx::reject()
            }
            SeekFrom::Current(x) => {
                let now = match self.at_tail { Some(k) => self.len - (self.tail.len() - k) as u64, None => self.pos };
                if x == 0 { return Ok(now) }
                self.seek(SeekFrom::Start(now.wrapping_add(x as u64)))
            }
        }
    }
}
#[no_mangle] pub extern "C" fn c18_long() {
    let ht = sx::choose("hash", 3);
    let head = header(ht, 1);
    let mut head = head[..head.len().min(64)].to_vec();
    head.resize(64, b'/');
    let h = some_hash("footer");
    let upper = sx::flag("upper");
    let mut tail = vec![b'x'; 40];
    tail.push(b'\n');
    tail.extend(refm::hex(&h));
    if upper { for b in &mut tail[41..] { b.make_ascii_uppercase(); } }
    tail.push(b'\n');
    let len = sx::u64v("length");
    sx::assume(len >= 200);
    sx::assume(len < 1 << 63);
    let mut f = Virt { head: &head, tail: &tail, len, pos: 0, at_tail: None };
    match dir_signature::get_hash(&mut f) {
        Ok(g) => { sx::check(sx::eq(&g, &h), "C18: get_hash returns another value than the last line"); sx::cover("accepted"); }
        Err(_) => sx::fail("C18: get_hash refuses a complete index"),
    }
}
/// A short file: header and footer with a symbolic window anywhere, any length from nothing to complete.
#[no_mangle] pub extern "C" fn c18_window() {
    let ht = sx::choose("hash", 3);
    let mut t = header(ht, 1);
    if sx::flag("body") { t.extend_from_slice(b"/\n"); }
    let t = with_footer(t);
    let w = sx::choose("window", sx::param("w") + 1);
    let del = sx::choose("removed", sx::param("w") + 1);
    let step = sx::param("hexstep");
    let (a, b) = (t.len() - 65, t.len() - 1);
    let places: Vec<usize> = (0..=t.len()).filter(|&i| !(i > a + 2 && i + 3 < b) || (i - a) % step == 0).collect();
    let at = places[sx::choose("place", places.len())];
    if at + del > t.len() { sx::reject() }
    let free = sx::vec("bytes", w);
    let mut d = t[..at].to_vec();
    d.extend_from_slice(&free);
    d.extend_from_slice(&t[at + del..]);
    judge(&d);
}
/// Files cut to every length, from the front and from the back.
#[no_mangle] pub extern "C" fn c18_cut() {
    let ht = sx::choose("hash", 3);
    let t = with_footer(header(ht, 32768));
    let n = sx::choose("length", t.len() + 1);
    if sx::flag("front") { judge(&t[t.len() - n..]) } else { judge(&t[..n]) }
}
fn judge(d: &[u8]) {
    let want = reference(d);
    match (dir_signature::get_hash(&mut io::Cursor::new(d)), want) {
        (Ok(g), Some(h)) => { sx::check(sx::eq(&g, &h), "C18: get_hash returns another value than the last line"); sx::cover("accepted"); sx::log("hash", &[1]); }
        (Err(_), None) => { sx::cover("refused"); sx::log("hash", &[0]); }
        (Ok(_), None) => sx::fail("C18: get_hash accepts a file that is not a complete index"),
        (Err(_), Some(_)) => sx::fail("C18: get_hash refuses a complete index"),
    }
}
fn reference(d: &[u8]) -> Option<Vec<u8>> {
    if d.len() < 32 || &d[..16] != b"DIRSIGNATURE.v1 " { return None }
    let e = 16 + d[16..32].iter().position(|b| *b == b' ')?;
    let ty = &d[16..e];
    if !refm::HASHES.iter().any(|h| h.as_bytes() == ty) { return None }
    if d.len() < 66 { return None }
    let f = &d[d.len() - 66..];
    if f[0] != b'\n' || f[65] != b'\n' { return None }
    let mut v = Vec::new();
    for i in 0..32 {
        let dig = |b: u8| match b { b'0'..=b'9' => Some(b - b'0'), b'a'..=b'f' => Some(b - b'a' + 10), b'A'..=b'F' => Some(b - b'A' + 10), _ => None };
        v.push(dig(f[1 + 2 * i])? * 16 + dig(f[2 + 2 * i])?);
    }
    Some(v)
}

#[no_mangle] pub extern "C" fn c22_list() {
    let ht = sx::choose("hash", 3);
    let k = sx::choose("hashes", sx::param("hashes") + 1);
    let bs = [1u64, 7, 1 << 63, u64::MAX][sx::choose("block size", 4)];
    let mut want = Vec::new();
    let mut t = header(ht, bs);
    t.extend_from_slice(b"/\n  a f ");
    // a size with exactly k blocks, if there is one
    let size = match (k as u64).checked_mul(bs) { Some(s) => s, None => sx::reject() };
    t.extend(refm::dec(size));
    for _ in 0..k {
        let h = some_hash("hash bytes");
        t.push(b' ');
        t.extend(refm::hex(&h));
        want.extend_from_slice(&h);
    }
    t.push(b'\n');
    let t = with_footer(t);
    let mut p = open(&t);
    let mut it = p.iter();
    let _ = it.next();
    let h = match it.next() { Some(Ok(Entry::File { hashes, .. })) => hashes, _ => sx::fail("C22: a well-formed row is refused") };
    let h = &h;
    sx::check(h.len() == k, "C22: len is not the number of hashes");
    let mut n = 0;
    for x in h.iter() {
        sx::check(x.len() == h.hash_type().output_bytes() && x.len() == 32, "C22: an item does not have the digest size");
        match h.get(n) { Some(g) => sx::check(sx::eq(g, x), "C22: get(i) differs from the i-th item"), None => sx::fail("C22: get(i) is None for i < len") }
        if (n + 1) * 32 > want.len() { sx::fail("C22: too many items") }
        sx::check(sx::eq(x, &want[n * 32..n * 32 + 32]), "C22: an item differs from the row");
        n += 1;
    }
    sx::check(n == k, "C22: iteration yields another number of items than len");
    let i = sx::u64v("index");
    if i >= k as u64 { sx::check(h.get(i as usize).is_none(), "C22: get(i) is Some for i >= len"); sx::cover("out of range"); }
    sx::check(h.block_size() == bs && h.hash_type() == refm::hash_type(ht), "C22: hash type or block size differs from the header");
    sx::check(h.clone() == *h, "C22: a clone is not equal");
    if k > 0 { sx::cover("items") }
}
/// Lists longer than any small counter, and any index.
#[no_mangle] pub extern "C" fn c22_long() {
    let n = [127usize, 128, 255, 256, 257, 511, 512, 1024, 2049][sx::choose("len", 9)];
    let mut d = vec![7u8; n];
    d[n - 1] = sx::byte("last");
    let h = match Hashes::hash_file(refm::hash_type(0), 1, &d[..]) { Ok((_, h)) => h, Err(_) => sx::fail("C22: hashing memory fails") };
    sx::check(h.len() == n, "C22: len is not the number of hashes");
    sx::check(h.iter().count() == n, "C22: iteration yields another number of items than len");
    let i = sx::u64v("index");
    match h.get(i as usize) {
        Some(g) => { sx::check(i < n as u64, "C22: get(i) is Some for i >= len"); sx::check(g.len() == 32, "C22: an item does not have the digest size"); sx::cover("in range"); }
        None => { sx::check(i >= n as u64, "C22: get(i) is None for i < len"); sx::cover("out of range"); }
    }
    let (a, b) = (h.get(n - 1), h.iter().last());
    match (a, b) { (Some(a), Some(b)) => sx::check(sx::eq(a, b), "C22: get(i) differs from the i-th item"), _ => sx::fail("C22: the last item is missing") }
}
/// Equality of two lists is equality of hash type, block size and every hash.
#[no_mangle] pub extern "C" fn c22_eq() {
    let mk = |tag: &str| {
        let ht = sx::choose(tag, 2);
        let bs = 1 + sx::choose(tag, 2) as u64;
        let n = sx::choose(tag, sx::param("len") + 1);
        let d = sx::vec(tag, n);
        match Hashes::hash_file(refm::hash_type(ht), bs, &d[..]) { Ok((_, h)) => (ht, bs, h), Err(_) => sx::fail("C22: hashing memory fails") }
    };
    let (a, b) = (mk("a"), mk("b"));
    let same = a.0 == b.0 && a.1 == b.1 && sx::eq(&flat(&a.2), &flat(&b.2));
    let e = a.2 == b.2;
    sx::check(e == same, "C22: == disagrees with hash type, block size and items");
    if e { sx::cover("equal") } else { sx::cover("different") }
}
