//! C01 escaping, C02 emit/parse round trip.
use crate::refm::{self, Ent};
use crate::sx;
use crate::util::*;
use dir_signature::v1::{Emitter, Entry, Hashes, Parser};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;

/// A single symbolic name of up to `len` bytes in each place a name can occur.
#[no_mangle] pub extern "C" fn c01_escape() {
    let n = 1 + sx::choose("len", sx::param("len"));
    let place = sx::choose("place", 3);
    let name = sx::vec("name", n);
    let mut out = Vec::new();
    let mut want;
    {
        let mut e = Emitter::new(refm::hash_type(0), 32768, &mut out).unwrap();
        match place {
            0 => {
                let mut d = b"/".to_vec();
                d.extend_from_slice(&name);
                e.start_dir(path(&d)).unwrap();
                want = refm::escape(&d);
                want.push(b'\n');
            }
            1 => {
                for b in &name { sx::assume(*b != b'/'); }
                if n <= 2 { sx::assume(!(name[0] == b'.' && name[n - 1] == b'.')); }
                e.start_dir(path(b"/")).unwrap();
                e.add_symlink(OsStr::from_bytes(&name), path(b"t")).unwrap();
                want = b"/\n  ".to_vec();
                want.extend(refm::escape(&name));
                want.extend_from_slice(b" s t\n");
            }
            _ => {
                e.start_dir(path(b"/")).unwrap();
                e.add_symlink(OsStr::from_bytes(b"l"), path(&name)).unwrap();
                want = b"/\n  l s ".to_vec();
                want.extend(refm::escape(&name));
                want.push(b'\n');
            }
        }
        e.finish().unwrap();
    }
    let h = header(0, 32768).len();
    sx::check(out.len() == h + want.len() + 65 && sx::eq(&out[h..h + want.len()], &want), "C01: the name is not written in the documented escaped form");
    for b in &want { sx::check(*b > 0x20 && *b < 0x7f || *b == b' ' || *b == b'\n', "C01: an index line holds a byte outside 0x21..0x7e"); }
    let mut p = match Parser::new(&out[..]) { Ok(p) => p, Err(_) => sx::fail("C01: the written index is refused") };
    let mut it = p.iter();
    if place > 0 { let _ = it.next(); }
    match (place, it.next()) {
        (0, Some(Ok(Entry::Dir(p)))) => sx::check(pbytes(&p)[0] == b'/' && sx::eq(&pbytes(&p)[1..], &name), "C01: a directory path read back differs"),
        (1, Some(Ok(Entry::Link(p, d)))) => {
            sx::check(sx::eq(pbytes(&p), &refm::join(b"/", &name)), "C01: a file name read back differs");
            sx::check(pbytes(&d) == b"t", "C01: a link target read back differs");
        }
        (2, Some(Ok(Entry::Link(p, d)))) => {
            sx::check(pbytes(&p) == b"/l", "C01: a file name read back differs");
            sx::check(sx::eq(pbytes(&d), &name), "C01: a link target read back differs");
        }
        _ => sx::fail("C01: a written name is not read back"),
    }
    sx::check(it.next().is_none(), "C01: extra entries are read back");
    if name[0] == b'\\' { sx::cover("backslash first"); }
    if name[0] >= 0x80 { sx::cover("non-ascii"); }
    if n == sx::param("len") { sx::cover("full length"); }
}

/// A session of `ops` emitter calls, finished, then parsed.
#[no_mangle] pub extern "C" fn c02_session() {
    let ht = sx::choose("hash", 3);
    let bs = [1u64, 2, 32768, u64::MAX][sx::choose("block_size", sx::param("sizes"))];
    let ops = 1 + sx::choose("ops", sx::param("ops"));
    let mut out = Vec::new();
    let mut want: Vec<Ent> = Vec::new();
    let mut lines = Vec::new();
    {
        let mut e = match Emitter::new(refm::hash_type(ht), bs, &mut out) { Ok(e) => e, Err(_) => sx::fail("C02: emitter refuses the header") };
        let mut cur = b"/".to_vec();
        for i in 0..ops {
            let k = if i == 0 { 0 } else { sx::choose("op", 4) };
            let n = sx::vec("name", 1 + sx::choose("name len", sx::param("name")));
            sx::assume(n[0] != b'.');
            for b in &n { sx::assume(*b != b'/'); }
            match k {
                0 => {
                    if i > 0 { cur = refm::join(&cur, &n); }
                    e.start_dir(path(&cur)).unwrap();
                    lines.extend(refm::escape(&cur));
                    want.push(Ent::Dir(cur.clone()));
                }
                1 => {
                    let d = sx::vec("dest", 1 + sx::choose("dest len", sx::param("name")));
                    e.add_symlink(OsStr::from_bytes(&n), path(&d)).unwrap();
                    lines.extend_from_slice(b"  ");
                    lines.extend(refm::escape(&n));
                    lines.extend_from_slice(b" s ");
                    lines.extend(refm::escape(&d));
                    want.push(Ent::Link(refm::join(&cur, &n), d));
                }
                _ => {
                    let len = if k == 2 { 0 } else { 1 + sx::choose("size", 2) };
                    let exe = sx::flag("exe");
                    let data = sx::vec("data", len);
                    // the hash list is what hashing the content gives; its bytes are what has to survive
                    let (size, h) = match Hashes::hash_file(refm::hash_type(ht), bs, &data[..]) { Ok(x) => x, Err(_) => sx::fail("C02: hashing memory fails") };
                    let mut hb = Vec::new();
                    for x in h.iter() { hb.extend_from_slice(x); }
                    e.add_file(OsStr::from_bytes(&n), exe, size, &h).unwrap();
                    lines.extend_from_slice(b"  ");
                    lines.extend(refm::escape(&n));
                    lines.extend_from_slice(if exe { b" x " } else { b" f " });
                    lines.extend(refm::dec(size));
                    for c in hb.chunks(32) { lines.push(b' '); lines.extend(refm::hex(c)); }
                    want.push(Ent::File { path: refm::join(&cur, &n), exe, size, hashes: hb });
                }
            }
            lines.push(b'\n');
        }
        if e.finish().is_err() { sx::fail("C02: finish fails on memory") }
    }
    let hd = header(ht, bs);
    let mut text = hd.clone();
    text.extend_from_slice(&lines);
    text.extend(refm::hex(&refm::hash(ht, &lines)));
    text.push(b'\n');
    sx::check(sx::eq(&out, &text), "C02: the emitted text is not the documented layout");
    if sx::param("footer") == 0 {
        // the footer was compared above; every symbolic digit read back is a case split
        let at = out.len() - 65;
        out[at..at + 64].copy_from_slice(&hex64(9));
    }
    let mut p = match Parser::new(&out[..]) { Ok(p) => p, Err(_) => sx::fail("C02: the emitted header is refused") };
    let h = p.get_header();
    sx::check(h.get_version() == "v1" && h.get_hash_type() == refm::hash_type(ht) && h.get_block_size() == bs, "C02: the header read back differs");
    let mut it = p.iter();
    for w in &want {
        match it.next() {
            Some(Ok(e)) => sx::check(same(&e, w, ht, bs), "C02: an entry read back differs"),
            Some(Err(_)) => sx::fail("C02: an emitted line is refused"),
            None => sx::fail("C02: an entry is missing"),
        }
    }
    match it.next() { None => sx::cover("complete"), Some(Ok(_)) => sx::fail("C02: an extra entry is read back"), Some(Err(_)) => sx::fail("C02: the emitted footer is refused") }
    if want.len() == sx::param("ops") { sx::cover("full session"); }
}

/// One file entry with an arbitrary size and block size (one block), written and read back.
#[no_mangle] pub extern "C" fn c02_size() {
    let list = [1u64, 9, 10, 255, 256, 32768, 99999, 1 << 32, 9_999_999_999, 1 << 63, u64::MAX - 1, u64::MAX];
    let (size, bs);
    if sx::flag("symbolic size") {
        bs = u64::MAX;
        let d = 1 + sx::choose("digits", sx::param("digits"));
        size = bounded(d);
    } else {
        bs = list[sx::choose("block_size", list.len())];
        size = list[sx::choose("size", list.len())];
        sx::assume(size <= bs);
    }
    let mut src = Vec::new();
    src.extend(header(0, bs));
    src.extend_from_slice(b"/\n  a f 1 ");
    src.extend(hex64(3));
    src.push(b'\n');
    let mut p = open(&src);
    let mut it = p.iter();
    let _ = it.next();
    let h = match it.next() { Some(Ok(Entry::File { hashes, .. })) => hashes, _ => sx::fail("C02: one-block row refused") };
    let mut out = Vec::new();
    {
        let mut e = Emitter::new(refm::hash_type(0), bs, &mut out).unwrap();
        e.start_dir(path(b"/")).unwrap();
        e.add_file(OsStr::new("a"), true, size, &h).unwrap();
        e.finish().unwrap();
    }
    let mut p = match Parser::new(&out[..]) { Ok(p) => p, Err(_) => sx::fail("C02: the emitted header is refused") };
    sx::check(p.get_header().get_block_size() == bs, "C02: the header read back differs");
    let mut it = p.iter();
    let _ = it.next();
    match it.next() {
        Some(Ok(Entry::File { size: n, hashes, exe, .. })) => {
            sx::check(n == size, "C02: the size read back differs");
            sx::check(exe && hashes == h, "C02: an entry read back differs");
            sx::cover("size");
        }
        _ => sx::fail("C02: an emitted line is refused"),
    }
}
/// A symbolic number with exactly `d` decimal digits.
pub fn bounded(d: usize) -> u64 {
    let n = sx::u64v("number");
    let mut lo = 1u64;
    for _ in 1..d { lo *= 10; }
    sx::assume(n >= lo);
    if d < 20 { sx::assume(n <= lo.wrapping_mul(9).wrapping_add(lo - 1)); }
    n
}
