#![allow(invalid_runtime_symbol_definitions)]
mod sx;
mod refm;
mod util;
mod names;
mod reader;
mod merge;
mod hashes;
mod posix;
mod scan;
mod cli;
mod long;
mod more;
mod bound;
#[cfg(feature = "native")]
mod native;
#[cfg(feature = "native")]
#[global_allocator]
static GLOBAL: native::Counting = native::Counting;

macro_rules! entries { ($($m:ident :: $f:ident),* $(,)?) => { #[used] static ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($f), $m::$f)),*]; } }
entries! {
    names::c01_escape, names::c02_session, names::c02_size,
    reader::c03_bytes, reader::c03_numbers, reader::c03_window, reader::c04_window, reader::c05_advance, reader::c06_pair, reader::c06_triple,
    reader::c19_emit, reader::c19_parse, reader::c20_lines,
    merge::c07_merge, merge::c07_bad, merge::c08_advance, merge::c09_same,
    hashes::c10_hash_file, hashes::c10_large, hashes::c11_check, hashes::c12_hash, hashes::c12_parse, hashes::c12_get_hash, hashes::c18_long, hashes::c18_window, hashes::c18_cut,
    scan::c10_scan, scan::c13_scan, scan::c14_threads, scan::c14_queue, scan::c15_faults, scan::c16_scan, scan::c16_emit, scan::c17_scan, scan::c17_emit, scan::c23_progress, scan::c25_stay,
    cli::c21_cli,
    long::c01_long, long::c02_many, long::c04_many, long::c04_numbers, long::c05_names, long::c05_many, long::c06_long, long::c07_many, long::c08_many, long::c08_names, long::c09_many,
    long::c10_scan_large, long::c10_scan_huge, long::c11_large, long::c11_many, long::c13_shape, long::c19_large, long::c20_long,
    more::c04_long, more::c09_files, more::c13_roots, more::c14_counts, more::c20_far, more::c23_many, more::c06_forms, more::c19_names, more::c14_auto, more::c13_config,
    bound::c24_reader, bound::c24_hash, bound::c24_scan, bound::c24_queue,
    hashes::c22_list, hashes::c22_eq, hashes::c22_long,
}
#[cfg(feature = "native")]
fn main() {
    let e = native::start();
    match ENTRIES.iter().find(|x| x.0 == e) { Some(x) => (x.1)(), None => { native::say("no such entry"); native::quit(3) } }
    native::end()
}
#[cfg(not(feature = "native"))]
fn main() {
    let e = std::env::args().nth(1).unwrap_or_default();
    if let Some(x) = ENTRIES.iter().find(|x| x.0 == e) { (x.1)() }
}
