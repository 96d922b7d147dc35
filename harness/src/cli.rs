//! C21: the command line tool over the modelled file system.
use crate::posix::{self, Node, World, DIR, FILE, LINK};
use crate::refm;
use crate::scan::{has_footer, prefix, reports, sink, small_tree, Sched, either, sched};
use crate::sx;
use libc::{c_char, c_int};

type Ctor = extern "C" fn(c_int, *const *const c_char, *const *const c_char);
extern "C" {
    static __init_array_start: [Ctor; 0];
    static __init_array_end: [Ctor; 0];
}
/// The arguments `std::env::args` returns from now on.
fn set_args(args: &[&str]) {
    let mut v: Vec<*const c_char> = Vec::new();
    for a in args {
        let mut s = a.as_bytes().to_vec();
        s.push(0);
        v.push(s.leak().as_ptr() as *const c_char);
    }
    let n = v.len() as c_int;
    v.push(std::ptr::null());
    let p = v.leak().as_ptr();
    unsafe {
        // the library takes them in a constructor
        let mut c = (&raw const __init_array_start) as *const Ctor;
        let e = (&raw const __init_array_end) as *const Ctor;
        while c < e { (*c)(n, p, p.add(n as usize)); c = c.add(1); }
    }
}
#[derive(Default)]
struct Run { good: bool, missing: bool, ht: usize, threaded: bool, progress: bool }
static mut RUN: Run = Run { good: false, missing: false, ht: 0, threaded: false, progress: false };
#[allow(static_mut_refs)]
fn run() -> &'static mut Run { unsafe { &mut RUN } }

/// More text than one buffer holds.
fn long_tree() -> World {
    let mut w = World::default();
    w.roots.push((b"/model".to_vec(), 0));
    w.nodes.push(Node { kind: DIR, mode: 0o755, typed: true, ..Node::default() });
    for i in 0..4u8 {
        w.nodes.push(Node { kind: LINK, mode: 0o777, typed: true, target: vec![b'a' + i; 3000], ..Node::default() });
        w.nodes[0].kids.push((vec![b'z' - i], 1 + i as usize));
    }
    w.nodes.push(Node { kind: FILE, mode: 0o644, typed: true, data: sx::vec("data", 1), ..Node::default() });
    w.nodes[0].kids.push((b"f".to_vec(), 5));
    w
}

#[no_mangle] pub extern "C" fn c21_cli() {
    let mut w = if sx::param("long") == 1 { long_tree() } else { small_tree(sx::param("len")) };
    w.faults = sx::param("faults");
    w.errnos = 99;
    w.sink = sink();
    w.stderr_fails = sx::param("stderr") == 1 && sx::flag("stderr fails");
    w.exits = true;
    let r = run();
    r.good = true;
    let mut args = vec!["index"];
    let opts = sx::param("args") == 1;
    // the destination
    match sx::choose("output", 2) {
        0 => w.stdout_is_sink = true,
        _ => match if opts { sx::choose("spelling", 3) } else { 0 } { 0 => args.extend(["-o", "/out"]), 1 => args.push("--write-index=/index"), _ => args.extend(["--write-index", "/out"]) },
    }
    if w.stdout_is_sink { sx::cover("to stdout") } else {
        sx::cover("to file");
        if sx::flag("file exists") { sx::cover("file exists"); w.old = vec![b'o'; [1, 2000][sx::choose("old len", 2)]]; }
    }
    r.progress = true;
    match if opts { sx::choose("progress", 4) } else { sx::choose("progress", 2) } { 0 => {} 1 => { args.push("-q"); r.progress = false } 2 => { args.push("--no-progress"); r.progress = false } _ => args.push("--progress") }
    r.threaded = true;
    match if opts { sx::choose("threads", 7) } else { sx::choose("threads", 2) } {
        0 => {}
        1 => { args.extend(["-t", "0"]); r.threaded = false }
        2 => args.extend(["-t", "1"]),
        3 => args.push("--threads=7"),
        4 => { args.extend(["-t", "many"]); r.good = false }
        5 => { args.extend(["-t", "-1"]); r.good = false }
        _ => { args.push("--nonsense"); r.good = false }
    }
    if opts {
        match sx::choose("hash", 6) {
            0 => {}
            1 => args.extend(["--hash", "sha512/256"]),
            2 => { args.extend(["--hash", "blake2b/256"]); r.ht = 1 }
            3 => { args.push("--hash=blake3/256"); r.ht = 2 }
            4 => { args.extend(["--hash", "md5"]); r.good = false }
            _ => { args.extend(["--hash", "sha512"]); r.good = false }
        }
        match sx::choose("directory", 6) {
            4 => { args.extend(["/model", "/missing"]); r.missing = true }
            5 => { args.extend(["/missing", "/model"]); r.missing = true }
            0 => args.push("/model"),
            1 => { args.push("/missing"); r.missing = true }
            2 => r.missing = true,
            _ => args.insert(1, "/model"),
        }
    } else { args.push("/model") }
    // (the argument parser panics when it cannot print its complaint: nonzero as well)
    if w.stderr_fails { sx::assume(r.good) }
    posix::set(w);
    *sched() = Sched { polls: sx::param("polls"), ..Sched::default() };
    set_args(&args);
    let code = index_cli::verif_main();
    judge(code)
}
pub fn judge(code: i32) -> ! {
    let code = code & 0xff;
    let (w, r) = (posix::w(), run());
    w.exits = false;
    let out = &w.sink.data;
    sx::log("out", &[out.len() as u8, (out.len() >> 8) as u8, code as u8]);
    let bad = w.hard || w.sink.failed || !r.good || r.missing;
    if code == 0 {
        sx::check(r.good, "C21: the tool exits with 0 although an argument is unusable");
        sx::check(!r.missing, "C21: the tool exits with 0 although the directory does not exist");
        sx::check(!w.hard, "C21: the tool exits with 0 although the scan could not read something");
        sx::check(!w.sink.failed, "C21: the tool exits with 0 although writing the index failed");
        let want = either(r.ht, 32768, r.threaded, out);
        // what an existing file was not rid of
        let mut file = if w.kept && w.append { w.old.clone() } else { vec![] };
        file.extend_from_slice(out);
        if w.kept && w.old.len() > file.len() { let n = file.len(); file.extend_from_slice(&w.old[n..]); }
        sx::check(sx::eq(&file, &want), "C21: the tool exits with 0 without having written the library's index");
        sx::check(w.stderr_fails || !r.progress || reports(&w.stderr, out), "C21: the tool reports another hash than the index has");
        sx::cover("exit 0");
        if r.ht > 0 { sx::cover("other hash") }
    } else {
        sx::check(bad || w.soft, "C21: the tool fails although nothing failed");
        sx::check(r.good || out.is_empty(), "C21: unusable arguments and yet something is written");
        sx::check(!has_footer(out) || w.sink.failed, "C21: a failed run has written a complete index");
        if !w.sink.failed && r.good && !r.missing { sx::check(prefix(out, &either(r.ht, 32768, r.threaded, out)), "C21: what a failed run wrote is not the beginning of the index") }
        sx::cover("exit nonzero");
        if w.sink.failed { sx::cover("destination failed") }
        if w.hard { sx::cover("scan failed") }
        if !r.good { sx::cover("bad argument") }
    }
    let _ = refm::hash_type;
    sx::end()
}
