//! Replay runtime: the same harness compiled to a normal program, inputs read from a file.
//! usage: hnat ENTRY INPUTS [param=value]...      (INPUTS: lines "name hex")
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::Mutex;
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Counting;
thread_local! { static ARMED: Cell<bool> = const { Cell::new(false) }; }
static LIMIT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { chk(l.size()); count(l.size(), 0); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { chk(l.size()); count(l.size(), 0); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { chk(n); count(n, l.size()); System.realloc(p, l, n) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { count(0, l.size()); System.dealloc(p, l) }
}
static LIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static PEAK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn count(more: usize, less: usize) {
    use std::sync::atomic::Ordering::Relaxed;
    let n = (LIVE.load(Relaxed) + more).saturating_sub(less);
    LIVE.store(n, Relaxed);
    PEAK.fetch_max(n, Relaxed);
}
#[no_mangle] pub extern "C" fn sym_heap(start: bool) -> u64 {
    use std::sync::atomic::Ordering::Relaxed;
    if start { PEAK.store(LIVE.load(Relaxed), Relaxed); }
    PEAK.load(Relaxed) as u64
}
fn chk(n: usize) {
    if n > LIMIT.load(std::sync::atomic::Ordering::Relaxed) && ARMED.with(|a| a.replace(false)) {
        say(&format!("VIOLATED allocation larger than {} bytes requested", LIMIT.load(std::sync::atomic::Ordering::Relaxed)));
        quit(42);
    }
}
struct Rt { inputs: Vec<(String, Vec<u8>)>, pos: usize, params: HashMap<String, u64>, bad: bool }
static RT: Mutex<Option<Rt>> = Mutex::new(None);
fn rt<T>(f: impl FnOnce(&mut Rt) -> T) -> T { f(RT.lock().unwrap_or_else(|e| e.into_inner()).as_mut().unwrap()) }
unsafe fn st<'a>(p: *const u8, n: usize) -> &'a [u8] { if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) } }
/// Output that does not pass through the modelled file descriptors.
pub fn say(s: &str) {
    let t = format!("{}\n", s);
    unsafe { libc::syscall(libc::SYS_write, 1, t.as_ptr(), t.len()); }
}
/// Ends the process without running the (possibly modelled) library clean-up.
pub fn quit(c: i32) -> ! { unsafe { libc::syscall(libc::SYS_exit_group, c); } loop {} }
pub fn start() -> String {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { say("usage: hnat ENTRY INPUTS [param=value]..."); quit(3) }
    let mut inputs = Vec::new();
    for l in std::fs::read_to_string(&a[2]).expect("inputs").lines() {
        if l.starts_with('#') { continue }
        let (n, h) = l.rsplit_once(' ').expect("name hex");
        inputs.push((n.to_string(), (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()));
    }
    let mut params = HashMap::new();
    for p in &a[3..] { let (k, v) = p.split_once('=').expect("k=v"); params.insert(k.to_string(), v.parse().unwrap()); }
    if let Some(n) = params.get("max-alloc") { LIMIT.store(*n as usize, std::sync::atomic::Ordering::Relaxed); }
    *RT.lock().unwrap() = Some(Rt { inputs, pos: 0, params, bad: false });
    std::panic::set_hook(Box::new(|i| {
        ARMED.with(|a| a.set(false));
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        say(&format!("VIOLATED panic: {} at {}", m, i.location().map(|l| l.to_string()).unwrap_or_default()));
        quit(42);
    }));
    ARMED.with(|x| x.set(true));
    a[1].clone()
}
pub fn end() -> ! {
    ARMED.with(|x| x.set(false));
    let bad = rt(|r| r.bad);
    say(if bad { "END violated" } else { "END ok" });
    quit(if bad { 42 } else { 0 })
}
#[no_mangle] pub extern "C" fn sym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize) {
    let armed = ARMED.with(|x| x.replace(false));
    let name = String::from_utf8_lossy(unsafe { st(name, nl) }).into_owned();
    rt(|r| {
        // inputs beyond the recorded ones are zero, as in the solver's model
        if r.pos < r.inputs.len() {
            let (k, v) = &r.inputs[r.pos];
            if *k != name || v.len() != n { say(&format!("MISMATCH input {} ({} bytes) expected {} ({})", name, n, k, v.len())); quit(4) }
            for (i, b) in v.iter().enumerate() { unsafe { *p.add(i) = *b } }
            r.pos += 1;
        } else { for i in 0..n { unsafe { *p.add(i) = 0 } } }
    });
    ARMED.with(|x| x.set(armed));
}
#[no_mangle] pub extern "C" fn sym_assume(c: bool) { if !c { say("END assumption not met"); quit(5) } }
#[no_mangle] pub extern "C" fn sym_check(c: bool, m: *const u8, n: usize) {
    if !c { ARMED.with(|x| x.set(false)); say(&format!("VIOLATED {}", String::from_utf8_lossy(unsafe { st(m, n) }))); rt(|r| r.bad = true); ARMED.with(|x| x.set(true)); }
}
#[no_mangle] pub extern "C" fn sym_fail(m: *const u8, n: usize) -> ! { sym_check(false, m, n); end() }
#[no_mangle] pub extern "C" fn sym_reject() -> ! { say("END rejected"); quit(5) }
#[no_mangle] pub extern "C" fn sym_end() -> ! { end() }
#[no_mangle] pub extern "C" fn sym_cover(_: *const u8, _: usize) {}
#[no_mangle] pub extern "C" fn sym_log(nm: *const u8, nl: usize, p: *const u8, n: usize) {
    let armed = ARMED.with(|x| x.replace(false));
    let h: String = unsafe { st(p, n) }.iter().map(|b| format!("{:02x}", b)).collect();
    say(&format!("LOG {} {}", String::from_utf8_lossy(unsafe { st(nm, nl) }), h));
    ARMED.with(|x| x.set(armed));
}
#[no_mangle] pub extern "C" fn sym_param(nm: *const u8, nl: usize) -> u64 {
    let armed = ARMED.with(|x| x.replace(false));
    let k = String::from_utf8_lossy(unsafe { st(nm, nl) }).into_owned();
    let v = rt(|r| *r.params.get(&k).unwrap_or_else(|| { say(&format!("MISSING parameter {}", k)); quit(3) }));
    ARMED.with(|x| x.set(armed));
    v
}
#[no_mangle] pub extern "C" fn sym_concretize(v: u64) -> u64 { v }
