//! Stand-in for futures-cpupool: no threads; when a background task runs and when its completion becomes
//! visible is decided by the harness (`sched_*`), so every completion order is a symbolic choice.
use futures::{Async, Future, IntoFuture, Poll};
use std::sync::{Arc, Mutex};

extern "C" {
    /// 0 = run the task later, 1 = run it at once
    fn sched_spawn(task: usize) -> u32;
    /// 0 = not finished yet, 1 = finished, 2 = finished, and the other pending tasks ran before it (newest first)
    fn sched_poll(task: usize) -> u32;
    /// the same for a caller that blocks: 1 or 2
    fn sched_wait(task: usize) -> u32;
}

struct Slot<T> { run: Option<Box<dyn FnOnce() -> T + Send>>, val: Option<T> }
trait Task: Send { fn run(&self); }
impl<T: Send> Task for Mutex<Slot<T>> {
    fn run(&self) {
        let f = { let mut s = self.lock().unwrap(); s.run.take() };
        if let Some(f) = f { let v = f(); self.lock().unwrap().val = Some(v); }
    }
}

struct Shared { next: usize, pending: Vec<(usize, Arc<dyn Task + Sync>)> }
#[derive(Clone)]
pub struct CpuPool { shared: Arc<Mutex<Shared>> }
#[must_use]
pub struct CpuFuture<T, E> { id: usize, slot: Arc<Mutex<Slot<Result<T, E>>>>, shared: Arc<Mutex<Shared>>, seen: bool }

impl CpuPool {
    pub fn new(size: usize) -> CpuPool {
        assert!(size > 0);
        CpuPool { shared: Arc::new(Mutex::new(Shared { next: 0, pending: Vec::new() })) }
    }
    pub fn new_num_cpus() -> CpuPool { CpuPool::new(4) }
    pub fn spawn<F>(&self, f: F) -> CpuFuture<F::Item, F::Error>
        where F: Future + Send + 'static, F::Item: Send + 'static, F::Error: Send + 'static
    { self.add(Box::new(move || f.wait())) }
    pub fn spawn_fn<F, R>(&self, f: F) -> CpuFuture<R::Item, R::Error>
        where F: FnOnce() -> R + Send + 'static, R: IntoFuture + 'static, R::Future: Send + 'static,
              R::Item: Send + 'static, R::Error: Send + 'static
    { self.add(Box::new(move || f().into_future().wait())) }
    fn add<T: Send + 'static, E: Send + 'static>(&self, f: Box<dyn FnOnce() -> Result<T, E> + Send>) -> CpuFuture<T, E> {
        let slot = Arc::new(Mutex::new(Slot { run: Some(f), val: None }));
        let id = { let mut s = self.shared.lock().unwrap(); s.next += 1; s.next - 1 };
        if unsafe { sched_spawn(id) } == 1 { slot.run() } else { self.shared.lock().unwrap().pending.push((id, slot.clone())) }
        CpuFuture { id, slot, shared: self.shared.clone(), seen: false }
    }
}
impl<T, E> CpuFuture<T, E> { pub fn forget(self) {} }
impl<T: Send + 'static, E: Send + 'static> Future for CpuFuture<T, E> {
    type Item = T;
    type Error = E;
    fn poll(&mut self) -> Poll<T, E> {
        assert!(!self.seen, "cannot poll CpuFuture twice");
        let c = unsafe { sched_poll(self.id) };
        if c == 0 {
            // a blocked waiter looks again; the schedule lets it succeed eventually
            futures::task::current().notify();
            return Ok(Async::NotReady);
        }
        self.finish(c)
    }
    fn wait(mut self) -> Result<T, E> {
        assert!(!self.seen, "cannot poll CpuFuture twice");
        let c = unsafe { sched_wait(self.id) };
        match self.finish(c) { Ok(Async::Ready(v)) => Ok(v), Ok(Async::NotReady) => unreachable!(), Err(e) => Err(e) }
    }
}
impl<T: Send + 'static, E: Send + 'static> CpuFuture<T, E> {
    fn finish(&mut self, c: u32) -> Poll<T, E> {
        if c == 2 {
            loop {
                let t = { let mut s = self.shared.lock().unwrap(); match s.pending.last() { Some(x) if x.0 != self.id => s.pending.pop(), _ => None } };
                match t { Some(t) => t.1.run(), None => break }
            }
        }
        self.slot.run();
        { let id = self.id; self.shared.lock().unwrap().pending.retain(|x| x.0 != id); }
        self.seen = true;
        match self.slot.lock().unwrap().val.take().expect("task ran") { Ok(v) => Ok(Async::Ready(v)), Err(e) => Err(e) }
    }
}
