//! Sequential stand-in for rayon-core, used only when vpin is compiled for the
//! symbolic executor (which executes a single thread).  `join(a, b)` runs `a`
//! and then `b`; everything rayon builds on top of it (parallel iterators,
//! indexed collect, ...) is the real rayon code.
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;

pub fn max_num_threads() -> usize { 1 }
pub fn current_num_threads() -> usize { 1 }
pub fn current_thread_index() -> Option<usize> { None }
pub fn current_thread_has_pending_tasks() -> Option<bool> { None }

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub enum Yield { Executed, Idle }
pub fn yield_now() -> Option<Yield> { None }
pub fn yield_local() -> Option<Yield> { None }

pub struct FnContext { migrated: bool }
impl FnContext { pub fn migrated(&self) -> bool { self.migrated } }

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send {
    let ra = a();
    let rb = b();
    (ra, rb)
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce(FnContext) -> RA + Send, B: FnOnce(FnContext) -> RB + Send, RA: Send, RB: Send {
    let ra = a(FnContext { migrated: false });
    let rb = b(FnContext { migrated: false });
    (ra, rb)
}
pub fn spawn<F>(f: F) where F: FnOnce() + Send + 'static { f() }
pub fn spawn_fifo<F>(f: F) where F: FnOnce() + Send + 'static { f() }

pub struct BroadcastContext<'a>(PhantomData<&'a ()>);
impl BroadcastContext<'_> {
    pub fn index(&self) -> usize { 0 }
    pub fn num_threads(&self) -> usize { 1 }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where OP: Fn(BroadcastContext<'_>) -> R + Sync, R: Send { vec![op(BroadcastContext(PhantomData))] }
pub fn spawn_broadcast<OP>(op: OP)
where OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static { op(BroadcastContext(PhantomData)) }

pub struct Scope<'scope>(PhantomData<&'scope mut &'scope ()>);
impl<'scope> Scope<'scope> {
    pub fn spawn<F>(&self, f: F) where F: FnOnce(&Scope<'scope>) + Send + 'scope { f(self) }
    pub fn spawn_broadcast<F>(&self, f: F)
    where F: Fn(&Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope { f(self, BroadcastContext(PhantomData)) }
}
pub struct ScopeFifo<'scope>(PhantomData<&'scope mut &'scope ()>);
impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<F>(&self, f: F) where F: FnOnce(&ScopeFifo<'scope>) + Send + 'scope { f(self) }
}
pub fn scope<'scope, OP, R>(op: OP) -> R
where OP: FnOnce(&Scope<'scope>) -> R + Send, R: Send { op(&Scope(PhantomData)) }
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where OP: FnOnce(&Scope<'scope>) -> R { op(&Scope(PhantomData)) }
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where OP: FnOnce(&ScopeFifo<'scope>) -> R + Send, R: Send { op(&ScopeFifo(PhantomData)) }
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where OP: FnOnce(&ScopeFifo<'scope>) -> R { op(&ScopeFifo(PhantomData)) }

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("thread pool") }
}
impl Error for ThreadPoolBuildError {}

pub struct ThreadBuilder(());
#[derive(Debug)]
pub struct ThreadPool(());
impl ThreadPool {
    pub fn spawn<F>(&self, f: F) where F: FnOnce() + Send + 'static { f() }
    pub fn current_num_threads(&self) -> usize { 1 }
    pub fn install<OP, R>(&self, op: OP) -> R where OP: FnOnce() -> R + Send, R: Send { op() }
}
#[derive(Debug, Default)]
pub struct ThreadPoolBuilder(());
impl ThreadPoolBuilder {
    pub fn new() -> Self { ThreadPoolBuilder(()) }
    pub fn num_threads(self, _n: usize) -> Self { self }
    pub fn thread_name<F>(self, _f: F) -> Self where F: FnMut(usize) -> String + 'static { self }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> { Ok(ThreadPool(())) }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> { Ok(()) }
}
