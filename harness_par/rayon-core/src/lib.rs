//! A sequential meaning for rayon's primitives: each task runs once, to completion, at the point where it is made.
//! The parallel iterators themselves are rayon's own; only the thread pool underneath is replaced. The number of
//! threads is set by the entry point under analysis. Never executed.
use std::marker::PhantomData;

pub static mut THREADS: usize = 1;

#[inline(never)]
pub fn current_num_threads() -> usize {
    unsafe { THREADS }
}
pub fn max_num_threads() -> usize {
    usize::MAX
}
pub fn current_thread_index() -> Option<usize> {
    None
}

pub struct FnContext(());
impl FnContext {
    pub fn migrated(&self) -> bool {
        false
    }
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    let x = a();
    let y = b();
    (x, y)
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let x = a(FnContext(()));
    let y = b(FnContext(()));
    (x, y)
}

pub struct BroadcastContext<'a>(PhantomData<&'a ()>);
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        0
    }
    pub fn num_threads(&self) -> usize {
        current_num_threads()
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    vec![op(BroadcastContext(PhantomData))]
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    op(BroadcastContext(PhantomData))
}

macro_rules! scopes {
    ($s:ident, $f:ident, $g:ident, $spawn:ident) => {
        pub struct $s<'scope>(PhantomData<&'scope ()>);
        impl<'scope> $s<'scope> {
            pub fn $spawn<B>(&self, body: B)
            where
                B: FnOnce(&$s<'scope>) + Send + 'scope,
            {
                body(self)
            }
        }
        pub fn $f<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$s<'scope>) -> R + Send,
            R: Send,
        {
            op(&$s(PhantomData))
        }
        pub fn $g<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$s<'scope>) -> R,
        {
            op(&$s(PhantomData))
        }
    };
}
scopes!(Scope, scope, in_place_scope, spawn);
scopes!(ScopeFifo, scope_fifo, in_place_scope_fifo, spawn_fifo);

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    None
}
pub fn yield_local() -> Option<Yield> {
    None
}
pub struct ThreadPool(());
impl ThreadPool {
    pub fn install<OP: FnOnce() -> R + Send, R: Send>(&self, op: OP) -> R {
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
}
pub struct ThreadPoolBuildError(());
pub struct ThreadBuilder(());
#[derive(Default)]
pub struct ThreadPoolBuilder(());
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self(())
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool(()))
    }
}
