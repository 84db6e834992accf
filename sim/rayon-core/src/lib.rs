//! Stand-in for rayon-core: the same interface and the same fork-join semantics (per-worker deques,
//! newest-first for the owner, oldest-first for thieves; callers from outside the pool wait while the
//! work runs on pool threads; waiting workers execute other jobs meanwhile; panics travel to the
//! joining thread), but the pool threads are simulated ones: simrt decides who runs and who steals.
//! Outside a simulation everything runs inline on the calling thread.
use simrt::mem::Harness;
use simrt::sched::{self, Point};
use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::collections::VecDeque;
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq)]
struct JobRef {
    ptr: *const (),
    exec: unsafe fn(*const ()),
}

struct Pool {
    deques: Vec<VecDeque<JobRef>>,
    inject: VecDeque<JobRef>,
    stop: bool,
    steals: u64,
    forks: u64,
}

static mut POOL: Pool = Pool { deques: vec![], inject: VecDeque::new(), stop: false, steals: 0, forks: 0 };
#[allow(static_mut_refs)]
fn pool() -> &'static mut Pool {
    unsafe { &mut POOL } // only touched by the holder of the baton
}

thread_local! {
    static WORKER: Cell<usize> = const { Cell::new(usize::MAX) };
}
#[inline(never)]
fn worker() -> Option<usize> {
    let w = WORKER.with(|w| w.get());
    if w == usize::MAX {
        None
    } else {
        Some(w)
    }
}

/// Sets up the pool of the simulated process (before the simulation starts).
pub fn sim_start(threads: usize) {
    *pool() = Pool {
        deques: (0..threads).map(|_| VecDeque::new()).collect(),
        inject: VecDeque::new(),
        stop: false,
        steals: 0,
        forks: 0,
    };
    for i in 0..threads {
        sched::spawn(false, move || {
            WORKER.with(|w| w.set(i));
            loop {
                match find_work(i) {
                    Some(j) => unsafe { (j.exec)(j.ptr) },
                    None => sched::block_until(Box::new(any_work)),
                }
            }
        });
    }
}

/// (jobs executed by another thread than the one that forked them, forks)
pub fn sim_stats() -> (u64, u64) {
    (pool().steals, pool().forks)
}

fn any_work() -> bool {
    let p = pool();
    !p.inject.is_empty() || p.deques.iter().any(|d| !d.is_empty())
}

#[inline(never)]
fn find_work(me: usize) -> Option<JobRef> {
    let _h = Harness::enter();
    let p = pool();
    if let Some(j) = p.deques[me].pop_back() {
        return Some(j);
    }
    let mut victims: Vec<usize> = (0..p.deques.len()).filter(|&i| !p.deques[i].is_empty()).collect();
    if !p.inject.is_empty() {
        victims.push(usize::MAX);
    }
    if victims.is_empty() {
        return None;
    }
    let v = victims[sched::choose(victims.len())];
    if v == usize::MAX {
        p.inject.pop_front()
    } else {
        p.steals += 1;
        p.deques[v].pop_front()
    }
}

#[inline(never)]
fn wait_until(me: usize, done: *const Cell<bool>) {
    unsafe {
        while !(*done).get() {
            match find_work(me) {
                Some(j) => (j.exec)(j.ptr),
                None => {
                    let _h = Harness::enter();
                    let d = done as usize;
                    sched::block_until(Box::new(move || (*(d as *const Cell<bool>)).get() || any_work()))
                },
            }
        }
    }
}

// Generic code of this crate is instantiated in the instrumented crates and can be preempted anywhere;
// whatever must not be is in these plain functions.
#[inline(never)]
fn pop_own(w: usize) -> Option<JobRef> {
    pool().deques[w].pop_back()
}

#[inline(never)]
fn wait_flag(done: *const Cell<bool>) {
    let _h = Harness::enter();
    let d = done as usize;
    sched::block_until(Box::new(move || unsafe { (*(d as *const Cell<bool>)).get() }));
}

#[inline(never)]
fn push(j: JobRef) {
    let _h = Harness::enter();
    let p = pool();
    p.forks += 1;
    match worker() {
        Some(w) => p.deques[w].push_back(j),
        None => p.inject.push_back(j),
    }
    sched::point(Point::Join);
}

struct StackJob<F, R> {
    f: UnsafeCell<Option<F>>,
    r: UnsafeCell<Option<std::thread::Result<R>>>,
    done: Cell<bool>,
}

impl<F: FnOnce(bool) -> R, R> StackJob<F, R> {
    fn new(f: F) -> Self {
        StackJob { f: UnsafeCell::new(Some(f)), r: UnsafeCell::new(None), done: Cell::new(false) }
    }
    fn job(&self) -> JobRef {
        JobRef { ptr: self as *const Self as *const (), exec: Self::exec }
    }
    unsafe fn exec(p: *const ()) {
        let s = &*(p as *const Self);
        let f = (*s.f.get()).take().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| f(true)));
        *s.r.get() = Some(r);
        s.done.set(true);
    }
    fn run_inline(&self) -> R {
        let f = unsafe { (*self.f.get()).take().unwrap() };
        f(false)
    }
    fn result(&self) -> std::thread::Result<R> {
        unsafe { (*self.r.get()).take().unwrap() }
    }
}

/// Runs `op` on a pool thread while the caller, which is not one, waits.
fn in_worker<R>(op: impl FnOnce(bool) -> R) -> R {
    let in_pool = worker().is_some() || !sched::armed() || pool().deques.is_empty();
    if in_pool {
        return op(false);
    }
    let job = StackJob::new(op);
    push(job.job());
    wait_flag(&job.done);
    match job.result() {
        Ok(r) => r,
        Err(p) => resume_unwind(p),
    }
}

pub struct FnContext {
    migrated: bool,
}
impl FnContext {
    #[inline]
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    in_worker(|injected| {
        let w = match worker() {
            Some(w) if sched::armed() => w,
            _ => return (a(FnContext { migrated: false }), b(FnContext { migrated: false })),
        };
        let job = StackJob::new(|migrated| b(FnContext { migrated }));
        let jr = job.job();
        push(jr);
        let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext { migrated: injected })));
        let ra = match ra {
            Ok(ra) => ra,
            Err(p) => {
                // the forked job borrows from this frame: it has to finish first
                wait_until(w, &job.done);
                resume_unwind(p)
            },
        };
        while !job.done.get() {
            match pop_own(w) {
                Some(j) if j.ptr == jr.ptr => return (ra, job.run_inline()),
                Some(j) => unsafe { (j.exec)(j.ptr) },
                None => wait_until(w, &job.done),
            }
        }
        match job.result() {
            Ok(rb) => (ra, rb),
            Err(p) => resume_unwind(p),
        }
    })
}

pub fn current_num_threads() -> usize {
    pool().deques.len().max(1)
}
pub fn max_num_threads() -> usize {
    (1 << 16) - 1
}
pub fn current_thread_index() -> Option<usize> {
    worker()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    let w = worker()?;
    Some(match find_work(w) {
        Some(j) => {
            unsafe { (j.exec)(j.ptr) };
            Yield::Executed
        },
        None => {
            sched::yield_now();
            Yield::Idle
        },
    })
}
pub fn yield_local() -> Option<Yield> {
    yield_now()
}

// ---- scopes and spawns ----------------------------------------------------------------------------

struct HeapJob<F> {
    f: F,
}
impl<F: FnOnce()> HeapJob<F> {
    fn job(f: F) -> JobRef {
        JobRef { ptr: Box::into_raw(Box::new(HeapJob { f })) as *const (), exec: Self::exec }
    }
    unsafe fn exec(p: *const ()) {
        let b = Box::from_raw(p as *mut Self);
        (b.f)()
    }
}

fn spawn_raw<F: FnOnce()>(f: F) {
    if sched::armed() && !pool().deques.is_empty() {
        push(HeapJob::job(f))
    } else {
        f()
    }
}

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    spawn_raw(move || {
        if catch_unwind(AssertUnwindSafe(f)).is_err() {
            std::process::abort()
        }
    })
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    spawn(f)
}

struct ScopeState {
    open: Cell<usize>,
    done: Cell<bool>,
    panic: UnsafeCell<Option<Box<dyn Any + Send>>>,
}

#[inline(never)]
fn scope_open(st: *const ScopeState) {
    unsafe { (*st).open.set((*st).open.get() + 1) }
}
#[inline(never)]
fn scope_close(st: *const ScopeState) {
    unsafe {
        (*st).open.set((*st).open.get() - 1);
        if (*st).open.get() == 0 {
            (*st).done.set(true)
        }
    }
}

macro_rules! scope_type {
    ($name:ident, $spawn:ident) => {
        pub struct $name<'scope> {
            st: *const ScopeState,
            marker: PhantomData<Box<dyn FnOnce(&$name<'scope>) + Send + Sync + 'scope>>,
        }
        unsafe impl<'scope> Send for $name<'scope> {}
        unsafe impl<'scope> Sync for $name<'scope> {}
        impl<'scope> $name<'scope> {
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$name<'scope>) + Send + 'scope,
            {
                let st = self.st;
                scope_open(st);
                spawn_raw(move || unsafe {
                    let s = $name { st, marker: PhantomData };
                    if let Err(p) = catch_unwind(AssertUnwindSafe(|| body(&s))) {
                        (*(*st).panic.get()).get_or_insert(p);
                    }
                    scope_close(st);
                });
            }
            pub fn spawn_broadcast<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$name<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let n = current_num_threads();
                let b = std::sync::Arc::new(body);
                for i in 0..n {
                    let b = b.clone();
                    self.$spawn(move |s| b(s, BroadcastContext { index: i, n, marker: PhantomData }));
                }
            }
        }
        impl<'scope> fmt::Debug for $name<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct(stringify!($name)).finish()
            }
        }
        impl<'scope> $name<'scope> {
            fn run<R>(op: impl FnOnce(&$name<'scope>) -> R) -> R {
                let st = ScopeState { open: Cell::new(1), done: Cell::new(false), panic: UnsafeCell::new(None) };
                let s = $name { st: &st, marker: PhantomData };
                let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
                scope_close(&st);
                match worker() {
                    Some(w) => wait_until(w, &st.done),
                    None => wait_flag(&st.done),
                }
                if let Some(p) = unsafe { (*st.panic.get()).take() } {
                    resume_unwind(p)
                }
                match r {
                    Ok(r) => r,
                    Err(p) => resume_unwind(p),
                }
            }
        }
    };
}
scope_type!(Scope, spawn);
scope_type!(ScopeFifo, spawn_fifo);

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_worker(|_| Scope::run(op))
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_worker(|_| ScopeFifo::run(op))
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    Scope::run(op)
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    ScopeFifo::run(op)
}

pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    marker: PhantomData<&'a ()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
    {
        let op = &op;
        in_place_scope(|s| {
            for (i, o) in out.iter_mut().enumerate() {
                s.spawn(move |_| *o = Some(op(BroadcastContext { index: i, n, marker: PhantomData })));
            }
        });
    }
    out.into_iter().map(|o| o.unwrap()).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    let n = current_num_threads();
    let op = std::sync::Arc::new(op);
    for i in 0..n {
        let op = op.clone();
        spawn(move || op(BroadcastContext { index: i, n, marker: PhantomData }));
    }
}

// ---- pools: every pool is the simulated one -------------------------------------------------------

#[derive(Debug, Default)]
pub struct ThreadPoolBuildError(());
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "thread pool build error")
    }
}
impl std::error::Error for ThreadPoolBuildError {}

pub struct ThreadBuilder(());
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        0
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}

#[derive(Debug, Default)]
pub struct ThreadPoolBuilder(());
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self(())
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self {
        self
    }
    pub fn panic_handler<H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool(()))
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}

#[derive(Debug)]
pub struct ThreadPool(());
impl ThreadPool {
    pub fn install<OP: FnOnce() -> R + Send, R: Send>(&self, op: OP) -> R {
        in_worker(|_| op())
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        worker()
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast(op)
    }
}
