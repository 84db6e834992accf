//! Cooperative scheduler: real threads, of which exactly one (the holder of the baton) runs at any
//! time.  Who runs next, and where the running thread is preempted, is decided by a seeded policy or
//! by a recorded script.  Preemption points: every control-flow edge of the instrumented crates,
//! every intercepted system call, every futex operation and every fork-join of the thread pool.
use crate::mem::Harness;
use crate::prng::{mix, Rng};
use crate::raw;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

#[derive(Clone, Debug, PartialEq)]
pub enum Policy {
    /// Explicit: preempt at these ticks (candidate index), then these answers for all other choices.
    Script { preempts: Vec<(u64, u8)>, forced: Vec<u8> },
    /// gap: mean number of ticks between preemptions (0: none); p_sys / p_join: chance (per mille) of
    /// a preemption at a system call / fork; stall: (thread, from tick, number of ticks) during which
    /// that thread only runs if nothing else can.
    Seeded { seed: u64, gap: u32, p_sys: u16, p_join: u16, stall: Option<(u8, (u64, u64))> },
}

impl Policy {
    pub fn sequential() -> Self {
        Policy::Script { preempts: vec![], forced: vec![] }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Rec {
    pub preempts: Vec<(u64, u8)>,
    pub forced: Vec<u8>,
    pub ticks: u64,
    pub switches: u64,
    pub choices: u64,
    pub hash: u64,
}
crate::codec_struct!(Rec { preempts, forced, ticks, switches, choices, hash });

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Done,
    Deadlock,
    Livelock,
    Crashed,
}

enum St {
    Runnable,
    Futex { addr: usize, timeout: bool },
    Pred(Box<dyn FnMut() -> bool>),
    Done,
}

struct Th {
    st: St,
    wake: Box<AtomicU32>,
    root: bool,
    timed_out: bool,
    pthread: u64,
}

pub struct Sched {
    ths: Vec<Th>,
    cur: usize,
    policy: Policy,
    rng: Rng,
    rec: Rec,
    pi: usize,
    fi: usize,
    nopreempt: u32,
    end: Option<End>,
    limit: u64,
    edge: u32,
}

pub static mut ACTIVE: bool = false;
pub static mut TICK: u64 = 0;
static mut NEXT: u64 = u64::MAX;
static mut S: Option<Sched> = None;
static MAINWAKE: AtomicU32 = AtomicU32::new(0);
pub const NCOV: usize = 1 << 16;
pub static mut COV: [u8; NCOV] = [0; NCOV];
pub static mut NEDGES: u32 = 0;

thread_local! {
    static ID: Cell<isize> = const { Cell::new(-1) };
}

#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { S.as_mut().unwrap() }
}

pub fn active() -> bool {
    unsafe { ACTIVE }
}

/// Is the calling thread a simulated one (and the simulation running)?
pub fn armed() -> bool {
    active() && ID.with(|i| i.get()) >= 0
}

pub fn me() -> usize {
    ID.with(|i| i.get()) as usize
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        NEDGES += 1;
        *p = NEDGES;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ACTIVE {
        return;
    }
    let id = *g;
    COV[id as usize & (NCOV - 1)] = 1;
    TICK += 1;
    if TICK >= NEXT {
        edge_slow(id);
    }
}

#[cold]
#[inline(never)]
fn edge_slow(id: u32) {
    if !armed() {
        return;
    }
    let s = s();
    s.edge = id;
    unsafe {
        if TICK >= s.limit {
            finish(End::Livelock);
            park_forever();
        }
    }
    if s.nopreempt > 0 {
        return; // NEXT stays in the past: retried at the next edge
    }
    maybe_preempt_tick();
}

#[derive(Clone, Copy, PartialEq)]
pub enum Point {
    Sys,
    Join,
    Wake,
}

/// A scheduling point of the running thread.
pub fn point(kind: Point) {
    if !armed() {
        return;
    }
    let s = s();
    unsafe {
        TICK += 1;
        if TICK >= s.limit {
            finish(End::Livelock);
            park_forever();
        }
        if s.nopreempt > 0 {
            return;
        }
        if TICK >= NEXT {
            maybe_preempt_tick();
            return;
        }
    }
    if let Policy::Seeded { p_sys, p_join, .. } = s.policy {
        let p = if kind == Point::Join { p_join } else { p_sys };
        if p > 0 && s.rng.below(1000) < p as u64 {
            preempt(None);
        }
    }
}

/// Voluntary yield (sched_yield, spin loops)
pub fn yield_now() {
    if armed() && s().nopreempt == 0 {
        unsafe { TICK += 1 };
        if unsafe { TICK } >= s().limit {
            finish(End::Livelock);
            park_forever();
        }
        yield_();
    }
}

/// A recorded choice among n alternatives
pub fn choose(n: usize) -> usize {
    if n <= 1 || !armed() {
        return 0;
    }
    s().forced(n)
}

pub fn no_preempt(on: bool) {
    if armed() {
        let s = s();
        if on {
            s.nopreempt += 1
        } else {
            s.nopreempt -= 1
        }
    }
}

/// Blocks the calling simulated thread until `p` holds.
pub fn block_until(mut p: Box<dyn FnMut() -> bool>) {
    s().nopreempt += 1;
    let now = p();
    s().nopreempt -= 1;
    if now {
        return;
    }
    let s = s();
    let me = s.cur;
    s.ths[me].st = St::Pred(p);
    switch_away();
}

impl Sched {
    fn runnable(&mut self, i: usize) -> bool {
        match &mut self.ths[i].st {
            St::Runnable => true,
            St::Pred(p) => p(),
            St::Futex { .. } | St::Done => false,
        }
    }

    fn candidates(&mut self, except: Option<usize>) -> Vec<usize> {
        self.nopreempt += 1;
        let v = (0..self.ths.len())
            .filter(|&i| Some(i) != except && self.runnable(i))
            .collect();
        self.nopreempt -= 1;
        v
    }

    fn stalled(&self, tid: usize) -> bool {
        if let Policy::Seeded { stall: Some((v, (from, len))), .. } = self.policy {
            let t = unsafe { TICK };
            v as usize == tid && t >= from && t < from + len
        } else {
            false
        }
    }

    fn draw(&mut self, cands: &[usize]) -> usize {
        let ok: Vec<usize> = (0..cands.len()).filter(|&k| !self.stalled(cands[k])).collect();
        if ok.is_empty() {
            self.rng.below(cands.len() as u64) as usize
        } else {
            ok[self.rng.below(ok.len() as u64) as usize]
        }
    }

    fn forced(&mut self, n: usize) -> usize {
        let _h = Harness::enter();
        self.rec.choices += 1;
        let k = match &self.policy {
            Policy::Script { forced, .. } => {
                let k = forced.get(self.fi).copied().unwrap_or(0) as usize % n;
                self.fi += 1;
                k
            },
            Policy::Seeded { .. } => self.rng.below(n as u64) as usize,
        };
        self.rec.forced.push(k as u8);
        self.rec.hash = mix(self.rec.hash ^ (k as u64 + 1));
        k
    }

    fn forced_thread(&mut self, cands: &[usize]) -> usize {
        if cands.len() == 1 {
            return cands[0];
        }
        let _h = Harness::enter();
        self.rec.choices += 1;
        let k = match &self.policy {
            Policy::Script { forced, .. } => {
                let k = forced.get(self.fi).copied().unwrap_or(0) as usize % cands.len();
                self.fi += 1;
                k
            },
            Policy::Seeded { .. } => self.draw(cands),
        };
        self.rec.forced.push(k as u8);
        cands[k]
    }

    fn set_next(&mut self) {
        let t = unsafe { TICK };
        let n = match &self.policy {
            Policy::Script { preempts, .. } => preempts.get(self.pi).map(|p| p.0).unwrap_or(u64::MAX),
            Policy::Seeded { gap, .. } => {
                let gap = *gap;
                if gap == 0 {
                    u64::MAX
                } else {
                    let u = self.rng.f();
                    t + 1 + (-(1.0 - u).ln() * gap as f64) as u64
                }
            },
        };
        unsafe { NEXT = n.min(self.limit) };
    }
}

// The functions below hand over the baton: they never hold a reference to the scheduler across that,
// because other threads change it meanwhile.

fn maybe_preempt_tick() {
    let _h = Harness::enter();
    let k = match &s().policy {
        Policy::Script { preempts, .. } => {
            let t = unsafe { TICK };
            match preempts.get(s().pi) {
                Some(&(at, k)) if t >= at => {
                    s().pi += 1;
                    Some(k as usize)
                },
                _ => {
                    s().set_next();
                    return;
                },
            }
        },
        _ => None,
    };
    s().set_next();
    preempt(k);
}

fn preempt(k: Option<usize>) {
    let _h = Harness::enter();
    let me = s().cur;
    let cands = s().candidates(Some(me));
    if cands.is_empty() {
        return;
    }
    let k = match k {
        Some(k) => k % cands.len(),
        None => {
            let k = s().draw(&cands);
            if s().stalled(cands[k]) {
                return; // nothing but the stalled thread: keep running
            }
            k
        },
    };
    s().rec.preempts.push((unsafe { TICK }, k as u8));
    switch_to(cands[k]);
}

fn yield_() {
    let _h = Harness::enter();
    let me = s().cur;
    let cands = s().candidates(Some(me));
    if !cands.is_empty() {
        let n = s().forced_thread(&cands);
        switch_to(n);
    }
}

/// The current thread cannot continue.
fn switch_away() {
    let _h = Harness::enter();
    let me = s().cur;
    if s().ths.iter().all(|t| !t.root || matches!(t.st, St::Done)) {
        finish(End::Done);
        return park(me);
    }
    let mut cands = s().candidates(None);
    if cands.is_empty() {
        // virtual time: the first sleeper with a timeout wakes up
        let sleeper = (0..s().ths.len()).find(|&i| matches!(s().ths[i].st, St::Futex { timeout: true, .. }));
        match sleeper {
            Some(i) => {
                s().ths[i].st = St::Runnable;
                s().ths[i].timed_out = true;
                cands.push(i);
            },
            None => {
                finish(End::Deadlock);
                return park(me);
            },
        }
    }
    let n = s().forced_thread(&cands);
    switch_to(n);
}

fn switch_to(n: usize) {
    let me = s().cur;
    s().ths[n].st = St::Runnable;
    if n == me {
        return;
    }
    let sc = s();
    sc.rec.switches += 1;
    sc.rec.hash = mix(sc.rec.hash ^ ((me as u64) << 40 | (n as u64) << 32 | sc.edge as u64));
    sc.cur = n;
    let w = &*sc.ths[n].wake as *const AtomicU32;
    let mine = &*sc.ths[me].wake as *const AtomicU32;
    let done = matches!(sc.ths[me].st, St::Done);
    unsafe {
        (*w).store(1, SeqCst);
        raw::futex_wake(w as *const u32, 1);
        if !done {
            wait_for(mine); // an exiting thread never gets the baton back
        }
    }
}

unsafe fn wait_for(w: *const AtomicU32) {
    while (*w).swap(0, SeqCst) != 1 {
        raw::futex_wait(w as *const u32, 0);
    }
}

/// after the end of the simulation
fn park(me: usize) {
    let w: *const AtomicU32 = &*s().ths[me].wake;
    if !matches!(s().ths[me].st, St::Done) {
        unsafe { wait_for(w) }
    }
}

pub fn park_forever() -> ! {
    static NEVER: AtomicU32 = AtomicU32::new(0);
    loop {
        unsafe { raw::futex_wait(&NEVER as *const _ as *const u32, 0) }
    }
}

/// Ends the simulation and gives control back to the harness.
pub fn finish(e: End) {
    unsafe { ACTIVE = false };
    s().end = Some(e);
    MAINWAKE.store(1, SeqCst);
    unsafe { raw::futex_wake(&MAINWAKE as *const _ as *const u32, 1) };
}

/// The simulated process does things without end.
pub fn runaway() -> ! {
    finish(End::Livelock);
    park_forever()
}

/// The simulated process dies here.
pub fn crash() -> ! {
    finish(End::Crashed);
    park_forever()
}

pub fn setup(policy: Policy, limit: u64) {
    let seed = match policy {
        Policy::Seeded { seed, .. } => seed,
        _ => 0,
    };
    unsafe {
        TICK = 0;
        #[allow(static_mut_refs)]
        COV.fill(0);
        S = Some(Sched {
            ths: vec![],
            cur: 0,
            policy,
            rng: Rng::new(seed),
            rec: Rec::default(),
            pi: 0,
            fi: 0,
            nopreempt: 0,
            end: None,
            limit,
            edge: 0,
        });
    }
    s().set_next();
}

fn register(root: bool) -> (usize, usize) {
    let s = s();
    s.ths.push(Th {
        st: St::Runnable,
        wake: Box::new(AtomicU32::new(0)),
        root,
        timed_out: false,
        pthread: 0,
    });
    (s.ths.len() - 1, &*s.ths[s.ths.len() - 1].wake as *const AtomicU32 as usize)
}

fn enter_thread(id: usize, w: usize) {
    ID.with(|i| i.set(id as isize));
    let w = w as *const AtomicU32;
    unsafe {
        while (*w).swap(0, SeqCst) != 1 {
            raw::futex_wait(w as *const u32, 0);
        }
    }
}

fn leave_thread() {
    if active() {
        let s = s();
        let me = s.cur;
        s.ths[me].st = St::Done;
        switch_away();
    }
    ID.with(|i| i.set(-1));
}

/// Adds a simulated thread (before `run`).  Root threads are those whose end ends the run.
pub fn spawn<F: FnOnce() + Send + 'static>(root: bool, f: F) -> usize {
    let (id, w) = register(root);
    std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            enter_thread(id, w);
            f();
            leave_thread();
        })
        .unwrap();
    id
}

/// Runs the simulation to its end.
pub fn run() -> (End, Rec) {
    let s = s();
    let cands: Vec<usize> = (0..s.ths.len()).filter(|&i| s.ths[i].root).collect();
    let first = s.forced_thread(&cands);
    s.cur = first;
    unsafe { ACTIVE = true };
    let w = &*s.ths[first].wake as *const AtomicU32;
    unsafe {
        (*w).store(1, SeqCst);
        raw::futex_wake(w as *const u32, 1);
        while MAINWAKE.swap(0, SeqCst) != 1 {
            raw::futex_wait(&MAINWAKE as *const _ as *const u32, 0);
        }
    }
    let s = self::s();
    s.rec.ticks = unsafe { TICK };
    (s.end.unwrap(), s.rec.clone())
}

pub fn coverage() -> Vec<u8> {
    #[allow(static_mut_refs)]
    unsafe {
        let n = NEDGES as usize + 1;
        let mut v = vec![0u8; (n + 7) / 8];
        for i in 0..n.min(NCOV) {
            if COV[i] != 0 {
                v[i / 8] |= 1 << (i % 8)
            }
        }
        v
    }
}

// ---- futex, thread creation -------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && armed() {
        let s = s();
        let me = s.cur;
        match b & 0x7f {
            0 | 9 => {
                // WAIT, WAIT_BITSET
                if (*(a as *const AtomicU32)).load(SeqCst) != c as u32 {
                    raw::set_errno(libc::EAGAIN);
                    return -1;
                }
                s.ths[me].timed_out = false;
                s.ths[me].st = St::Futex { addr: a as usize, timeout: d != 0 };
                switch_away();
                if s.ths[me].timed_out {
                    s.ths[me].timed_out = false;
                    raw::set_errno(libc::ETIMEDOUT);
                    return -1;
                }
                return 0;
            },
            1 | 10 => {
                let mut n = 0;
                for t in s.ths.iter_mut() {
                    if n < c && matches!(t.st, St::Futex { addr, .. } if addr == a as usize) {
                        t.st = St::Runnable;
                        n += 1;
                    }
                }
                point(Point::Wake);
                return n;
            },
            _ => {},
        }
    }
    raw::ret(raw::sys6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if armed() {
        yield_now();
        return 0;
    }
    raw::ret(raw::sys6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}

type StartFn = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::c_void, StartFn, *mut libc::c_void) -> i32;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;

struct Tramp {
    id: usize,
    w: usize,
    start: StartFn,
    arg: *mut libc::c_void,
}

extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let t = unsafe { Box::from_raw(p as *mut Tramp) };
    enter_thread(t.id, t.w);
    let r = (t.start)(t.arg);
    leave_thread();
    r
}

/// Threads the code under test starts by itself become simulated threads too.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    th: *mut libc::pthread_t,
    attr: *const libc::c_void,
    start: StartFn,
    arg: *mut libc::c_void,
) -> i32 {
    let real: CreateFn = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()));
    if !armed() {
        return real(th, attr, start, arg);
    }
    let (id, w) = register(false);
    let t = Box::into_raw(Box::new(Tramp { id, w, start, arg }));
    let r = real(th, attr, trampoline, t as *mut libc::c_void);
    if r == 0 {
        s().ths[id].pthread = *th as u64;
        point(Point::Sys);
    } else {
        s().ths[id].st = St::Done;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, out: *mut *mut libc::c_void) -> i32 {
    let real: JoinFn = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr()));
    if armed() {
        if let Some(i) = (0..s().ths.len()).rev().find(|&i| s().ths[i].pthread == th as u64) {
            let _h = Harness::enter();
            block_until(Box::new(move || matches!(s().ths[i].st, St::Done)));
        }
    }
    real(th, out)
}

// ---- clock, randomness, CPUs --------------------------------------------------------------------

static mut WORLD: u64 = 0;
static mut SLEPT: u64 = 0;
static mut DRAWN: u64 = 0;

pub fn set_world(w: u64) {
    unsafe {
        WORLD = w;
        SLEPT = 0;
        DRAWN = 0;
    }
}

/// Random numbers: a sequence that depends on the environment's seed.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        DRAWN += 1;
        *buf.add(i) = mix(DRAWN ^ WORLD ^ 0x1234_5678) as u8;
    }
    len as isize
}

/// Environment variables: other ones on every machine, apart from those that control the language's own
/// runtime.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    type Fn = unsafe extern "C" fn(*const libc::c_char) -> *mut libc::c_char;
    let real = || -> Fn { std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"getenv".as_ptr())) };
    if !armed() || WORLD == 0 {
        return real()(name);
    }
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    if n.starts_with(b"RUST") || n.starts_with(b"LD_") {
        return real()(name);
    }
    let h = n.iter().fold(WORLD, |h, c| mix(h ^ *c as u64));
    let v: Option<&std::ffi::CStr> = match h % 8 {
        0 => Some(c"1"),
        1 => Some(c"0"),
        2 => Some(c"/nowhere/at/all"),
        3 => Some(c""),
        4 => Some(c"de_DE.UTF-8"),
        _ => None,
    };
    v.map(|v| v.as_ptr() as *mut libc::c_char).unwrap_or(std::ptr::null_mut())
}

/// The clock of a machine of some speed which somebody sets now and then.
fn now(clock: i32) -> (i64, i64) {
    unsafe {
        let cost = 1 + if WORLD == 0 { 9 } else { 1u64 << (mix(WORLD) % 18) };
        let mut ns = TICK * cost + SLEPT;
        if clock == libc::CLOCK_REALTIME || clock == libc::CLOCK_REALTIME_COARSE {
            ns += 1_700_000_000_000_000_000;
            if WORLD != 0 {
                // jumps forwards and backwards
                ns = ns.wrapping_add(mix(WORLD ^ (TICK >> 12)) % 400_000_000_000_000_000) - 200_000_000_000_000_000;
            }
        } else {
            ns += 1_000_000_000_000 + if WORLD == 0 { 0 } else { mix(WORLD ^ 7) % 1_000_000_000_000_000 };
        }
        ((ns / 1_000_000_000) as i64, (ns % 1_000_000_000) as i64)
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, t: *mut libc::timespec) -> i32 {
    if !armed() {
        return raw::ret(raw::sys6(libc::SYS_clock_gettime, clock as i64, t as i64, 0, 0, 0, 0)) as i32;
    }
    point(Point::Sys);
    let (a, b) = now(clock);
    (*t).tv_sec = a;
    (*t).tv_nsec = b;
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, t: *const libc::timespec, rest: *mut libc::timespec) -> i32 {
    if !armed() {
        return -raw::sys6(libc::SYS_clock_nanosleep, clock as i64, flags as i64, t as i64, rest as i64, 0, 0) as i32;
    }
    if flags & libc::TIMER_ABSTIME == 0 {
        SLEPT += ((*t).tv_sec as u64).min(1 << 30) * 1_000_000_000 + (*t).tv_nsec as u64;
    }
    yield_now();
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rest: *mut libc::timespec) -> i32 {
    if !armed() {
        return raw::ret(raw::sys6(libc::SYS_nanosleep, t as i64, rest as i64, 0, 0, 0, 0)) as i32;
    }
    clock_nanosleep(libc::CLOCK_REALTIME, 0, t, rest)
}

/// What std::thread::available_parallelism looks at
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, len: usize, set: *mut libc::cpu_set_t) -> i32 {
    if !armed() {
        let r = raw::ret(raw::sys6(libc::SYS_sched_getaffinity, pid as i64, len as i64, set as i64, 0, 0, 0));
        return if r < 0 { -1 } else { 0 };
    }
    std::ptr::write_bytes(set as *mut u8, 0, len);
    let n = if WORLD == 0 { 1 } else { 1 + mix(WORLD ^ 3) % 8 };
    for c in 0..n as usize {
        libc::CPU_SET(c, &mut *set);
    }
    0
}
