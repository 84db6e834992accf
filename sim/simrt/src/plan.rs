//! What one simulated process does, and what it logs.  Not instrumented: logging is atomic with
//! respect to preemption and never draws from the scheduler's PRNG.
use crate::io::{Act, Fault, IoPlan};
use crate::mem::{self, Harness};
use crate::sched::{self, Policy};
use crate::codec::Codec;
use std::cell::Cell;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct StreamCfg {
    pub file: bool,
    pub csv: bool,
    pub vector: bool,
    pub folder: String,
    pub clear: bool,
    pub name: String,
    pub prec: u32,
    pub ghost: bool,
    pub meta: bool,
    /// 0 xi_cent 1 xi_west 2 xi_east 3 c_sound 4 t 5 iter 6 dt 7 dt_kind 10+j prim 20+j cons
    pub data: Vec<u8>,
}
crate::codec_struct!(StreamCfg { file, csv, vector, folder, clear, name, prec, ghost, meta, data });

pub const A_ERR: u8 = 0;
pub const A_NAN: u8 = 1;
pub const A_NEG: u8 = 2;
pub const A_HUGE: u8 = 3;
pub const A_INF: u8 = 4;
pub const A_PANIC: u8 = 5;
pub const SITE_BEFORE: u8 = 0;
pub const SITE_AFTER: u8 = 1;
pub const SITE_FLUX: u8 = 2;
pub const SITE_INIT: u8 = 3;

/// A fault inside the simulation: at the at-th step (counted over all attempts, from 0), before or
/// after the time solver did its work, or in the k-th flux evaluation of that step.
#[derive(Clone, Debug, PartialEq)]
pub struct StepFault {
    pub at: u32,
    pub site: u8,
    pub k: u32,
    pub act: u8,
    /// cell (and equation) the bad value goes to
    pub cell: u32,
    pub eq: u32,
}
crate::codec_struct!(StepFault { at, site, k, act, cell, eq });

#[derive(Clone, Debug, PartialEq)]
pub struct SimCfg {
    /// 0 adiabatic, 1 isothermal
    pub phys: u8,
    /// 0 HLL, 1 KT
    pub flux: u8,
    /// 0 none, 1 minmod, 2 superbee, 3 monocent, 4 van Leer
    pub lim: u8,
    pub lim_p: f64,
    pub s: u32,
    pub xi_in: f64,
    pub xi_out: f64,
    pub gamma: f64,
    pub units: u8,
    /// None: NoGradients; otherwise Custom
    pub bcw: Option<Vec<(u8, u8)>>,
    pub bce: Option<Vec<(u8, u8)>>,
    pub rkf: u8,
    pub asc: bool,
    pub rtol: f64,
    pub atol: f64,
    pub friction: f64,
    pub iter_max: u64,
    pub t0: f64,
    pub t_end: f64,
    pub dt_min: f64,
    pub dt_max: f64,
    pub cfl: f64,
    pub nout: u64,
    pub banner: bool,
    pub streams: Vec<StreamCfg>,
    /// primitive variables, row by row (E x S)
    pub ic: Vec<f64>,
    /// isothermal sound speed per cell
    pub cs: Vec<f64>,
    pub faults: Vec<StepFault>,
    /// if non-empty: a stand-in time solver takes these steps (cyclically)
    pub stub_dt: Vec<f64>,
    /// further calls of run_corries after one that failed / succeeded
    pub retries: u32,
    pub reruns: u32,
    /// the configuration names the other flux scheme than the type
    pub flux_mismatch: bool,
    /// if non-empty: the user calls next_solution, with an output this far ahead, instead of run_corries
    pub manual: Vec<f64>,
    /// if non-empty: what the user does (an OP_ plus 256 times its argument), instead of calling run_corries until
    /// it succeeds
    pub script: Vec<u64>,
    /// if non-empty: no simulation, but a thread that prints blocks of this many lines while holding
    /// the lock of stdout
    pub printer: Vec<u32>,
    /// log what flux schemes and solvers are handed
    pub probe: bool,
    /// what the user takes ready-made from the library: a sum of READY_
    pub ready: u8,
    /// quantities the user converts between systems of units beforehand
    pub convert: Vec<f64>,
    /// what each row is in a physics of the user's own: density, velocity, pressure, tracer; none: a shipped one
    pub own: Vec<u8>,
    /// where the user has the set-up and what follows it done (cyclically): a HOP_
    pub hop: Vec<u8>,
}
/// right here
pub const HOP_STAY: u8 = 0;
/// on a thread of its own
pub const HOP_THREAD: u8 = 1;
/// on the pool
pub const HOP_JOIN: u8 = 2;
/// on the pool, in a scope
pub const HOP_SCOPE: u8 = 3;
/// the configuration
pub const READY_CONFIG: u8 = 1;
/// the initial conditions of the Noh test
pub const READY_NOH: u8 = 2;
/// the initial conditions of the Sod test
pub const READY_SOD: u8 = 4;
/// only the data to be written are chosen by the user
pub const READY_NAMES: u8 = 8;
/// call run_corries
pub const OP_RUN: u64 = 1;
/// set the largest number of iterations
pub const OP_ITER_MAX: u64 = 2;
/// keep a clone of the state and of the time step control
pub const OP_SAVE: u64 = 3;
/// set both back to the clone of that number
pub const OP_RESTORE: u64 = 4;
/// replace the solver by that of a simulation newly set up from the same configuration
pub const OP_FRESH: u64 = 5;
/// write the current state to all streams
pub const OP_WRITE: u64 = 6;
/// a single call of next_solution, unless the simulation is at its end
pub const OP_STEP: u64 = 7;
/// conversions of lengths, times and masses, by mode of the units (argument)
pub const OP_CONVERT: u64 = 8;
crate::codec_struct!(SimCfg { phys, flux, lim, lim_p, s, xi_in, xi_out, gamma, units, bcw, bce, rkf, asc, rtol, atol,
    friction, iter_max, t0, t_end, dt_min, dt_max, cfl, nout, banner, streams, ic, cs, faults, stub_dt, retries,
    reruns, flux_mismatch, manual, script, printer, probe, ready, convert, own, hop });

impl SimCfg {
    pub fn e(&self) -> usize {
        match self.own.len() {
            0 if self.phys == 0 => 3,
            0 => 2,
            n => n,
        }
    }
    pub fn asc_on(&self) -> bool {
        self.asc && !matches!(self.rkf, 0 | 1 | 3)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pre {
    Dir(String),
    File(String, Vec<u8>),
    Link(String, String),
}
impl Codec for Pre {
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            Pre::Dir(p) => { 0u8.put(o); p.put(o) },
            Pre::File(p, b) => { 1u8.put(o); p.put(o); b.put(o) },
            Pre::Link(p, t) => { 2u8.put(o); p.put(o); t.put(o) },
        }
    }
    fn get(i: &mut &[u8]) -> Self {
        match u8::get(i) {
            0 => Pre::Dir(String::get(i)),
            1 => { let p = String::get(i); Pre::File(p, Vec::get(i)) },
            _ => { let p = String::get(i); Pre::Link(p, String::get(i)) },
        }
    }
}
impl Codec for Act {
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            Act::Errno(e) => { 0u8.put(o); e.put(o) },
            Act::Sticky(e) => { 1u8.put(o); e.put(o) },
            Act::Short(k) => { 2u8.put(o); k.put(o) },
            Act::Crash(k) => { 3u8.put(o); k.put(o) },
        }
    }
    fn get(i: &mut &[u8]) -> Self {
        match u8::get(i) {
            0 => Act::Errno(i32::get(i)),
            1 => Act::Sticky(i32::get(i)),
            2 => Act::Short(u32::get(i)),
            _ => Act::Crash(u32::get(i)),
        }
    }
}
crate::codec_struct!(Fault { class, nth, act });
crate::codec_struct!(IoPlan { faults, quota, max_write, eintr_every });
impl Codec for Policy {
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            Policy::Script { preempts, forced } => { 0u8.put(o); preempts.put(o); forced.put(o) },
            Policy::Seeded { seed, gap, p_sys, p_join, stall } => {
                1u8.put(o); seed.put(o); gap.put(o); p_sys.put(o); p_join.put(o); stall.put(o)
            },
        }
    }
    fn get(i: &mut &[u8]) -> Self {
        match u8::get(i) {
            0 => { let preempts = Vec::get(i); Policy::Script { preempts, forced: Vec::get(i) } },
            _ => {
                let seed = u64::get(i);
                let gap = u32::get(i);
                let p_sys = u16::get(i);
                let p_join = u16::get(i);
                Policy::Seeded { seed, gap, p_sys, p_join, stall: Option::get(i) }
            },
        }
    }
}

/// One simulated process, from start to exit or crash.
#[derive(Clone, Debug, PartialEq)]
pub struct Phase {
    pub sims: Vec<SimCfg>,
    /// user threads, each running these simulations one after the other
    pub roots: Vec<Vec<u8>>,
    /// threads of the pool
    pub threads: u8,
    pub policy: Policy,
    pub io: IoPlan,
    /// files that are there before the process starts (relative to the scratch directory)
    pub pre: Vec<Pre>,
    /// seed of the environment: clock, random numbers, number of CPUs (0: the plainest one)
    pub world: u64,
    /// corries without its feature `validation`
    pub bare: bool,
    /// each user thread has its simulations run in a parallel iterator
    pub nest: bool,
}
crate::codec_struct!(Phase { sims, roots, threads, policy, io, pre, world, bare, nest });

#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub iter: u64,
    pub t: f64,
    pub dt: f64,
    pub kind: String,
    pub t_next: f64,
    pub dt_out: f64,
    pub prim: Vec<f64>,
    pub cons: Vec<f64>,
    pub cs: Vec<f64>,
}
crate::codec_struct!(Snap { iter, t, dt, kind, t_next, dt_out, prim, cons, cs });

/// A state as some component gets to see it
#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    pub at: u8,
    pub prim: Vec<f64>,
    pub cons: Vec<f64>,
    pub cs: Vec<f64>,
    /// slowest and fastest waves
    pub lo: Vec<f64>,
    pub hi: Vec<f64>,
    /// those in between
    pub mid: Vec<f64>,
    /// sound speeds of both sides
    pub cs_west: Vec<f64>,
    pub cs_east: Vec<f64>,
    pub gamma: Vec<f64>,
    /// the physical flux it comes to
    pub flux: Vec<f64>,
    /// what is wrong with the mesh
    pub mesh: String,
}
crate::codec_struct!(Seen { at, prim, cons, cs, lo, hi, mid, cs_west, cs_east, gamma, flux, mesh });
/// after the set-up, by the solver, by the flux scheme, after a step
pub const AT_INIT: u8 = 0;
pub const AT_SOLVER: u8 = 1;
pub const AT_FLUX: u8 = 2;
pub const AT_END: u8 = 3;

#[derive(Clone, Debug, PartialEq)]
pub enum What {
    Start,
    Init { ok: bool, panic: bool, msg: String, snap: Option<Snap> },
    RunBegin,
    StepBegin(Snap),
    StepEnd { ok: bool, msg: String, fluxes: u32, snap: Snap },
    /// a step fault was applied
    Fired(u32),
    RunEnd { ok: bool, panic: bool, msg: String },
    Seen(Seen),
    /// the user did this, and then it was so
    Note { op: u64, ok: bool, snap: Snap },
}
impl Codec for What {
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            What::Start => 0u8.put(o),
            What::Init { ok, panic, msg, snap } => { 1u8.put(o); ok.put(o); panic.put(o); msg.put(o); snap.put(o) },
            What::RunBegin => 2u8.put(o),
            What::StepBegin(s) => { 3u8.put(o); s.put(o) },
            What::StepEnd { ok, msg, fluxes, snap } => { 4u8.put(o); ok.put(o); msg.put(o); fluxes.put(o); snap.put(o) },
            What::Fired(k) => { 5u8.put(o); k.put(o) },
            What::RunEnd { ok, panic, msg } => { 6u8.put(o); ok.put(o); panic.put(o); msg.put(o) },
            What::Seen(s) => { 8u8.put(o); s.put(o) },
            What::Note { op, ok, snap } => { 7u8.put(o); op.put(o); ok.put(o); snap.put(o) },
        }
    }
    fn get(i: &mut &[u8]) -> Self {
        match u8::get(i) {
            0 => What::Start,
            1 => { let ok = bool::get(i); let panic = bool::get(i); let msg = String::get(i);
                   What::Init { ok, panic, msg, snap: Option::get(i) } },
            2 => What::RunBegin,
            3 => What::StepBegin(Snap::get(i)),
            4 => { let ok = bool::get(i); let msg = String::get(i); let fluxes = u32::get(i);
                   What::StepEnd { ok, msg, fluxes, snap: Snap::get(i) } },
            5 => What::Fired(u32::get(i)),
            6 => { let ok = bool::get(i); let panic = bool::get(i); What::RunEnd { ok, panic, msg: String::get(i) } },
            8 => What::Seen(Seen::get(i)),
            _ => { let op = u64::get(i); let ok = bool::get(i); What::Note { op, ok, snap: Snap::get(i) } },
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub tick: u64,
    /// bytes on the heap
    pub live: i64,
    pub what: What,
}
crate::codec_struct!(Ev { tick, live, what });

#[derive(Clone, Default)]
pub struct SimState {
    pub log: Vec<Ev>,
    pub step: u32,
    pub flux: u32,
    pub in_step: bool,
    pub stub: u32,
}

static mut BASE: i64 = 0;
static mut PHASE: Option<Phase> = None;
static mut SIMS: Vec<SimState> = vec![];

#[allow(static_mut_refs)]
pub fn set(p: Phase) {
    unsafe {
        SIMS = vec![SimState::default(); p.sims.len()];
        PHASE = Some(p);
        BASE = mem::live();
    }
}
#[allow(static_mut_refs)]
pub fn sim(i: usize) -> &'static SimCfg {
    unsafe { &PHASE.as_ref().unwrap().sims[i] }
}
#[allow(static_mut_refs)]
pub fn state(i: usize) -> &'static mut SimState {
    unsafe { &mut SIMS[i] } // only touched by the holder of the baton
}
#[allow(static_mut_refs)]
pub fn take_logs() -> Vec<Vec<Ev>> {
    unsafe { SIMS.iter_mut().map(|s| std::mem::take(&mut s.log)).collect() }
}

/// pointers to the logs grow without the instrumented code noticing
pub fn log(i: usize, what: What) {
    let _h = Harness::enter();
    let tick = unsafe { sched::TICK };
    let live = mem::live() - unsafe { BASE };
    let st = state(i);
    st.log.push(Ev { tick, live, what });
    if st.log.len() > 60_000 {
        sched::runaway();
    }
}

thread_local! {
    static CUR: Cell<usize> = const { Cell::new(usize::MAX) };
}
/// The simulation the calling thread is working on
pub fn set_current(i: usize) {
    CUR.with(|c| c.set(i))
}
pub fn current() -> usize {
    CUR.with(|c| c.get())
}

/// The fault (its number, the fault) due at this site, if any
pub fn due(i: usize, site: u8) -> Option<StepFault> {
    let st = state(i);
    let _h = Harness::enter();
    for (n, f) in sim(i).faults.iter().enumerate() {
        let hit = f.site == site
            && match site {
                SITE_INIT => true,
                SITE_FLUX => st.in_step && f.at + 1 == st.step && f.k + 1 == st.flux,
                _ => f.at + 1 == st.step,
            };
        if hit {
            log(i, What::Fired(n as u32));
            return Some(f.clone());
        }
    }
    None
}

/// What the simulated process reports
#[derive(Clone, Debug, Default)]
pub struct Report {
    pub end: u8, // 0 done, 1 deadlock, 2 livelock, 3 crashed, 4 died
    pub signal: i32,
    pub rec: sched::Rec,
    pub io: crate::io::IoRec,
    pub logs: Vec<Vec<Ev>>,
    pub cov: Vec<u8>,
    pub steals: u64,
    pub forks: u64,
}
crate::codec_struct!(Report { end, signal, rec, io, logs, cov, steals, forks });
