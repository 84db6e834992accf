//! Cases, running them, statistics, minimisation.
use crate::exec::{Env, Res};
use simrt::codec::Codec;
use simrt::plan::*;
use simrt::prng::mix;
use simrt::sched::{Policy, Rec};
use simrt::{codec_struct, io};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub phases: Vec<Phase>,
    pub knob: Vec<i64>,
}
codec_struct!(Case { phases, knob });

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}
codec_struct!(Viol { class, detail });

pub fn viol<T>(class: &str, detail: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.into(), detail: detail.into() })
}

#[derive(Default, Clone)]
pub struct Stats {
    pub cases: u64,
    pub procs: u64,
    pub counts: BTreeMap<String, u64>,
    pub schedules: BTreeSet<u64>,
    pub nontrivial: BTreeSet<u64>,
    pub cov: Vec<u8>,
    pub edges: u64,
    pub sim_time: f64,
    pub ticks: u64,
    /// of a single process, scheduling points and system calls
    pub longest: u64,
    pub most_calls: u64,
    pub switches: u64,
    pub preempts: u64,
    pub steals: u64,
    pub steps: u64,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn put(&self) -> Vec<u8> {
        let mut o = vec![];
        self.cases.put(&mut o);
        self.procs.put(&mut o);
        self.counts.iter().map(|(a, b)| (a.clone(), *b)).collect::<Vec<_>>().put(&mut o);
        self.schedules.iter().copied().collect::<Vec<u64>>().put(&mut o);
        self.nontrivial.iter().copied().collect::<Vec<u64>>().put(&mut o);
        self.cov.put(&mut o);
        for x in [self.edges, self.ticks, self.longest, self.most_calls, self.switches, self.preempts, self.steals, self.steps] {
            x.put(&mut o)
        }
        self.sim_time.put(&mut o);
        self.samples.put(&mut o);
        o
    }
    pub fn merge(&mut self, i: &mut &[u8]) {
        self.cases += u64::get(i);
        self.procs += u64::get(i);
        for (k, n) in Vec::<(String, u64)>::get(i) {
            *self.counts.entry(k).or_default() += n;
        }
        self.schedules.extend(Vec::<u64>::get(i));
        self.nontrivial.extend(Vec::<u64>::get(i));
        let cov = Vec::<u8>::get(i);
        self.add_cov(&cov);
        self.edges = self.edges.max(u64::get(i));
        self.ticks += u64::get(i);
        self.longest = self.longest.max(u64::get(i));
        self.most_calls = self.most_calls.max(u64::get(i));
        self.switches += u64::get(i);
        self.preempts += u64::get(i);
        self.steals += u64::get(i);
        self.steps += u64::get(i);
        self.sim_time += f64::get(i);
        self.samples.extend(Vec::<String>::get(i));
    }
    fn add_cov(&mut self, cov: &[u8]) {
        if self.cov.len() < cov.len() {
            self.cov.resize(cov.len(), 0)
        }
        for (a, b) in self.cov.iter_mut().zip(cov) {
            *a |= b
        }
    }
    pub fn hit(&mut self, what: &str) {
        *self.counts.entry(what.to_string()).or_default() += 1;
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    b.chunks(8).fold(0x9e37, |h, c| {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        mix(h ^ u64::from_le_bytes(x))
    })
}

pub struct Ctx<'a> {
    pub env: &'a mut Env,
    pub stats: &'a mut Stats,
    /// how the phases of the case were scheduled, to turn seeds into scripts
    pub recs: BTreeMap<usize, Rec>,
}

impl<'a> Ctx<'a> {
    pub fn run(&mut self, ph: &Phase, keep: bool) -> Result<Res, Viol> {
        let res = self.env.run(ph, keep);
        let st = &mut *self.stats;
        st.procs += 1;
        let rep = &res.rep;
        st.schedules.insert(rep.rec.hash ^ rep.rec.ticks);
        st.add_cov(&rep.cov);
        st.edges = st.edges.max(rep.cov.len() as u64 * 8);
        st.ticks += rep.rec.ticks;
        st.longest = st.longest.max(rep.rec.ticks);
        st.most_calls = st.most_calls.max(rep.io.ops.len() as u64);
        st.switches += rep.rec.switches;
        st.preempts += rep.rec.preempts.len() as u64;
        st.steals += rep.steals;
        for op in &rep.io.ops {
            if op.fault != 0 {
                let kind = ["", "error", "short", "interrupted", "disk full", "crash", "refused"][op.fault as usize];
                st.hit(&format!("io: {} {}", io::CLASS_NAMES[op.class as usize], kind));
            }
        }
        for l in &rep.logs {
            let mut t = (f64::NAN, f64::NAN);
            for e in l {
                match &e.what {
                    What::Fired(_) => st.hit("fault inside a simulation"),
                    What::StepEnd { ok, snap, .. } => {
                        st.steps += 1;
                        if !ok {
                            st.hit("failed steps");
                        }
                        t.1 = snap.t
                    },
                    What::Init { snap: Some(s), .. } => t.0 = s.t,
                    _ => {},
                }
            }
            if (t.1 - t.0).is_finite() {
                st.sim_time += t.1 - t.0
            }
        }
        match rep.end {
            1 => return viol("deadlock", "every thread of the process waits for ever"),
            2 => return viol("livelock", format!("no end after {} scheduling steps", rep.rec.ticks)),
            3 => st.hit("process crashed"),
            4 => {
                let s = rep.signal;
                if libc::WIFSIGNALED(s) && [libc::SIGKILL, libc::SIGALRM].contains(&libc::WTERMSIG(s)) {
                    return viol(STALLED, format!("the process was killed by signal {}", libc::WTERMSIG(s)));
                }
                if libc::WIFSIGNALED(s) {
                    return viol("died", format!("the process was killed by signal {}", libc::WTERMSIG(s)));
                }
                eprintln!("harness error: simulated process ended with wait status {s}");
                std::process::exit(3);
            },
            _ => {},
        }
        Ok(res)
    }

    /// Runs phase k of the case itself
    pub fn run_phase(&mut self, case: &Case, k: usize, keep: bool) -> Result<Res, Viol> {
        // the schedule of a failed run is needed too: the record is part of the report
        let ph = &case.phases[k];
        let res = self.run_recording(ph, keep, k)?;
        Ok(res)
    }
    pub fn run_recording(&mut self, ph: &Phase, keep: bool, k: usize) -> Result<Res, Viol> {
        let r = self.run(ph, keep);
        if let (Ok(res), Ok(_)) = (&r, std::env::var("DST_DUMP")) {
            for (p, n) in &res.fs {
                println!("{p}: {n:?}");
            }
            println!("stdout: {}", String::from_utf8_lossy(&res.rep.io.stdout));
        }
        if let Ok(res) = &r {
            self.recs.insert(k, res.rep.rec.clone());
        }
        r
    }
    /// The same process on one thread, without faults
    pub fn golden(&mut self, ph: &Phase, keep: bool) -> Result<Res, Viol> {
        let mut g = ph.clone();
        g.threads = 1;
        g.policy = Policy::sequential();
        g.io = Default::default();
        g.world = 0;
        g.nest = false;
        g.sims.iter_mut().for_each(|s| s.hop.clear());
        self.run(&g, keep)
    }
    pub fn hit(&mut self, what: &str) {
        self.stats.hit(what)
    }
}

pub type CheckFn = fn(&Case, &mut Ctx) -> Result<bool, Viol>;

/// A simulated process that was killed, or that had not ended when its real time was up.  The time is
/// several hundred times what a process needs, and one that does not end by itself is stopped by its
/// number of steps much earlier: so the machine is what stalled, unless it happens again and again.
pub const STALLED: &str = "stalled";

/// The verdict about a case
pub fn judge(check: CheckFn, case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    for _ in 0..2 {
        match check(case, ctx) {
            Err(v) if v.class == STALLED => {
                ctx.stats.hit("case repeated because the machine stalled");
                ctx.recs.clear();
            },
            r => return r,
        }
    }
    check(case, ctx)
}
pub type GenFn = fn(&mut simrt::prng::Rng, &mut Ctx) -> Case;

pub struct Prop {
    pub id: &'static str,
    pub gen: GenFn,
    pub check: CheckFn,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

// ---- minimisation -------------------------------------------------------------------------------

pub struct Minimiser<'a> {
    pub env: &'a mut Env,
    pub check: CheckFn,
    pub class: String,
    pub evals: u32,
    pub deadline: std::time::Instant,
    pub best: Case,
    pub detail: String,
}

impl<'a> Minimiser<'a> {
    fn fails(&mut self, c: &Case) -> Option<(String, BTreeMap<usize, Rec>)> {
        if self.evals == 0 || std::time::Instant::now() > self.deadline {
            return None;
        }
        self.evals -= 1;
        let mut st = Stats::default();
        let mut ctx = Ctx { env: self.env, stats: &mut st, recs: Default::default() };
        match judge(self.check, c, &mut ctx) {
            Err(v) if v.class == self.class => {
                let r = std::mem::take(&mut ctx.recs);
                Some((v.detail, r))
            },
            _ => None,
        }
    }
    fn try_(&mut self, c: Case) -> bool {
        if c == self.best {
            return false;
        }
        match self.fails(&c) {
            Some((d, _)) => {
                self.best = c;
                self.detail = d;
                true
            },
            None => false,
        }
    }
    fn edit(&mut self, f: &dyn Fn(&mut Case)) -> bool {
        let mut c = self.best.clone();
        f(&mut c);
        for p in &mut c.phases {
            p.sims.iter_mut().for_each(crate::props::ready::documented);
        }
        self.try_(c)
    }

    pub fn run(&mut self) {
        // the simplest schedules first; otherwise make the schedule explicit and remove from it
        for k in 0..self.best.phases.len() {
            if !self.edit(&|c| {
                c.phases[k].policy = Policy::sequential();
                c.phases[k].threads = 1;
            }) {
                self.edit(&|c| c.phases[k].policy = Policy::sequential());
            }
        }
        if let Some((_, recs)) = self.fails(&self.best.clone()) {
            let mut c = self.best.clone();
            for (k, r) in recs {
                c.phases[k].policy = Policy::Script { preempts: r.preempts, forced: r.forced };
            }
            self.try_(c);
        }
        for round in 0..3 {
            let before = self.best.clone();
            self.shrink_faults();
            self.shrink_schedules();
            self.shrink_sims();
            if self.best == before || round == 2 {
                break;
            }
        }
    }

    fn shrink_faults(&mut self) {
        for k in 0..self.best.phases.len() {
            self.edit(&|c| c.phases[k].world = 0);
            let mut i = 0;
            while i < self.best.phases[k].io.faults.len() {
                if !self.edit(&|c| {
                    c.phases[k].io.faults.remove(i);
                }) {
                    i += 1
                }
            }
            self.edit(&|c| c.phases[k].io.quota = None);
            self.edit(&|c| c.phases[k].io.max_write = 0);
            self.edit(&|c| c.phases[k].io.eintr_every = 0);
            let mut i = 0;
            while i < self.best.phases[k].pre.len() {
                if !self.edit(&|c| {
                    c.phases[k].pre.remove(i);
                }) {
                    i += 1
                }
            }
        }
    }

    fn shrink_schedules(&mut self) {
        for k in 0..self.best.phases.len() {
            let t = self.best.phases[k].threads;
            for n in 1..t {
                if self.edit(&|c| c.phases[k].threads = n) {
                    break;
                }
            }
            let len = |c: &Case| match &c.phases[k].policy {
                Policy::Script { preempts, .. } => preempts.len(),
                _ => 0,
            };
            let mut chunk = len(&self.best).max(1);
            loop {
                let mut i = 0;
                while i < len(&self.best) {
                    let ok = self.edit(&|c| {
                        if let Policy::Script { preempts, .. } = &mut c.phases[k].policy {
                            let to = (i + chunk).min(preempts.len());
                            preempts.drain(i..to);
                        }
                    });
                    if !ok {
                        i += chunk
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
            let flen = |c: &Case| match &c.phases[k].policy {
                Policy::Script { forced, .. } => forced.len(),
                _ => 0,
            };
            let mut chunk = flen(&self.best).max(1);
            loop {
                let mut i = 0;
                while i < flen(&self.best) {
                    self.edit(&|c| {
                        if let Policy::Script { forced, .. } = &mut c.phases[k].policy {
                            let to = (i + chunk).min(forced.len());
                            forced[i..to].fill(0);
                        }
                    });
                    i += chunk
                }
                if chunk <= 8 {
                    break;
                }
                chunk /= 2;
            }
            self.edit(&|c| {
                if let Policy::Script { forced, .. } = &mut c.phases[k].policy {
                    while forced.last() == Some(&0) {
                        forced.pop();
                    }
                }
            });
        }
    }

    fn each_sim(&mut self, f: &dyn Fn(&mut SimCfg)) {
        self.edit(&|c| {
            for p in &mut c.phases {
                for s in &mut p.sims {
                    f(s)
                }
            }
        });
    }

    fn shrink_sims(&mut self) {
        for k in 0..self.best.phases.len() {
            for s in 0..self.best.phases[k].sims.len() {
                let mut i = 0;
                while i < self.best.phases[k].sims[s].faults.len() {
                    if !self.edit(&|c| {
                        c.phases[k].sims[s].faults.remove(i);
                    }) {
                        i += 1
                    }
                }
                let mut i = 0;
                while i < self.best.phases[k].sims[s].streams.len() && self.best.phases[k].sims[s].streams.len() > 1 {
                    if !self.edit(&|c| {
                        // keep the phases' configurations of the same simulation alike
                        for p in &mut c.phases {
                            if p.sims.len() > s && p.sims[s].streams.len() > i {
                                p.sims[s].streams.remove(i);
                            }
                        }
                    }) {
                        i += 1
                    }
                }
            }
        }
        self.each_sim(&|s| {
            s.bcw = None;
            s.bce = None
        });
        self.each_sim(&|s| s.hop.clear());
        self.edit(&|c| c.phases.iter_mut().for_each(|p| p.nest = false));
        self.each_sim(&|s| s.asc = false);
        self.each_sim(&|s| s.rkf = 0);
        self.each_sim(&|s| s.lim = 0);
        self.each_sim(&|s| s.banner = false);
        self.each_sim(&|s| s.streams.iter_mut().for_each(|t| t.meta = false));
        self.each_sim(&|s| s.streams.iter_mut().for_each(|t| t.ghost = false));
        self.each_sim(&|s| {
            for t in &mut s.streams {
                if t.data.len() > 1 {
                    t.data.truncate(1)
                }
            }
        });
        self.each_sim(&|s| s.retries = 0);
        while self.best.phases.iter().any(|p| p.sims.iter().any(|s| s.manual.len() > 1)) {
            let before = self.best.clone();
            self.each_sim(&|s| {
                if s.manual.len() > 1 {
                    s.manual.pop();
                }
            });
            if self.best == before {
                break;
            }
        }
        self.each_sim(&|s| s.reruns = 0);
        for k in 0..self.best.phases.len() {
            for s in 0..self.best.phases[k].sims.len() {
                let mut i = 0;
                while i < self.best.phases[k].sims[s].script.len() && self.best.phases[k].sims[s].script.len() > 1 {
                    if !self.edit(&|c| {
                        c.phases[k].sims[s].script.remove(i);
                    }) {
                        i += 1
                    }
                }
            }
        }
        for n in [1u64, 2, 3] {
            self.each_sim(&|s| s.nout = s.nout.min(n));
        }
        for f in [0.1, 0.3, 0.6] {
            self.each_sim(&|s| s.t_end = s.t0 + (s.t_end - s.t0) * f);
        }
    }
}
