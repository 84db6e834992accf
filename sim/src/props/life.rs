//! C19 every run ends, C20 resources do not grow with the length of a run.
use super::*;
use simrt::io::{self, Act, Fault};
use simrt::sched::Policy;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            gen: c19_gen,
            check: c19,
            quick: 8000,
            thorough: 160_000,
            rule: "random simulation with extreme limits, tolerances, times, output counts and initial states (garbage included), failing steps, failing I/O, retries and reruns on a random schedule; non-trivial: at least one step was attempted",
        },
        Prop {
            id: "C20",
            gen: c20_gen,
            check: c20,
            quick: 900,
            thorough: 18_000,
            rule: "long random simulation (100-400 steps) with 1-4 streams, failures and retries on a random schedule; non-trivial: at least 80 step attempts were compared",
        },
    ]
}

// ---- C19 ------------------------------------------------------------------------------------------

fn extreme(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => r.log(1e-300, 1e-100),
        1 => r.log(1e-30, 1e-8),
        2 => r.log(1e-8, 1e8),
        _ => r.log(1e8, 1e300),
    }
}

fn c19_gen(r: &mut Rng, ctx: &mut Ctx) -> Case {
    let o = gen::Opt { asc: 0.6, wild: 0.4, nout: (0, 12), steps: (2.0, 30.0), small: r.chance(0.7), scale: 0.2, ..Default::default() };
    let mut c = gen::sim(r, &o);
    c.iter_max = r.range(1, 60) as u64;
    let dt = gen::typical_dt(&c);
    for _ in 0..r.range(1, 4) {
        match r.below(16) {
            0 => c.dt_min = r.log(1e-300, 1.0) * dt,
            1 => c.dt_min = dt * r.uni(0.5, 2.0),
            2 => c.dt_max = extreme(r),
            3 => c.t_end = c.t0 + dt * r.log(1e-10, 1e10),
            4 => c.t_end = r.log(1e20, 1e300),
            5 => {
                // a step is lost in the rounding of the time
                let d = c.t_end - c.t0;
                c.t0 = dt * r.log(1e10, 1e20);
                c.t_end = c.t0 + d.max(c.t0 * 4e-16 * r.uni(1.0, 20.0));
            },
            6 => c.nout = *r.pick(&[1u64 << 20, 1 << 40, 1 << 53, 1 << 60, u64::MAX >> 1]),
            7 => c.rtol = extreme(r),
            8 => c.atol = extreme(r),
            9 => c.friction = r.log(1e-6, 1e4),
            10 => c.cfl = r.log(1e-12, 1e6),
            11 => {
                for _ in 0..r.range(1, 3) {
                    let k = r.below(c.ic.len() as u64) as usize;
                    c.ic[k] = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, -1.0, 1e300, -1e300, 1e-310, 5e-324]);
                }
            },
            12 => {
                let (j, n) = (r.below(c.e() as u64) as usize, c.s as usize);
                let x = *r.pick(&[0.0, 0.0, 1e200, 1e-200, f64::MIN_POSITIVE]);
                c.ic[j * n..(j + 1) * n].fill(x);
            },
            13 => c.gamma = 1.0 + r.log(1e-15, 1e10),
            14 => c.xi_out = c.xi_in + r.log(1e-12, 1e12),
            _ => c.iter_max = r.range(1, 3) as u64,
        }
    }
    if r.chance(0.7) {
        c.asc = !matches!(c.rkf, 0 | 1 | 3);
    }
    c.dt_min = c.dt_min.clamp(1e-305, 1e300);
    if c.dt_max <= c.dt_min {
        c.dt_max = c.dt_min * r.log(1.01, 1e6);
    }
    if c.asc_on() {
        // from the CFL time step down to dt_min by factors of four, in every step
        let tries = ((gen::typical_dt(&c) / c.dt_min).log2() / 2.0).max(4.0);
        if tries.is_finite() {
            c.iter_max = c.iter_max.min((2000.0 / tries) as u64 + 1);
        }
    }
    add_streams(r, &mut c, 0, &Streams { n: (0, 3), ..Default::default() });
    for _ in 0..if r.chance(0.4) { r.range(1, 4) } else { 0 } {
        c.faults.push(StepFault {
            at: r.below(20) as u32,
            site: *r.pick(&[SITE_FLUX, SITE_FLUX, SITE_BEFORE, SITE_AFTER]),
            k: r.below(40) as u32,
            act: *r.pick(&[A_ERR, A_NAN, A_INF, A_NEG, A_HUGE]),
            cell: r.below(24) as u32,
            eq: r.below(3) as u32,
        });
    }
    c.retries = if r.chance(0.6) { r.range(1, 4) as u32 } else { 0 };
    c.reruns = if r.chance(0.3) { r.range(1, 3) as u32 } else { 0 };
    let mut case = single(vec![c], r);
    if !case.phases[0].sims[0].streams.is_empty() && r.chance(0.1) {
        // a condition that others wait out, for good
        let class = *r.pick(&[io::OPEN, io::OPEN, io::WRITE, io::STDOUT, io::MKDIR, io::RMDIR]);
        let e = *r.pick(&[libc::EMFILE, libc::ENFILE, libc::EAGAIN, libc::EBUSY, libc::ENOSPC, libc::ENOMEM, libc::ETXTBSY, libc::EDQUOT]);
        case.phases[0].io.faults.push(Fault { class, nth: r.below(8) as u32, act: Act::Sticky(e) });
    } else if r.chance(0.4) {
        if r.chance(0.5) {
            case.phases[0].io = gen::soft_io(r);
            case.phases[0].io.max_write = case.phases[0].io.max_write.max(7) * 4;
        } else {
            let mut q = case.phases[0].clone();
            q.sims[0].faults.clear();
            q.sims[0].retries = 0;
            q.sims[0].reruns = 0;
            if let Ok(g) = ctx.golden(&q, false) {
                if let Some(f) = gen::hard_fault(r, &g.rep.io.counts) {
                    case.phases[0].io.faults.push(f);
                }
                if r.chance(0.3) {
                    case.phases[0].io.faults.push(Fault { class: io::WRITE, nth: r.below(20) as u32, act: Act::Short(0) });
                }
            }
        }
    }
    case
}

fn c19(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let res = ctx.run_phase(case, 0, false)?;
    let c = &case.phases[0].sims[0];
    let hs = hists(&res);
    no_panic(&hs)?;
    let h = &hs[0];
    if h.init.is_none() {
        return viol("set-up", "setting up never returned");
    }
    if !h.init_ok() {
        return Ok(false);
    }
    if h.runs.iter().any(|r| r.end.is_none()) {
        return viol("no-end", "run_corries never returned");
    }
    // a failed attempt need not count, but it ends a call
    let (n, max) = (h.steps().count() as u64, c.iter_max + h.runs.len() as u64);
    if n > max {
        return viol("steps", format!("{n} step attempts in {} calls of run_corries with iter_max = {}", h.runs.len(), c.iter_max));
    }
    for (k, s) in h.steps().enumerate() {
        let Some((_, _, fluxes, _)) = &s.end else { return viol("no-end", format!("step {k} never ended")) };
        let top = c.dt_max.min(c.t_end);
        let tries = 50.0 + 3.0 * (top / c.dt_min).ln().max(0.0) / (1.0f64 / 0.9).ln();
        if *fluxes as f64 > 8.0 * (tries + 2.0) {
            return viol("tries", format!("step {k} evaluated the flux {fluxes} times, dt_min = {:e}", c.dt_min));
        }
        if *fluxes > 60 {
            ctx.hit("steps with many try-outs");
        }
    }
    ctx.hit(match &h.runs.last().unwrap().end {
        Some((true, ..)) => "ended with Ok",
        _ => "ended with Err",
    });
    if h.steps().any(|s| matches!(&s.end, Some((true, _, _, e)) if e.t == s.begin.t)) {
        ctx.hit("time stood still");
    }
    Ok(n > 0)
}

// ---- C20 ------------------------------------------------------------------------------------------

fn c20_gen(r: &mut Rng, _: &mut Ctx) -> Case {
    let o = gen::Opt { asc: 0.3, nout: (1, 3), steps: (100.0, 300.0), small: true, big: 0.0, scale: 0.0, custom_bc: 0.3, ..Default::default() };
    let mut c = gen::sim(r, &o);
    c.iter_max = 400;
    if r.chance(0.75) {
        c.nout = r.range(20, 300) as u64;
        c.dt_min = c.dt_min.min(gen::interval(&c) * 0.01);
    }
    // smooth states live longer
    let mean = |v: &[f64]| v.iter().sum::<f64>() / v.len() as f64;
    let n = c.s as usize;
    for j in 0..c.e() {
        let m = mean(&c.ic[j * n..(j + 1) * n]);
        for x in &mut c.ic[j * n..(j + 1) * n] {
            *x = m + 0.1 * (*x - m);
        }
    }
    add_streams(r, &mut c, 0, &Streams { n: (1, 4), ..Default::default() });
    if r.chance(0.4) {
        // failures from the beginning
        let gap = r.range(3, 30) as u32;
        let flux = r.chance(0.6);
        for k in 0..300 / gap {
            c.faults.push(StepFault {
                at: 1 + k * gap,
                site: if flux { SITE_FLUX } else { SITE_BEFORE },
                k: 0,
                act: if flux && r.chance(0.5) { A_NAN } else { A_ERR },
                cell: r.below(7) as u32,
                eq: r.below(2) as u32,
            });
        }
        c.retries = c.faults.len() as u32;
    }
    let mut case = single(vec![c], r);
    let p = &mut case.phases[0];
    if r.chance(0.4) {
        p.threads = 1;
        p.policy = Policy::sequential();
    } else if let Policy::Seeded { gap, .. } = &mut p.policy {
        *gap = (*gap).max(500);
    }
    case
}

fn c20(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let res = ctx.run_phase(case, 0, false)?;
    let p = &case.phases[0];
    let c = &p.sims[0];
    let hs = hists(&res);
    no_panic(&hs)?;
    let h = &hs[0];
    init_fine(h)?;
    let at: Vec<(u64, i64, &Snap)> = res.rep.logs[0]
        .iter()
        .filter_map(|e| match &e.what {
            What::StepBegin(s) => Some((e.tick, e.live, s)),
            _ => None,
        })
        .collect();
    let n = at.len();
    // descriptors
    let files = c.streams.iter().filter(|s| s.file).count() as i64;
    let (mut open, mut most) = (0i64, 0i64);
    let mut ops = res.rep.io.ops.iter().peekable();
    for (tick, ..) in &at {
        while let Some(op) = ops.next_if(|op| op.tick < *tick) {
            open += match op.class {
                io::OPEN | io::OPENDIR if op.res >= 0 => 1,
                io::CLOSE => -1,
                _ => 0,
            };
            most = most.max(open);
        }
        if open > files + 1 {
            return viol("descriptors", format!("{open} files are open between two steps, with {files} streams to files"));
        }
    }
    for op in ops {
        open += match op.class {
            io::OPEN | io::OPENDIR if op.res >= 0 => 1,
            io::CLOSE => -1,
            _ => 0,
        };
        most = most.max(open);
    }
    if most > files + 4 {
        return viol("descriptors", format!("{most} files are open at the same time, with {files} streams to files"));
    }
    if open > 0 {
        return viol("descriptors", format!("{open} files are still open after the simulation is gone"));
    }
    // every byte is written about once
    let written: u64 = res.rep.io.ops.iter().filter(|o| matches!(o.class, io::WRITE | io::STDOUT) && o.res > 0).map(|o| o.res as u64).sum();
    let there: u64 = res.rep.io.stdout.len() as u64
        + res.fs.values().map(|n| if let Node::File(b) = n { b.len() as u64 } else { 0 }).sum::<u64>();
    if written > 2 * there + 4096 {
        return viol("written", format!("{written} bytes were written, {there} are there in the end"));
    }
    if n < 80 {
        return Ok(false);
    }
    // memory
    let most = |a: usize, b: usize| at[a..b].iter().map(|x| x.1).max().unwrap();
    let (early, late) = (most(n / 4, n / 2), most(3 * n / 4, n));
    if late > early + 512 {
        return viol("memory", format!("between steps {} bytes are allocated at first, {} bytes {} steps later", early, late, n / 2));
    }
    // work
    if p.threads == 1 && p.policy == Policy::sequential() && !c.asc_on() {
        let least = |a: usize, b: usize, out: bool| {
            (a..b - 1)
                .filter(|&k| (at[k].2.t_next != at[k + 1].2.t_next) == out && at[k + 1].2.t > at[k].2.t)
                .map(|k| at[k + 1].0 - at[k].0)
                .min()
        };
        for out in [false, true] {
            if let (Some(x), Some(y)) = (least(n / 4, n / 2, out), least(3 * n / 4, n, out)) {
                ctx.hit("work per step compared");
                if y as f64 > 1.5 * x as f64 + 2000.0 {
                    return viol("work", format!("a step takes {x} units of work at first, {y} units {} steps later", n / 2));
                }
            }
        }
    }
    ctx.hit("long runs compared");
    Ok(true)
}
