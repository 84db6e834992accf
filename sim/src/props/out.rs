//! C01 output schedule, C02 step limits, C03 faithful records, C09 failed runs, C11 valid states.
use super::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            gen: c01_gen,
            check: c01,
            quick: 6000,
            thorough: 120_000,
            rule: "random simulation (physics, flux, integrator, mesh, boundaries, time range, number of outputs; half with a given sequence of time steps, many of which end just before or after an output is due) with 1-3 streams on a random schedule, optionally run again after it finished; non-trivial: at least two outputs were due and at least two steps were taken",
        },
        Prop {
            id: "C02",
            gen: c02_gen,
            check: c02,
            quick: 6000,
            thorough: 120_000,
            rule: "random simulation with limits (dt_min, dt_max, cfl, iter_max, outputs) drawn close to the time steps it takes; non-trivial: at least one step was limited by something other than the CFL condition, or the run was ended by a limit",
        },
        Prop {
            id: "C03",
            gen: c03_gen,
            check: c03,
            quick: 6000,
            thorough: 120_000,
            rule: "random simulation with 1-4 streams of random format, columns, precision and destination on a random schedule of 1-4 pool threads, some with injected step failures and retries; non-trivial: at least two streams, or a schedule with preemptions",
        },
        Prop {
            id: "C09",
            gen: c09_gen,
            check: c09,
            quick: 10_000,
            thorough: 120_000,
            rule: "random simulation in which a step fails (injected error, NaN, infinity or negative value in the state or the flux, iter_max, dt_min) with 1-3 streams on a random schedule; non-trivial: the step failed",
        },
        Prop {
            id: "C11",
            gen: c11_gen,
            check: c11,
            quick: 8000,
            thorough: 160_000,
            rule: "random simulation with strong initial jumps, near-vacuum states or bad values injected into the state or the flux; non-trivial: some step was rejected or a fault fired",
        },
    ]
}

/// Why a run may end with an error although nothing was injected
fn explained(c: &SimCfg, run: &Run) -> bool {
    match run.steps.last() {
        None => false,
        Some(s) => match &s.end {
            None => true,
            Some((false, ..)) => true,
            Some((true, _, _, e)) => e.iter >= c.iter_max,
        },
    }
}

// ---- C01 ------------------------------------------------------------------------------------------

fn c01_gen(r: &mut Rng, _: &mut Ctx) -> Case {
    let o = gen::Opt { asc: 0.2, nout: (1, 20), wild: 0.05, ..Default::default() };
    let mut c = gen::sim(r, &o);
    if r.chance(0.2) {
        c.nout = *r.pick(&[9u64, 10, 11, 99, 100, 101]);
        c.dt_min = c.dt_min.min(gen::interval(&c) * 0.01);
    }
    if r.chance(0.5) {
        let d = gen::interval(&c);
        if r.chance(0.5) {
            c.dt_min = d * r.log(1e-6, 0.2);
        }
        if r.chance(0.5) {
            c.dt_max = d * 100.0;
        }
        let n = r.range(1, 6);
        c.iter_max = 4000;
        c.stub_dt = (0..n)
            .map(|_| match r.below(5) {
                0 => d * r.log(0.02, 3.0),
                1 => d - c.dt_min * r.uni(0.0, 2.0),
                2 => d / r.range(1, 5) as f64,
                3 => d + c.dt_min * r.uni(-1.0, 1.0),
                _ => c.dt_min * r.log(1.0, 50.0),
            })
            .map(|x: f64| x.max(c.dt_min * 0.5).max(d * 0.004))
            .collect();
    }
    c.reruns = if r.chance(0.3) { r.range(1, 2) as u32 } else { 0 };
    add_streams(r, &mut c, 0, &Streams { must: vec![4], prec: vec![16, 16, 16, 12], ..Default::default() });
    single(vec![c], r)
}

pub fn c01(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let res = ctx.run_phase(case, 0, false)?;
    let c = &case.phases[0].sims[0];
    let hs = hists(&res);
    no_panic(&hs)?;
    let h = &hs[0];
    init_fine(h)?;
    let run = &h.runs[0];
    let (ok, _, msg) = run.end.clone().unwrap();
    let eps = 1e-12 * c.t_end.abs().max(1.0);
    let dt_out = gen::interval(c);
    let tau = |k: usize| c.t0 + (c.t_end - c.t0) * k as f64 / c.nout.max(1) as f64;
    let states = h.states();
    let last = &states.last().unwrap().0;
    let (lo, hi, dumps) = if ok {
        if last.t > c.t_end + eps || last.t < c.t_end - 0.0101 * c.dt_min - eps {
            return viol("end", format!("the run ended at t = {:e} instead of t_end = {:e}", last.t, c.t_end));
        }
        (c.nout as usize + 1, c.nout as usize + 1, 0)
    } else {
        if !explained(c, run) {
            return viol("error", format!("the run ended with an error that no step caused: {msg}"));
        }
        // outputs due at the states that were reached between steps
        let reached = match &run.steps.last().unwrap().end {
            Some((false, ..)) | None => run.steps.last().unwrap().begin.t,
            Some((true, ..)) => run.steps.last().unwrap().begin.t,
        };
        let due = |slack: f64| (0..=c.nout as usize).filter(|&k| reached + c.dt_min * (1.0 + slack) + slack.signum() * eps >= tau(k)).count();
        (due(-1e-6), due(1e-6), 1)
    };
    for st in &c.streams {
        let recs = match records(c, st, &res.fs, &res.rep.io.stdout) {
            Ok(v) => v,
            Err(e) => return viol("records", format!("stream {}: {e}", st.name)),
        };
        if recs.len() < lo + dumps || recs.len() > hi + dumps {
            return viol(
                "count",
                format!(
                    "stream {}: {} records instead of {} (run {}, {} of {} outputs due)",
                    st.name,
                    recs.len(),
                    hi + dumps,
                    if ok { "succeeded" } else { "failed" },
                    hi,
                    c.nout + 1
                ),
            );
        }
        let round = 10f64.powi(-(st.prec as i32)) * c.t_end.abs().max(1e-3) + eps;
        for k in 0..recs.len() - dumps {
            let Some(t) = float(st, &recs[k], 4, 0) else {
                return viol("records", format!("stream {}: record {k} shows no time", st.name));
            };
            if t > tau(k) + round || t < tau(k) - c.dt_min - round {
                return viol(
                    "time",
                    format!(
                        "stream {}: record {k} was written at t = {t:e}, due at {:e} (output interval {dt_out:e}, dt_min {:e})",
                        st.name,
                        tau(k),
                        c.dt_min
                    ),
                );
            }
        }
    }
    if ok {
        for (n, run) in h.runs.iter().enumerate().skip(1) {
            if !run.steps.is_empty() || !matches!(run.end, Some((true, ..))) {
                return viol("rerun", format!("running a finished simulation again (run {n}) did something: {} steps, {:?}", run.steps.len(), run.end));
            }
        }
    }
    ctx.hit(if c.stub_dt.is_empty() { "real time solver" } else { "given sequence of steps" });
    ctx.hit(if ok { "run reached t_end" } else { "run failed" });
    Ok(c.nout >= 1 && run.steps.len() >= 2)
}

// ---- C02 ------------------------------------------------------------------------------------------

fn c02_gen(r: &mut Rng, _: &mut Ctx) -> Case {
    let o = gen::Opt { asc: 0.35, nout: (1, 6), wild: 0.1, steps: (2.0, 30.0), ..Default::default() };
    let mut c = gen::sim(r, &o);
    let dt = gen::typical_dt(&c);
    let d = gen::interval(&c);
    match r.below(6) {
        0 => {
            c.iter_max = r.range(1, 20) as u64;
            c.retries = r.below(4) as u32;
        },
        1 => c.dt_max = dt * r.uni(0.2, 1.5),
        2 => {
            // the smallest step allowed is close to the one the CFL condition asks for
            c.dt_min = dt * r.uni(0.7, 1.15);
            c.dt_max = c.dt_max.max(c.dt_min * 1.5);
        },
        3 => {
            c.dt_min = (dt * r.uni(0.3, 0.98)).min(0.4 * d);
            if c.asc {
                c.rtol *= 1e-3;
            }
            c.dt_max = c.dt_max.max(c.dt_min * 1.5);
        },
        _ => {},
    }
    if r.chance(0.04) {
        // everything is a power of two: the CFL condition asks for dt_min, exactly
        let n = c.s as usize;
        let width = 2f64.powi(r.range(0, 12) as i32 - 8);
        c.xi_in = 0.0;
        c.xi_out = (n as f64 - 4.0) * width;
        c.gamma = 1.5;
        c.cs = vec![if c.phys == 1 { 1.0 } else { 0.0 }; n];
        let v = if c.phys == 0 { 0.0 } else { *r.pick(&[0.0, 1.0, -1.0]) };
        for i in 0..n {
            c.ic[i] = 1.5;
            c.ic[n + i] = v;
            if c.phys == 0 {
                c.ic[2 * n + i] = 1.0;
            }
        }
        (c.bcw, c.bce) = (None, None);
        c.asc = false;
        c.cfl = *r.pick(&[0.5, 0.25, 0.125]);
        c.dt_min = c.cfl * width / (1.0 + v.abs());
        c.dt_max = c.dt_min * *r.pick(&[1.0, 2.0, 100.0]);
        c.t0 = 0.0;
        c.t_end = c.dt_min * r.range(2, 30) as f64;
        c.nout = r.range(1, 3) as u64;
        return single(vec![c], r);
    }
    if c.dt_min > 0.4 * d {
        c.nout = 1;
        let need = c.dt_min * 3.0;
        if c.t_end - c.t0 < need {
            c.t_end = c.t0 + need;
        }
    }
    if r.chance(0.2) {
        // the user takes the steps, with outputs of his own
        let n = r.range(1, 20);
        c.manual = (0..n)
            .map(|_| match r.below(5) {
                0 => dt * r.uni(0.5, 3.0),
                1 => dt + c.dt_min * r.uni(-1.2, 1.2),
                2 => c.dt_min * r.log(0.01, 30.0),
                3 => (c.t_end - c.t0) * r.uni(0.0, 1.2),
                _ => dt.min(c.dt_max) * 1.0001,
            })
            .map(|x: f64| if x > 1e-9 * c.t_end.max(dt) { x } else { dt })
            .collect();
        if r.chance(0.3) {
            // ... or without any outputs, after these many steps
            let from = r.below(n as u64) as usize;
            c.manual[from..].fill(f64::INFINITY);
        }
        c.streams.clear();
        return single(vec![c], r);
    }
    if r.chance(0.5) {
        c.streams.push(gen::stream(r, c.e(), 0, true, &["out"], &[4], &[10]));
    }
    single(vec![c], r)
}

/// largest signal speed over the cells lo..hi
pub fn max_speed(c: &SimCfg, s: &Snap, lo: usize, hi: usize) -> f64 {
    (lo..hi).map(|i| gen::speed(c, &s.prim, &s.cs, i)).fold(0.0, f64::max)
}

fn c02(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let res = ctx.run_phase(case, 0, false)?;
    let c = &case.phases[0].sims[0];
    let hs = hists(&res);
    no_panic(&hs)?;
    let h = &hs[0];
    init_fine(h)?;
    let n = c.s as usize;
    let dxi = (c.xi_out - c.xi_in) / (n as f64 - 4.0);
    let eps = 1e-13 * c.t_end.abs().max(1e-3);
    let mut interesting = false;
    if !c.manual.is_empty() {
        ctx.hit("steps taken by the user");
    }
    let mut prev: Option<&Snap> = h.init_snap.as_ref();
    for (nth, run) in h.runs.iter().enumerate() {
    for (k, s) in run.steps.iter().enumerate() {
        let b = &s.begin;
        let Some((ok, msg, _, e)) = &s.end else { continue };
        if let Some(p) = prev {
            if p.t.to_bits() != b.t.to_bits() || p.iter != b.iter {
                return viol("clock", format!("between steps {} and {k} the clock changed: t {:e} to {:e}", k as i64 - 1, p.t, b.t));
            }
        }
        prev = Some(e);
        if b.iter >= c.iter_max && (nth == 0 || k > 0) {
            return viol("iter_max", format!("step {k} was begun after {} iterations, iter_max is {}", b.iter, c.iter_max));
        }
        if b.prim.iter().chain(&b.cs).any(|x| !x.is_finite()) {
            continue;
        }
        let cfl_in = c.cfl * dxi / max_speed(c, b, 2, n - 2);
        let cfl_all = c.cfl * dxi / max_speed(c, b, 0, n);
        // there is nothing to be rounded
        let exact = [c.cfl, dxi, max_speed(c, b, 0, n), max_speed(c, b, 2, n - 2)].iter().all(|x| x.to_bits() << 12 == 0);
        if exact && cfl_in == c.dt_min {
            ctx.hit("dt_min asked for exactly");
        }
        if !ok {
            interesting = true;
            ctx.hit("step refused");
            // an error blamed on dt_min needs a time step below dt_min
            if !c.asc_on() && msg.contains("dipped below dt_min") && (cfl_all.min(cfl_in) > c.dt_min * (1.0 + 1e-6) || (exact && cfl_all.min(cfl_in) >= c.dt_min)) {
                return viol("dt_min", format!("step {k} was refused for dt_min = {:e}, but the CFL condition allows {cfl_all:e}", c.dt_min));
            }
            continue;
        }
        if e.iter != b.iter + 1 {
            return viol("iter", format!("step {k} took the iteration count from {} to {}", b.iter, e.iter));
        }
        let dt = e.dt;
        if !(dt > 0.0 && dt.is_finite()) {
            return viol("dt", format!("step {k} (of {}) has time step {dt:e}", run.steps.len()));
        }
        if (e.t - (b.t + dt)).abs() > eps {
            return viol("advance", format!("step {k} took t from {:e} to {:e} with dt = {dt:e}", b.t, e.t));
        }
        if dt > c.dt_max * (1.0 + 1e-12) {
            return viol("dt_max", format!("step {k} has time step {dt:e}, dt_max is {:e}", c.dt_max));
        }
        if e.t > c.t_end + eps {
            return viol("t_end", format!("step {k} went to t = {:e}, beyond t_end = {:e}", e.t, c.t_end));
        }
        // an output that is not ahead of the step cannot limit it
        let ahead = b.t_next > b.t;
        if ahead && e.t > b.t_next + eps {
            return viol("t_output", format!("step {k} went from {:e} to {:e}, beyond the output due at {:e}", b.t, e.t, b.t_next));
        }
        if cfl_in < c.dt_min * (1.0 - 1e-9) {
            return viol("dt_min", format!("step {k}: the CFL condition asks for {cfl_in:e} < dt_min = {:e}, but the step was taken", c.dt_min));
        }
        if !c.asc_on() && dt > cfl_in * (1.0 + 1e-9) {
            return viol("cfl", format!("step {k} has time step {dt:e}, the CFL condition allows {cfl_in:e}"));
        }
        let at_limit = (ahead && (e.t - b.t_next).abs() <= eps) || (e.t - c.t_end).abs() <= eps;
        let by_max = (dt - c.dt_max).abs() <= 1e-12 * c.dt_max;
        if dt < c.dt_min * (1.0 - 1e-9) && !at_limit && !by_max {
            return viol("dt_min", format!("step {k} has time step {dt:e} < dt_min = {:e}", c.dt_min));
        }
        if at_limit || by_max {
            interesting = true;
            ctx.hit(if by_max { "step limited by dt_max" } else { "step limited by an output or t_end" });
        }
    }
    let (ok, _, msg) = run.end.clone().unwrap();
    if ok {
        if let Some(e) = prev {
            if e.iter >= c.iter_max && !run.steps.is_empty() {
                return viol("iter_max", format!("the run succeeded with {} iterations, iter_max is {}", e.iter, c.iter_max));
            }
            if c.manual.is_empty() && e.t < c.t_end - 0.0101 * c.dt_min - eps {
                return viol("end", format!("the run succeeded at t = {:e} before t_end = {:e}", e.t, c.t_end));
            }
        }
    } else {
        interesting = true;
        if !explained(c, run) {
            return viol("error", format!("the run failed without a reason: {msg}"));
        }
        if prev.map(|e| e.iter >= c.iter_max).unwrap_or(false) {
            ctx.hit("ended by iter_max");
            if nth > 0 {
                ctx.hit("run again after iter_max");
            }
        }
    }
    }
    Ok(interesting)
}

// ---- C03 ------------------------------------------------------------------------------------------

fn c03_gen(r: &mut Rng, _: &mut Ctx) -> Case {
    let o = gen::Opt { asc: 0.2, nout: (1, 12), steps: (3.0, 18.0), wild: 0.05, scale: 0.1, ..Default::default() };
    let mut c = gen::sim(r, &o);
    gen::vary_sound(r, &mut c);
    add_streams(r, &mut c, 0, &Streams { n: (1, 4), stdout: 0.7, prec: vec![16, 15, 10, 7, 4, 2, 1, 0, 20, 40], twins: 0.15, ..Default::default() });
    if c.s <= 24 && r.chance(0.008) {
        c.streams.truncate(3);
        // as many outputs as need another digit
        c.nout = *r.pick(&[9u64, 10, 99, 100, 101, 999, 1000, 1000, 1001]);
        c.stub_dt = vec![gen::interval(&c) * 10.0];
        c.dt_max = c.stub_dt[0];
        c.dt_min = c.dt_min.min(c.dt_max * 1e-4);
        c.iter_max = 40000;
        if c.s < 24 && r.chance(0.05) {
            c.nout = *r.pick(&[9999u64, 10_000, 10_001]);
            c.dt_min = c.dt_min.min(gen::interval(&c) * 1e-4);
            c.streams.truncate(1);
        }
        let k = r.below(c.streams.len() as u64) as usize;
        let st = &mut c.streams[k];
        (st.file, st.vector) = (true, true);
        st.data.truncate(3);
        if !st.data.contains(&4) {
            st.data.push(4);
        }
    }
    if r.chance(0.3) {
        c.faults.push(StepFault {
            at: r.below(8) as u32,
            site: *r.pick(&[SITE_BEFORE, SITE_AFTER, SITE_FLUX]),
            k: r.below(2) as u32,
            act: *r.pick(&[A_ERR, A_ERR, A_NAN]),
            cell: r.below(24) as u32,
            eq: r.below(3) as u32,
        });
        c.retries = if r.chance(0.5) { 1 } else { 0 };
    }
    if r.chance(0.15) {
        // the user takes the steps and decides what is written when
        c.script = (0..r.range(1, 25)).map(|_| *r.pick(&[OP_STEP, OP_STEP, OP_WRITE])).collect();
        c.script.push(OP_WRITE);
    }
    single(vec![c], r)
}

/// Assigns each record the state it shows.
pub fn match_states(c: &SimCfg, h: &Hist, streams: &[(&StreamCfg, Vec<Record>)]) -> Result<Vec<usize>, Viol> {
    let states = h.states();
    let n = streams.first().map(|s| s.1.len()).unwrap_or(0);
    for (st, v) in streams {
        if v.len() != n {
            return viol("streams", format!("stream {} has {} records, stream {} has {n}", st.name, v.len(), streams[0].0.name));
        }
    }
    let mut at = 0;
    let mut out = vec![];
    for k in 0..n {
        let mut found = None;
        let mut best = String::new();
        for j in at..states.len() {
            let mut all = true;
            for (st, v) in streams {
                if let Err(e) = record_matches(c, st, &v[k], &states[j].0) {
                    all = false;
                    // explain with the state closest in time
                    if best.is_empty() || j <= at + 1 {
                        best = format!("stream {} (state {j}, t = {:e}): {e}", st.name, states[j].0.t);
                    }
                    if let Some(t) = float(st, &v[k], 4, 0) {
                        if (t - states[j].0.t).abs() <= 1e-9 * t.abs() {
                            best = format!("stream {} (state {j}, t = {t:e}): {e}", st.name);
                        }
                    }
                    break;
                }
            }
            if all {
                found = Some(j);
                break;
            }
        }
        match found {
            Some(j) => {
                at = j;
                out.push(j)
            },
            None => {
                return viol("record", format!("record {k} shows no state the simulation was in since the record before; {best}"))
            },
        }
    }
    Ok(out)
}

pub fn c03(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let res = ctx.run_phase(case, 0, false)?;
    let c = &case.phases[0].sims[0];
    let hs = hists(&res);
    no_panic(&hs)?;
    let h = &hs[0];
    init_fine(h)?;
    let mut v = vec![];
    for st in &c.streams {
        match records(c, st, &res.fs, &res.rep.io.stdout) {
            Ok(x) => v.push((st, x)),
            Err(e) => return viol("format", format!("stream {}: {e}", st.name)),
        }
    }
    // nothing else was written where the streams write
    let cells: u64 = v.iter().map(|(st, x)| x.len() as u64 * nrows(c, st) as u64 * st.data.len() as u64).sum();
    *ctx.stats.counts.entry("values compared".into()).or_default() += cells;
    if !c.script.is_empty() {
        let want: Vec<&Snap> = h.notes.iter().filter(|n| n.1 & 255 == OP_WRITE).map(|n| &n.3).collect();
        if let Some((_, _, false, s)) = h.notes.iter().find(|n| n.1 & 255 == OP_WRITE && !n.2) {
            return viol("write", format!("writing the state at t = {:e} failed", s.t));
        }
        for (st, x) in &v {
            if x.len() != want.len() {
                return viol("user", format!("stream {}: {} records, the user wrote {}", st.name, x.len(), want.len()));
            }
            for (k, (rec, s)) in x.iter().zip(&want).enumerate() {
                if let Err(e) = record_matches(c, st, rec, s) {
                    return viol("user", format!("stream {}: record {k}, written by the user at t = {:e}: {e}", st.name, s.t));
                }
            }
        }
        ctx.hit("written by the user");
        return Ok(true);
    }
    let at = match_states(c, h, &v)?;
    if at.first().map(|&j| j != 0).unwrap_or(true) {
        return viol("first", "the first record does not show the initial state");
    }
    Ok(c.streams.len() > 1 || !res.rep.rec.preempts.is_empty())
}

// ---- C09 ------------------------------------------------------------------------------------------

fn c09_gen(r: &mut Rng, _: &mut Ctx) -> Case {
    let o = gen::Opt { asc: 0.2, nout: (1, 8), steps: (4.0, 18.0), ..Default::default() };
    let mut c = gen::sim(r, &o);
    add_streams(r, &mut c, 0, &Streams { must: vec![4, 7], prec: vec![16, 16, 10], ..Default::default() });
    match r.below(8) {
        0 => c.iter_max = r.range(1, 8) as u64,
        1 => c.dt_min = gen::typical_dt(&c) * r.uni(0.9, 1.2),
        _ => {
            let site = *r.pick(&[SITE_BEFORE, SITE_AFTER, SITE_FLUX, SITE_FLUX]);
            c.faults.push(StepFault {
                at: r.below(10) as u32,
                site,
                k: r.below(3) as u32,
                act: if site == SITE_FLUX { *r.pick(&[A_ERR, A_NAN, A_INF]) } else { *r.pick(&[A_ERR, A_NAN, A_INF]) },
                cell: r.below(24) as u32,
                eq: r.below(3) as u32,
            });
        },
    }
    let d = gen::interval(&c);
    if c.dt_min > 0.4 * d {
        c.nout = 1;
        c.t_end = c.t_end.max(c.t0 + 3.0 * c.dt_min);
    }
    c.dt_max = c.dt_max.max(c.dt_min * 1.5);
    single(vec![c], r)
}

fn c09(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let res = ctx.run_phase(case, 0, false)?;
    let c = &case.phases[0].sims[0];
    let hs = hists(&res);
    no_panic(&hs)?;
    let h = &hs[0];
    init_fine(h)?;
    let run = &h.runs[0];
    let (ok, _, msg) = run.end.clone().unwrap();
    // a step that failed (or used up the iterations) ends the run with an error ...
    for (k, s) in run.steps.iter().enumerate() {
        let Some((sok, smsg, _, e)) = &s.end else { continue };
        let failed = !sok || e.iter >= c.iter_max;
        if failed {
            if ok {
                return viol("swallowed", format!("step {k} failed ({smsg}) but the run succeeded"));
            }
            if k + 1 != run.steps.len() {
                return viol("continued", format!("step {k} failed ({smsg}) but the run went on"));
            }
            // the last part of what the time solver said, without what it had failed in
            let cause = smsg.rsplit(": ").next().unwrap_or("");
            if !sok && !msg.contains(cause) {
                return viol("message", format!("the cause ({cause}) is missing from the error: {msg}"));
            }
        }
    }
    let fired: Vec<&StepFault> = h.fired.iter().map(|&k| &c.faults[k as usize]).collect();
    if ok && fired.iter().any(|f| f.act == A_ERR || f.site == SITE_AFTER) {
        return viol("swallowed", "an injected step error did not reach the caller");
    }
    // ... and with exactly one error record per stream, showing the state at the failure
    let last = h.states().last().unwrap().0.clone();
    for st in &c.streams {
        let recs = match records(c, st, &res.fs, &res.rep.io.stdout) {
            Ok(v) => v,
            Err(e) => return viol("format", format!("stream {}: {e}", st.name)),
        };
        let errs: Vec<usize> = (0..recs.len()).filter(|&k| is_err(st, &recs[k])).collect();
        if ok {
            if !errs.is_empty() {
                return viol("dump", format!("stream {}: error record {:?} in a run that succeeded", st.name, errs));
            }
            continue;
        }
        if errs != [recs.len().wrapping_sub(1)] {
            return viol(
                "dump",
                format!("stream {}: error records {:?} among {} instead of exactly one at the end ({msg})", st.name, errs, recs.len()),
            );
        }
        if let Err(e) = record_matches(c, st, recs.last().unwrap(), &last) {
            return viol("dump", format!("stream {}: the error record does not show the state at the failure: {e}", st.name));
        }
    }
    if !ok {
        ctx.hit("runs that failed");
    }
    Ok(!ok)
}

// ---- C11 ------------------------------------------------------------------------------------------

fn c11_gen(r: &mut Rng, _: &mut Ctx) -> Case {
    let o = gen::Opt { asc: 0.25, nout: (1, 6), steps: (3.0, 25.0), wild: 0.8, ..Default::default() };
    let mut c = gen::sim(r, &o);
    if r.chance(0.4) {
        c.cfl = r.uni(0.5, 1.2);
    }
    if r.chance(0.5) {
        // near vacuum in a few cells
        let n = c.s as usize;
        for _ in 0..r.range(1, 4) {
            let i = r.below(n as u64) as usize;
            let j = if c.phys == 0 && r.chance(0.5) { 2 } else { 0 };
            c.ic[j * n + i] *= r.log(1e-9, 1e-2);
        }
    }
    if r.chance(0.06) {
        // a gas with no pressure at all, that moves on as it is: its pressure stays exactly zero
        let n = c.s as usize;
        let rho = [*r.pick(&[0.5, 1.0, 2.0]), *r.pick(&[0.5, 1.0, 4.0])];
        let v = *r.pick(&[-2.0, -1.0, 0.5, 1.0]);
        let jump = if r.chance(0.5) { n } else { r.below(n as u64) as usize };
        for i in 0..n {
            c.ic[i] = rho[(i >= jump) as usize];
            c.ic[n + i] = v;
            if c.phys == 0 {
                c.ic[2 * n + i] = 0.0;
            }
        }
        if r.chance(0.7) {
            c.bcw = None;
            c.bce = None;
        }
    }
    if r.chance(0.6) {
        let site = *r.pick(&[SITE_BEFORE, SITE_FLUX, SITE_FLUX, SITE_FLUX]);
        c.faults.push(StepFault {
            at: r.below(10) as u32,
            site,
            k: r.below(6) as u32,
            act: *r.pick(&[A_NAN, A_NEG, A_HUGE, A_HUGE, A_INF]),
            cell: r.below(24) as u32,
            eq: r.below(3) as u32,
        });
    }
    let mut st = gen::full_stream(&c, 0, "out", true);
    st.prec = 9;
    c.streams.push(st);
    single(vec![c], r)
}

fn bad_state(c: &SimCfg, s: &Snap) -> Option<String> {
    let n = c.s as usize;
    for (k, x) in s.prim.iter().enumerate() {
        if !x.is_finite() {
            return Some(format!("prim_{} in cell {} is {x}", k / n, k % n));
        }
    }
    for (k, x) in s.cons.iter().enumerate() {
        if !x.is_finite() {
            return Some(format!("cons_{} in cell {} is {x}", k / n, k % n));
        }
    }
    for i in 2..n - 2 {
        if s.prim[i] <= 0.0 {
            return Some(format!("density in cell {i} is {:e}", s.prim[i]));
        }
        if c.phys == 0 && s.prim[2 * n + i] <= 0.0 {
            return Some(format!("pressure in cell {i} is {:e}", s.prim[2 * n + i]));
        }
    }
    None
}

fn c11(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let res = ctx.run_phase(case, 0, false)?;
    let c = &case.phases[0].sims[0];
    let hs = hists(&res);
    no_panic(&hs)?;
    let h = &hs[0];
    init_fine(h)?;
    let mut rejected = false;
    for (k, s) in h.steps().enumerate() {
        if let Some((ok, _, _, e)) = &s.end {
            if *ok {
                if let Some(b) = bad_state(c, e) {
                    return viol("accepted", format!("step {k} was accepted although {b}"));
                }
            } else {
                rejected = true;
                ctx.hit("steps rejected");
            }
        }
    }
    // and no regular record shows such a state
    let st = &c.streams[0];
    let recs = match records(c, st, &res.fs, &res.rep.io.stdout) {
        Ok(v) => v,
        Err(e) => return viol("format", e),
    };
    for (k, rec) in recs.iter().enumerate().skip(1) {
        if is_err(st, rec) {
            continue;
        }
        for (i, row) in rec.iter().enumerate() {
            for (q, &d) in st.data.iter().enumerate() {
                let x: f64 = match d {
                    5 | 7 => continue,
                    _ => row[q].parse().unwrap_or(f64::NAN),
                };
                let ghost = i < 2 || i >= c.s as usize - 2;
                if !x.is_finite() || (!ghost && (d == 10 || (d == 12 && c.phys == 0)) && x <= 0.0) {
                    return viol("record", format!("record {k}: {} in cell {i} is {}", name_of(d), row[q]));
                }
            }
        }
    }
    Ok(rejected || !h.fired.is_empty())
}
