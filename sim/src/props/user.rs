//! C23 simulations that are stopped, resumed, set back and taken over by another solver; C24 what the user's own
//! components get to see.
use super::*;
use crate::model::{rows, Model};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C23",
            gen: c23_gen,
            check: c23,
            quick: 5000,
            thorough: 100_000,
            rule: "random simulation that is stopped by iter_max and resumed, or set back to an earlier copy of its state and clock and possibly handed to a newly set up solver, with failing steps in between, on a random schedule; non-trivial: at least one step was repeated or taken after a stop",
        },
        Prop {
            id: "C24",
            gen: c24_gen,
            check: c24,
            quick: 5000,
            thorough: 100_000,
            rule: "random simulation (physics, flux, integrator, boundaries, automated step control), with failing steps and retries or a user who stops, sets back and replaces the solver, on a random schedule, in which every state handed to a flux scheme or solver is recorded; non-trivial: at least one such state was checked within a Runge-Kutta step",
        },
    ]
}

/// more iterations than it takes
fn many(c: &SimCfg) -> u64 {
    if c.asc_on() { 300 } else { 3000 }
}
fn op(o: u64, arg: u64) -> u64 {
    o | arg << 8
}

pub fn c23_gen(r: &mut Rng, ctx: &mut Ctx) -> Case {
    let o = gen::Opt { asc: 0.3, nout: (1, 8), steps: (3.0, 16.0), wild: 0.25, ..Default::default() };
    let mut c = gen::sim(r, &o);
    c.nout = c.nout.max(1);
    add_streams(r, &mut c, 0, &Streams { n: (0, 3), must: vec![7], ..Default::default() });
    let n = match ctx.golden(&gen::phase(vec![c.clone()]), false) {
        Ok(g) => hists(&g)[0].steps().count() as u64,
        Err(_) => 5,
    };
    let n = n.max(1);
    let mut v = vec![];
    if c.asc_on() || r.chance(0.3) {
        // stop and resume, several times
        let mut at = 0;
        c.iter_max = 1 + r.below(n);
        for _ in 0..r.range(1, 5) {
            v.push(OP_RUN);
            at = (at + 1 + r.below(n)).max(c.iter_max);
            if r.chance(0.8) {
                v.push(op(OP_ITER_MAX, at));
            }
        }
    } else {
        let faults = if r.chance(0.5) { r.range(1, 3) } else { 0 };
        let mut saves = 0;
        let mut at = 1 + r.below(n);
        c.iter_max = at;
        if r.chance(0.2) {
            v.push(OP_SAVE);
            saves += 1;
        }
        v.push(OP_RUN);
        for _ in 0..r.range(1, 5) {
            if saves == 0 || r.chance(0.4) {
                v.push(OP_SAVE);
                saves += 1;
            }
            match r.below(3) {
                0 => at += 1 + r.below(n),
                1 => at = 1 + r.below(2 * n),
                _ => at = many(&c),
            }
            v.push(op(OP_ITER_MAX, at));
            v.push(OP_RUN);
            if r.chance(0.3) {
                v.push(OP_RUN);
            }
            if r.chance(0.8) {
                let ops = [op(OP_RESTORE, r.below(saves)), OP_FRESH];
                if r.chance(0.4) {
                    v.extend(ops);
                    if r.chance(0.5) {
                        v.swap_remove(v.len() - 2);
                        v.push(ops[0]);
                    }
                } else {
                    v.push(ops[0]);
                }
            } else if r.chance(0.3) {
                v.push(OP_FRESH);
            }
        }
        for _ in 0..faults {
            let flux = r.chance(0.6);
            c.faults.push(StepFault {
                at: r.below(2 * n) as u32,
                site: if flux { SITE_FLUX } else { SITE_BEFORE },
                k: r.below(5) as u32,
                act: if flux && r.chance(0.5) { *r.pick(&[A_NAN, A_INF]) } else { A_ERR },
                cell: r.below(24) as u32,
                eq: r.below(3) as u32,
            });
        }
    }
    v.push(op(OP_ITER_MAX, many(&c)));
    for _ in 0..=c.faults.len() {
        v.push(OP_RUN);
    }
    c.script = v;
    if !c.faults.is_empty() {
        // failed attempts count as iterations
        for s in &mut c.streams {
            s.data.retain(|&d| d != 5);
        }
    }
    single(vec![c], r)
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

fn c23(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let c = &case.phases[0].sims[0];
    // the same simulation, straight on
    let mut clean = case.phases[0].clone();
    clean.sims[0].faults.clear();
    clean.sims[0].script.clear();
    clean.sims[0].iter_max = many(c);
    let want = ctx.golden(&clean, false)?;
    let hw = hists(&want);
    no_panic(&hw)?;
    init_fine(&hw[0])?;
    let res = ctx.run_phase(case, 0, false)?;
    let hs = hists(&res);
    no_panic(&hs)?;
    let h = &hs[0];
    init_fine(h)?;
    if !hw[0].all_ok() {
        return Ok(false);
    }
    let line: Vec<&Step> = hw[0].steps().collect();
    let same = |a: &Snap, b: &Snap| {
        a.t.to_bits() == b.t.to_bits()
            && bits(&a.prim) == bits(&b.prim)
            && bits(&a.cons) == bits(&b.cons)
            && bits(&a.cs) == bits(&b.cs)
    };
    // where on the line the simulation is (number of steps, of records); the copies
    let mut at = (0usize, 0usize);
    let mut kept = vec![];
    let mut route: Vec<(usize, usize)> = vec![];
    let mut runs = 0;
    let mut steps = 0;
    let mut last_ok = true;
    let mut fired = false;
    for (n, &o) in c.script.iter().enumerate() {
        let Some((_, _, ok, snap)) = h.notes.get(n) else { return viol("script", format!("operation {n} did not happen")) };
        match o & 255 {
            OP_RUN => {
                let run = &h.runs[runs];
                runs += 1;
                fired = false;
                let before = at;
                for (k, s) in run.steps.iter().enumerate() {
                    fired |= !s.fired.is_empty();
                    let Some((good, msg, _, e)) = &s.end else { return viol("script", "a step never ended") };
                    let what = || format!("operation {n} (run_corries), attempt {k}, after {} steps", at.0);
                    let Some(w) = line.get(at.0) else { return viol("steps", format!("{}: straight on there are only {} steps", what(), line.len())) };
                    if !same(&s.begin, &w.begin) || s.begin.t_next.to_bits() != w.begin.t_next.to_bits() {
                        return viol("begin", format!("{}: begins at t = {:e} with an output at {:e}, straight on it is {:e} and {:e}, or with another solution", what(), s.begin.t, s.begin.t_next, w.begin.t, w.begin.t_next));
                    }
                    if !good {
                        if s.fired.is_empty() {
                            return viol("failed", format!("{}: fails, straight on it does not: {msg}", what()));
                        }
                        continue;
                    }
                    let we = &w.end.as_ref().unwrap().3;
                    if !same(e, we) || e.dt.to_bits() != we.dt.to_bits() {
                        return viol("solution", format!("{}: t = {:e}, dt = {:e} instead of {:e}, {:e}, or another solution", what(), e.t, e.dt, we.t, we.dt));
                    }
                    at.0 += 1;
                    steps += 1;
                }
                at.1 = if *ok { c.nout as usize + 1 } else { outputs_before(c, snap) };
                if at.1 < before.1 {
                    return viol("outputs", format!("operation {n}: {} outputs are behind, before it was {}", at.1, before.1));
                }
                if *ok && at.0 != line.len() {
                    return viol("end", format!("operation {n}: run_corries succeeds after {} steps, straight on after {}", at.0, line.len()));
                }
                route.push((before.1, at.1));
                last_ok = *ok;
            },
            OP_SAVE => kept.push(at),
            OP_RESTORE => {
                if let Some(x) = kept.get((o >> 8) as usize) {
                    at = *x;
                    ctx.hit("set back");
                }
            },
            OP_FRESH => {
                if !ok {
                    return viol("fresh", format!("operation {n}: the simulation could not be set up again"));
                }
                ctx.hit("solver replaced");
            },
            _ => {},
        }
    }
    // nothing is in the way of the last run
    if c.script.ends_with(&[op(OP_ITER_MAX, many(c)), OP_RUN]) && !fired && !last_ok {
        return viol("resume", format!("the last run fails: {:?}", h.runs.last().unwrap().end));
    }
    let stops = h.runs.iter().filter(|r| matches!(&r.end, Some((false, ..)))).count();
    for st in &c.streams {
        if !st.data.contains(&7) {
            continue;
        }
        let get = |x: &Res| match records(c, st, &x.fs, &x.rep.io.stdout) {
            Ok(v) => Ok(v),
            Err(e) => viol("format", format!("stream {}: {e}", st.name)),
        };
        let straight = get(&want)?;
        let all = get(&res)?;
        let errs = all.iter().filter(|x| is_err(st, x)).count();
        if errs != stops {
            return viol("dumps", format!("stream {}: {errs} error records for {stops} failures", st.name));
        }
        let got: Vec<Record> = all.into_iter().filter(|x| !is_err(st, x)).collect();
        let due: Vec<usize> = route.iter().flat_map(|&(a, b)| a..b).collect();
        if got.len() != due.len() {
            return viol("count", format!("stream {}: {} regular records instead of {}", st.name, got.len(), due.len()));
        }
        for (k, &d) in due.iter().enumerate() {
            if straight.get(d) != Some(&got[k]) {
                return viol("record", format!("stream {}: regular record {k} differs from record {d} of the run straight on", st.name));
            }
        }
    }
    if runs > 1 {
        ctx.hit("resumed");
    }
    Ok(runs > 1 && steps > 0)
}

// ---- C24 ------------------------------------------------------------------------------------------

fn c24_gen(r: &mut Rng, ctx: &mut Ctx) -> Case {
    if r.chance(0.2) {
        let mut case = c23_gen(r, ctx);
        let c = &mut case.phases[0].sims[0];
        c.probe = true;
        c.streams.clear();
        return case;
    }
    let o = gen::Opt { asc: 0.3, nout: (1, 8), steps: (2.0, 12.0), wild: 0.25, custom_bc: 0.7, ..Default::default() };
    let mut c = gen::sim(r, &o);
    c.probe = true;
    if c.phys == 1 && r.chance(0.6) {
        let base = c.cs[0];
        c.cs = (0..c.s).map(|_| base * r.uni(0.8, 1.2)).collect();
    }
    if r.chance(0.4) {
        for _ in 0..r.range(1, 3) {
            let flux = r.chance(0.7);
            c.faults.push(StepFault {
                at: r.below(10) as u32,
                site: if flux { SITE_FLUX } else { SITE_BEFORE },
                k: r.below(6) as u32,
                act: if flux { *r.pick(&[A_ERR, A_NAN, A_INF]) } else { A_ERR },
                cell: r.below(24) as u32,
                eq: r.below(3) as u32,
            });
        }
        c.retries = c.faults.len() as u32;
    }
    single(vec![c], r)
}

fn c24(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let c = &case.phases[0].sims[0];
    let res = ctx.run_phase(case, 0, false)?;
    let hs = hists(&res);
    no_panic(&hs)?;
    init_fine(&hs[0])?;
    let (e, n) = (c.e(), c.s as usize);
    let (mut stages, mut counts) = (0u32, [0usize; 4]);
    for ev in &res.rep.logs[0] {
        let What::Seen(s) = &ev.what else { continue };
        counts[s.at as usize] += 1;
        if s.at == AT_FLUX {
            stages += 1;
        } else {
            stages = 0;
        }
        let at = || match s.at {
            AT_INIT => "after the set-up".to_string(),
            AT_SOLVER => format!("when the solver is called (call {})", counts[AT_SOLVER as usize]),
            AT_FLUX => format!("when the flux scheme is called (call {stages} of step attempt {})", counts[AT_SOLVER as usize]),
            _ => format!("after step attempt {}", counts[AT_SOLVER as usize]),
        };
        for i in 0..n {
            let p: Vec<f64> = (0..e).map(|j| s.prim[j * n + i]).collect();
            let near = |x: f64, y: f64, size: f64| x == y || !size.is_finite() || (x.is_nan() && y.is_nan()) || (x - y).abs() <= 1e-12 * size;
            let bad = |name: &str, x: f64, y: f64| viol("inconsistent", format!("{}: cell {i}: {name} is {x:e}, the primitive variables {p:?} make it {y:e}", at()));
            let m = p[0] * p[1];
            let mut want = vec![p[0], m];
            let mut size = vec![p[0].abs(), m.abs()];
            if e == 3 {
                let (th, kin) = (p[2] / (c.gamma - 1.0), 0.5 * m * p[1]);
                want.push(th + kin);
                size.push(th.abs() + kin.abs());
            }
            for j in 0..e {
                let x = s.cons[j * n + i];
                if !near(x, want[j], size[j]) {
                    return bad(&name_of(20 + j as u8), x, want[j]);
                }
            }
            let cs = if e == 3 { (c.gamma * p[2] / p[0]).sqrt() } else { c.cs[i] };
            if !near(s.cs[i], cs, cs) {
                return bad("the sound speed", s.cs[i], cs);
            }
            let size = p[1].abs() + cs;
            if !near(s.lo[i], p[1] - cs, size) {
                return bad("the slowest wave", s.lo[i], p[1] - cs);
            }
            if !near(s.hi[i], p[1] + cs, size) {
                return bad("the fastest wave", s.hi[i], p[1] + cs);
            }
            if e == 3 && s.mid[i].to_bits() != p[1].to_bits() && !p[1].is_nan() {
                return bad("the wave in between", s.mid[i], p[1]);
            }
            let pressure = if e == 3 { p[2] } else { p[0] * cs * cs };
            let kin = m * p[1];
            let mut flux = vec![(m, m.abs()), (kin + pressure, kin.abs() + pressure.abs())];
            if e == 3 {
                let w = pressure * c.gamma / (c.gamma - 1.0);
                flux.push(((w + 0.5 * kin) * p[1], (w.abs() + kin.abs()) * p[1].abs()));
            }
            for (j, (y, size)) in flux.into_iter().enumerate() {
                let x = s.flux[j * n + i];
                if !near(x, y, size) {
                    return bad(&format!("the physical flux of equation {j}"), x, y);
                }
            }
            if e == 2 {
                for (side, x) in [("west", s.cs_west[i]), ("east", s.cs_east[i])] {
                    if x != cs {
                        return bad(&format!("the sound speed on the {side} side"), x, cs);
                    }
                }
            }
        }
        if !s.mesh.is_empty() {
            return viol("mesh", format!("{}: the mesh is not the configured one: {}", at(), s.mesh));
        }
        if s.gamma.iter().any(|g| *g != c.gamma) {
            return viol("gamma", format!("{}: adiabatic indices {:?} instead of {}", at(), s.gamma, c.gamma));
        }
        let prim = rows(&s.prim, e, n);
        if prim.iter().any(|r| r[2..n - 2].iter().any(|x| !x.is_finite())) {
            ctx.hit("not finite");
            continue;
        }
        let mut m = Model::new(c);
        let want = m.complete(prim.clone());
        if m.ambiguous {
            ctx.hit("a boundary hinges on rounding");
            continue;
        }
        for j in 0..e {
            for i in [0, 1, n - 2, n - 1] {
                let (x, y) = (prim[j][i], want.prim[j][i]);
                let near = if i < 2 { [2, 3] } else { [n - 4, n - 3] };
                let size = near.iter().map(|&k| prim[j][k].abs()).fold(y.abs(), f64::max);
                if !((x - y).abs() <= 1e-10 * size || (x.is_nan() && y.is_nan()) || !size.is_finite()) {
                    return viol("ghost", format!("{}: ghost cell {i}: {} is {x:e}, the boundary condition makes it {y:e}", at(), name_of(10 + j as u8)));
                }
            }
        }
    }
    for (k, name) in ["set-ups", "calls of solvers", "calls of flux schemes", "ends of steps"].iter().enumerate() {
        if counts[k] > 0 {
            ctx.hit(name);
        }
    }
    Ok(counts[AT_FLUX as usize] > 0)
}
