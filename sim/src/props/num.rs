//! C10 failures that pass, C14 reference model, C15 conservation, C18 mirror symmetry.
use super::*;
use crate::model::{rows, Model};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            gen: c10_gen,
            check: c10,
            quick: 5000,
            thorough: 100_000,
            rule: "random simulation with 1-3 streams on a random schedule in which 1-3 step attempts fail (error before the step, error or NaN from the k-th flux evaluation) and run_corries is called again after each failure; non-trivial: at least one failure occurred and was retried",
        },
        Prop {
            id: "C14",
            gen: c14_gen,
            check: c14,
            quick: 9000,
            thorough: 120_000,
            rule: "random simulation (physics, flux, limiter, integrator, boundaries, mesh, limits) on a random schedule of 1-4 pool threads; non-trivial: at least one step was compared with the reference model",
        },
        Prop {
            id: "C15",
            gen: c15_gen,
            check: c15,
            quick: 6000,
            thorough: 120_000,
            rule: "random closed box, uniform state, or disturbance that does not reach the boundaries, on a random schedule; non-trivial: at least one step was taken",
        },
        Prop {
            id: "C18",
            gen: c18_gen,
            check: c18,
            quick: 4000,
            thorough: 80_000,
            rule: "random simulation and its mirror image, on different random schedules; non-trivial: both ended and were compared",
        },
    ]
}

// ---- C10 ------------------------------------------------------------------------------------------

fn c10_gen(r: &mut Rng, _: &mut Ctx) -> Case {
    let o = gen::Opt { asc: 0.3, nout: (1, 10), steps: (3.0, 20.0), ..Default::default() };
    let mut c = gen::sim(r, &o);
    add_streams(r, &mut c, 0, &Streams { must: vec![7], ..Default::default() });
    for s in &mut c.streams {
        // failed attempts count as iterations
        s.data.retain(|&d| d != 5);
    }
    let n = r.range(1, 3);
    for _ in 0..n {
        let flux = r.chance(0.6);
        c.faults.push(StepFault {
            at: r.below(10) as u32,
            site: if flux { SITE_FLUX } else { SITE_BEFORE },
            k: if c.asc_on() { r.below(30) as u32 } else { r.below(5) as u32 },
            act: if flux && r.chance(0.5) { *r.pick(&[A_NAN, A_INF]) } else { A_ERR },
            cell: r.below(24) as u32,
            eq: r.below(3) as u32,
        });
    }
    if r.chance(0.2) {
        // the solution itself turns out to be unphysical
        for f in &mut c.faults {
            f.site = SITE_FLUX;
            f.act = A_HUGE;
            f.k = *r.pick(&[0, 0, 1, 3]);
        }
        c.rkf = *r.pick(&[0u8, 0, c.rkf]);
    }
    c.retries = n as u32;
    single(vec![c], r)
}

fn c10(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let res = ctx.run_phase(case, 0, false)?;
    let c = &case.phases[0].sims[0];
    let hs = hists(&res);
    no_panic(&hs)?;
    let h = &hs[0];
    init_fine(h)?;
    let mut clean = case.phases[0].clone();
    clean.sims[0].faults.clear();
    clean.sims[0].retries = 0;
    let want = ctx.golden(&clean, false)?;
    let hw = hists(&want);
    no_panic(&hw)?;
    if !hw[0].all_ok() {
        // fails without faults too: nothing to say here
        return Ok(false);
    }
    // failed attempts count as iterations; error records are told from the others by dt_kind
    if hw[0].steps().count() + c.retries as usize + 1 >= c.iter_max as usize || c.streams.iter().any(|s| !s.data.contains(&7)) {
        return Ok(false);
    }
    for (k, s) in h.steps().enumerate() {
        if let Some((false, _, _, e)) = &s.end {
            if s.begin.t.to_bits() != e.t.to_bits() {
                return viol("clock", format!("step attempt {k} failed, but went from t = {:e} to {:e}", s.begin.t, e.t));
            }
        }
    }
    if c.faults.iter().any(|f| f.act == A_HUGE) {
        // nothing to go back to
        ctx.hit("unphysical solutions rejected");
        return Ok(h.steps().any(|s| matches!(s.end, Some((false, ..)))));
    }
    // every failure was caused by a fault ...
    for (k, s) in h.steps().enumerate() {
        if let Some((false, _, _, e)) = &s.end {
            if s.fired.is_empty() {
                return viol("spurious", format!("step attempt {k} failed without a fault: {}", s.end.as_ref().unwrap().1));
            }
            // ... and left the solution alone
            let b = &s.begin;
            if b.t.to_bits() != e.t.to_bits() || bits(&b.prim) != bits(&e.prim) || bits(&b.cons) != bits(&e.cons) {
                return viol("torn", format!("step attempt {k} failed and left a changed solution behind (t {:e} to {:e})", b.t, e.t));
            }
        }
    }
    match &h.runs.last().unwrap().end {
        Some((true, ..)) => {},
        e => return viol("retry", format!("calling run_corries again after a failure that had passed failed: {e:?}")),
    }
    // the same solution at the end
    let last = |h: &Hist| h.states().last().unwrap().0.clone();
    let (a, b) = (last(&hw[0]), last(h));
    if a.t.to_bits() != b.t.to_bits() || bits(&a.prim) != bits(&b.prim) || bits(&a.cons) != bits(&b.cons) {
        return viol("solution", format!("the solution after failures and retries differs from the one without: t {:e}, {:e}", b.t, a.t));
    }
    // the same records
    let mut errs = 0;
    for st in &c.streams {
        let get = |x: &Res| match records(c, st, &x.fs, &x.rep.io.stdout) {
            Ok(v) => Ok(v),
            Err(e) => viol("format", format!("stream {}: {e}", st.name)),
        };
        let all = get(&res)?;
        errs = all.iter().filter(|x| is_err(st, x)).count();
        let got: Vec<Record> = all.into_iter().filter(|x| !is_err(st, x)).collect();
        let want = get(&want)?;
        if got.len() != want.len() {
            return viol("count", format!("stream {}: {} regular records instead of {}", st.name, got.len(), want.len()));
        }
        for k in 0..got.len() {
            if got[k] != want[k] {
                return viol("record", format!("stream {}: record {k} differs from the one of the run without failures", st.name));
            }
        }
        let failed = h.runs.iter().filter(|r| matches!(r.end, Some((false, ..)))).count();
        if errs != failed {
            return viol("dumps", format!("stream {}: {errs} error records for {failed} failures", st.name));
        }
    }
    if errs > 0 {
        ctx.hit("failures retried");
    }
    Ok(errs > 0)
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

// ---- C14 ------------------------------------------------------------------------------------------

fn c14_gen(r: &mut Rng, _: &mut Ctx) -> Case {
    let o = gen::Opt { asc: 0.35, nout: (1, 4), steps: (2.0, 12.0), custom_bc: 0.6, scale: 0.1, ..Default::default() };
    let mut c = gen::sim(r, &o);
    if r.chance(0.3) {
        // errors around 1: the control has something to do
        c.rtol = r.log(1e-5, 1e-2);
        c.dt_max = c.t_end - c.t0;
        c.dt_min *= 1e-4;
    }
    if r.chance(0.15) {
        let n = c.s as usize;
        let base = c.cs[0];
        if c.phys == 1 {
            // the sound speed of an isothermal gas may vary in space
            c.cs = (0..n).map(|_| base * r.uni(0.8, 1.2)).collect();
        }
    }
    single(vec![c], r)
}

pub fn close(got: &[f64], want: &[f64], scale: f64, tol: f64) -> Option<(usize, f64, f64)> {
    for i in 0..want.len() {
        if !((got[i] - want[i]).abs() <= tol * scale) {
            return Some((i, got[i], want[i]));
        }
    }
    None
}

/// Nothing that magnifies rounding errors
fn benign(c: &SimCfg, s: &Snap) -> bool {
    let n = c.s as usize;
    if s.prim.iter().chain(&s.cons).any(|x| !x.is_finite()) {
        return false;
    }
    let range = |v: &[f64]| {
        let lo = v.iter().fold(f64::INFINITY, |a, x| a.min(*x));
        let hi = v.iter().fold(0.0f64, |a, x| a.max(*x));
        lo > 0.0 && lo > 1e-2 * hi
    };
    if !range(&s.prim[..n]) {
        return false;
    }
    if c.phys == 0 && !range(&s.prim[2 * n..3 * n]) {
        return false;
    }
    (0..n).all(|i| {
        let cs = if c.phys == 0 { (c.gamma * s.prim[2 * n + i] / s.prim[i]).sqrt() } else { c.cs[i] };
        s.prim[n + i].abs() < 10.0 * cs
    })
}

fn compare(m: &Model, what: &str, e: &Snap, want: &crate::model::St, tol: f64) -> Result<(), Viol> {
    let (ne, n) = (m.e, m.n);
    let sc = m.scales(&want.cons);
    let cmax = want.cs.iter().fold(0.0f64, |a, x| a.max(*x));
    let vmax = want.prim[1].iter().fold(cmax, |a, x| a.max(x.abs()));
    let psc = |j: usize| match j {
        0 => sc[0],
        1 => vmax,
        _ => sc[2],
    };
    for (kind, got, w, f) in [("cons", &e.cons, &want.cons, 0), ("prim", &e.prim, &want.prim, 1)] {
        let got = rows(got, ne, n);
        for j in 0..ne {
            let s = if f == 0 { sc[j] } else { psc(j) };
            if let Some((i, g, x)) = close(&got[j], &w[j], s, tol) {
                return viol(kind, format!("{what}: {kind}_{j} in cell {i} is {g:e}, the model has {x:e}"));
            }
        }
    }
    if let Some((i, g, x)) = close(&e.cs, &want.cs, vmax, tol) {
        return viol("c_sound", format!("{what}: c_sound in cell {i} is {g:e}, the model has {x:e}"));
    }
    Ok(())
}

pub fn c14(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let res = ctx.run_phase(case, 0, false)?;
    let c = &case.phases[0].sims[0];
    let hs = hists(&res);
    no_panic(&hs)?;
    let h = &hs[0];
    init_fine(h)?;
    let (ne, n) = (c.e(), c.s as usize);
    let mut m = Model::new(c);
    let mut compared = 0;
    // the initial state
    let s0 = h.init_snap.as_ref().unwrap();
    let want = m.complete(rows(&c.ic, ne, n));
    if !m.ambiguous && benign(c, s0) {
        compare(&m, "initial state", s0, &want, 1e-12)?;
    }
    let mut err_old = Some(0.0);
    for (k, s) in h.steps().enumerate() {
        let Some((true, _, _, e)) = &s.end else { break };
        if !benign(c, &s.begin) || !benign(c, e) {
            err_old = None;
            continue;
        }
        m.ambiguous = false;
        let cons = rows(&s.begin.cons, ne, n);
        let st = crate::model::St { prim: rows(&s.begin.prim, ne, n), cons: cons.clone(), cs: s.begin.cs.clone() };
        let dt0 = m.cap(m.dt_cfl(&st), &s.begin);
        let dt = if c.asc_on() { m.asc(&cons, dt0, &s.begin, &mut err_old) } else { Some(dt0) };
        if let (Some(dt), false) = (dt, m.ambiguous) {
            let tol = if c.asc_on() { 1e-5 } else { 1e-9 };
            // a rounding error decides whether a step still reaches the limit
            if !((e.dt - dt).abs() <= tol * dt + 1e-12 * c.t_end.abs()) {
                return viol("dt", format!("step {k} from t = {:e} has dt = {:e}, the model has {dt:e}", s.begin.t, e.dt));
            }
            ctx.hit(if c.asc_on() { "automated time steps compared" } else { "time steps compared" });
        }
        m.ambiguous = false;
        let (hi, _) = m.step(&cons, e.dt);
        let want = m.from_cons(&hi);
        let sane = want.prim[0].iter().all(|x| *x > 0.0);
        if m.ambiguous || !sane {
            ctx.hit("steps too close to call");
            continue;
        }
        compare(&m, &format!("step {k} from t = {:e} with dt = {:e}", s.begin.t, e.dt), e, &want, 1e-9)?;
        compared += 1;
    }
    for _ in 0..compared {
        ctx.hit("steps compared");
    }
    Ok(compared > 0)
}

// ---- C15 ------------------------------------------------------------------------------------------

fn c15_gen(r: &mut Rng, _: &mut Ctx) -> Case {
    let o = gen::Opt { asc: 0.25, nout: (1, 4), steps: (2.0, 20.0), custom_bc: 0.0, wild: 0.2, scale: 0.2, ..Default::default() };
    let kind = r.below(3) as i64;
    let mut c = gen::sim(r, &o);
    let (e, n) = (c.e(), c.s as usize);
    match kind {
        0 => {
            c.flux = 0;
            let mut b: Vec<(u8, u8)> = (0..e as u8).map(|j| (j, if j == 1 { 7 } else { 4 })).collect();
            if r.chance(0.5) {
                b.reverse();
            }
            c.bcw = Some(b.clone());
            b.rotate_left(1);
            c.bce = Some(b);
            if r.chance(0.3) {
                // a gas so cold that its pressure is lost among the rounding errors, or nearly a vacuum
                let cold = r.log(1e-16, 1e-3);
                let part = r.uni(0.2, 1.0);
                for i in 0..n {
                    if c.phys == 0 && r.chance(part) {
                        c.ic[2 * n + i] *= cold;
                    } else if r.chance(part) {
                        c.ic[i] *= cold;
                    }
                }
                if r.chance(0.5) {
                    c.cfl = r.uni(0.45, 1.0);
                }
            }
        },
        1 => {
            for j in 0..e {
                let x = c.ic[j * n + n / 2];
                c.ic[j * n..(j + 1) * n].fill(x);
            }
            if r.chance(0.3) {
                c.ic[n..2 * n].fill(0.0);
                let b: Vec<(u8, u8)> = (0..e as u8).map(|j| (j, if j == 1 { *r.pick(&[7u8, 4, 0]) } else { *r.pick(&[4u8, 0]) })).collect();
                c.bcw = Some(b.clone());
                c.bce = Some(b);
            }
        },
        _ => {
            // only a gas of one sound speed is a uniform background
            while c.s != 24 {
                c = gen::sim(r, &o);
            }
            let (e, n) = (c.e(), 24);
            for j in 0..e {
                let x = c.ic[j * n];
                for i in 0..n {
                    if !(11..=12).contains(&i) {
                        c.ic[j * n + i] = x;
                    }
                }
            }
        },
    }
    let mut k = single(vec![c], r);
    k.knob = vec![kind];
    k
}

fn c15(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let res = ctx.run_phase(case, 0, false)?;
    let c = &case.phases[0].sims[0];
    let hs = hists(&res);
    no_panic(&hs)?;
    let h = &hs[0];
    init_fine(h)?;
    let kind = case.knob[0];
    let (e, n) = (c.e(), c.s as usize);
    let s0 = h.init_snap.as_ref().unwrap();
    let m = Model::new(c);
    let c0 = rows(&s0.cons, e, n);
    let total = |v: &[Vec<f64>], j: usize| v[j][2..n - 2].iter().sum::<f64>();
    let mut reach = 1usize; // cells at either side that differ from the background: 11, 12
    let per = crate::model::tableau(c.rkf).high.len() * if c.flux == 0 { 1 } else { 2 };
    let mut steps = 0;
    let mut largest = m.scales(&c0);
    for (k, s) in h.steps().enumerate() {
        let Some((true, _, _, x)) = &s.end else { break };
        let v = rows(&x.cons, e, n);
        for (a, b) in largest.iter_mut().zip(m.scales(&v)) {
            *a = a.max(b)
        }
        let tol = 1e-14 * (k + 10) as f64;
        match kind {
            0 => {
                for j in 0..e {
                    if j == 1 {
                        continue; // momentum goes into the walls
                    }
                    let (a, b) = (total(&c0, j), total(&v, j));
                    if !((a - b).abs() <= tol * largest[j] * n as f64) {
                        return viol("conservation", format!("closed box: the total of cons_{j} went from {a:e} to {b:e} by step {k}"));
                    }
                }
            },
            1 => {
                for j in 0..e {
                    if let Some((i, g, w)) = close(&v[j], &c0[j], largest[j], tol) {
                        return viol("uniform", format!("uniform state: cons_{j} in cell {i} went from {w:e} to {g:e} by step {k}"));
                    }
                }
            },
            _ => {
                reach += per;
                if reach > 8 {
                    break;
                }
                for j in 0..e {
                    let (a, b) = (total(&c0, j), total(&v, j));
                    if !((a - b).abs() <= tol * largest[j] * n as f64) {
                        return viol(
                            "conservation",
                            format!("disturbance away from the boundaries: the total of cons_{j} went from {a:e} to {b:e} by step {k}"),
                        );
                    }
                }
            },
        }
        steps += 1;
    }
    ctx.hit(match kind {
        0 => "closed box",
        1 => "uniform state",
        _ => "disturbance in the middle",
    });
    Ok(steps > 0)
}

// ---- C18 ------------------------------------------------------------------------------------------

fn mirror_bc(r: &mut Rng, e: usize, signed: bool) -> Option<Vec<(u8, u8)>> {
    if r.chance(0.3) {
        return None;
    }
    Some(
        (0..e as u8)
            .map(|j| {
                let m = if j == 1 {
                    *r.pick(if signed { &[4u8, 7, 0, 3, 5, 6][..] } else { &[4u8, 7, 0, 3][..] })
                } else {
                    *r.pick(&[4u8, 4, 0])
                };
                (j, m)
            })
            .collect(),
    )
}

fn c18_gen(r: &mut Rng, _: &mut Ctx) -> Case {
    let o = gen::Opt { asc: 0.3, nout: (1, 1), steps: (2.0, 15.0), custom_bc: 0.0, scale: 0.1, ..Default::default() };
    let mut c = gen::sim(r, &o);
    let (e, n) = (c.e(), c.s as usize);
    if c.asc_on() {
        // tolerances at which the errors stand out from the rounding errors
        let top = (0..e).map(|j| c.ic[j * n..(j + 1) * n].iter().fold(0.0f64, |a, x| a.max(x.abs()))).fold(0.0f64, f64::max);
        c.atol = top * r.log(1e-3, 0.1);
    }
    let v = &c.ic[n..2 * n];
    let signed = v.iter().all(|x| *x > 0.0) || v.iter().all(|x| *x < 0.0);
    c.bcw = mirror_bc(r, e, signed);
    c.bce = mirror_bc(r, e, signed);
    let mut d = c.clone();
    for j in 0..e {
        for i in 0..n {
            let x = c.ic[j * n + n - 1 - i];
            d.ic[j * n + i] = if j == 1 { -x } else { x };
        }
    }
    std::mem::swap(&mut d.bcw, &mut d.bce);
    let mut a = gen::phase(vec![c]);
    schedule(r, &mut a);
    let mut b = gen::phase(vec![d]);
    schedule(r, &mut b);
    Case { phases: vec![a, b], knob: vec![] }
}

fn c18(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let c = &case.phases[0].sims[0];
    let (e, n) = (c.e(), c.s as usize);
    let (mut last, mut all) = (vec![], vec![]);
    for k in 0..2 {
        let res = ctx.run_phase(case, k, false)?;
        let hs = hists(&res);
        no_panic(&hs)?;
        init_fine(&hs[0])?;
        if !hs[0].init_ok() || hs[0].runs.is_empty() || hs[0].runs[0].steps.is_empty() {
            return Ok(false);
        }
        if !hs[0].all_ok() && !c.asc_on() {
            return Ok(false);
        }
        let cfg = &case.phases[k].sims[0];
        let outflow = |b: &Option<Vec<(u8, u8)>>| b.as_ref().map(|v| v.iter().any(|x| x.1 == 5 || x.1 == 6)).unwrap_or(false);
        for s in hs[0].steps() {
            if !benign(cfg, &s.begin) {
                return Ok(false);
            }
            for (b, i) in [(&cfg.bcw, 2), (&cfg.bce, n - 3)] {
                let cs = s.begin.cs[i];
                if outflow(b) && s.begin.prim[n + i].abs() < 0.05 * cs {
                    return Ok(false); // the sign may hinge on rounding errors
                }
            }
        }
        last.push(hs[0].states().last().unwrap().0.clone());
        all.push(hs[0].clone());
    }
    if c.asc_on() {
        let mut n = 0;
        for (a, b) in all[0].steps().zip(all[1].steps()) {
            let (Some((oka, _, _, sa)), Some((okb, _, _, sb))) = (&a.end, &b.end) else { break };
            if oka != okb {
                // the one that failed had tried a step that is clearly too short
                let bad = if *oka { sb } else { sa };
                if bad.dt < 0.99 * c.dt_min {
                    return viol("mirror", format!("step {n} succeeds on one side of the mirror only (its attempt fell to dt = {:e})", bad.dt));
                }
                break;
            }
            if !oka || sa.t >= c.t_end || sb.t >= c.t_end {
                break;
            }
            if (sa.dt - sb.dt).abs() > 1e-3 * sa.dt.max(sb.dt) {
                return viol("mirror", format!("step {n} is {:e} long in the simulation, {:e} in its mirror image", sa.dt, sb.dt));
            }
            n += 1;
        }
        if n > 0 {
            ctx.hit("mirrored automated steps compared");
        }
        return Ok(n > 0);
    }
    let (a, b) = (&last[0], &last[1]);
    if (a.t - b.t).abs() > 1e-9 * (c.t_end - c.t0) {
        return Ok(false);
    }
    let m = Model::new(c);
    let sc = m.scales(&rows(&a.cons, e, n));
    for j in 0..e {
        let sign = if j == 1 { -1.0 } else { 1.0 };
        let x: Vec<f64> = (0..n).map(|i| a.cons[j * n + i]).collect();
        let y: Vec<f64> = (0..n).map(|i| sign * b.cons[j * n + n - 1 - i]).collect();
        if let Some((i, g, w)) = close(&y, &x, sc[j], 1e-8) {
            return viol("mirror", format!("cons_{j} in cell {i}: {w:e} in the simulation, {g:e} in its mirror image (t = {:e})", a.t));
        }
    }
    ctx.hit("mirror images compared");
    Ok(true)
}
