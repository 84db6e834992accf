//! C28: a physics of the user's own.
use super::*;

pub fn props() -> Vec<Prop> {
    if !cfg!(feature = "own") {
        return vec![];
    }
    vec![Prop {
        id: "C28",
        gen: c28_gen,
        check: c28,
        quick: 4000,
        thorough: 80_000,
        rule: "random simulation or stop and resume script (with failing steps and retries) and the same by a physics of the user's own that has the equations in another order and carries up to two tracers along, with the same streams (and the tracers' columns), on different random schedules; non-trivial: at least one step was compared",
    }]
}

const TRACER: u8 = 3;

/// knob: which physics, sign and exponent of the tracers' concentration (0: none), boundary condition of the tracers
fn c28_gen(r: &mut Rng, ctx: &mut Ctx) -> Case {
    let mut c = loop {
        let mut c = if r.chance(0.15) {
            user::c23_gen(r, ctx).phases.remove(0).sims.remove(0)
        } else {
            let o = gen::Opt { asc: 0.35, nout: (1, 6), steps: (3.0, 20.0), wild: 0.1, scale: 0.0, big: 0.0, ..Default::default() };
            let mut c = gen::sim(r, &o);
            gen::vary_sound(r, &mut c);
            add_streams(r, &mut c, 0, &Streams { n: (0, 2), stdout: 0.3, ..Default::default() });
            match r.below(8) {
                0 => c.iter_max = r.range(1, 20) as u64,
                1 => {
                    c.dt_min = gen::typical_dt(&c) * r.uni(0.7, 1.15);
                    c.dt_max = c.dt_max.max(c.dt_min * 1.5);
                },
                _ => {},
            }
            if r.chance(0.3) {
                for _ in 0..r.range(1, 3) {
                    c.faults.push(StepFault {
                        at: r.below(10) as u32,
                        site: *r.pick(&[SITE_BEFORE, SITE_AFTER, SITE_FLUX, SITE_FLUX]),
                        k: r.below(6) as u32,
                        act: A_ERR,
                        cell: 0,
                        eq: 0,
                    });
                }
                c.retries = r.below(4) as u32;
            }
            c.reruns = r.chance(0.1) as u32;
            c
        };
        if matches!(c.s, 12 | 24) {
            c.faults.retain(|f| f.act == A_ERR);
            break c;
        }
    };
    let which = r.below(3) as i64;
    if c.script.is_empty() && r.chance(0.2) {
        // the ready-made output, see with_own
        let data = [4, 0].into_iter().chain(roles(&c, which).iter().map(|&x| 10 + x % TRACER)).collect();
        c.streams.push(StreamCfg {
            file: true,
            csv: true,
            vector: true,
            folder: "default".into(),
            clear: true,
            name: "ready-made".into(),
            prec: 7,
            ghost: true,
            meta: true,
            data,
        });
    }
    let knob = vec![which, r.range(-1, 1), r.range(0, 8), r.below(3) as i64];
    let mut a = gen::phase(vec![c.clone()]);
    schedule(r, &mut a);
    let mut b = gen::phase(vec![c]);
    schedule(r, &mut b);
    Case { phases: vec![a, b], knob }
}

fn concentration(case: &Case) -> f64 {
    case.knob[1] as f64 * 0.5f64.powi(case.knob[2] as i32)
}

fn roles(c: &SimCfg, which: i64) -> &'static [u8] {
    match (c.phys, which) {
        (0, 0) => &[2, 0, 1],
        (0, 1) => &[0, 3, 2, 1],
        (0, _) => &[3, 3, 0, 1, 2],
        (_, 0) => &[1, 0],
        (_, 1) => &[3, 1, 0],
        _ => &[0, 1, 3],
    }
}

/// the same with a physics of the user's own
fn with_own(c: &SimCfg, case: &Case) -> SimCfg {
    let mut d = c.clone();
    let n = c.s as usize;
    let own = roles(c, case.knob[0]);
    d.own = own.to_vec();
    let q = concentration(case);
    let place = |j: u8| own.iter().position(|&x| x == j).unwrap() as u8;
    let tracers: Vec<u8> = (0..own.len() as u8).filter(|&j| own[j as usize] == TRACER).collect();
    d.ic = own
        .iter()
        .flat_map(|&x| if x == TRACER { vec![q; n] } else { c.ic[x as usize * n..(x as usize + 1) * n].to_vec() })
        .collect();
    for b in [&mut d.bcw, &mut d.bce].into_iter().flatten() {
        for x in b.iter_mut() {
            x.0 = place(x.0);
        }
        // constant, extrapolated from constant values, or none at all
        if case.knob[3] < 2 {
            b.extend(tracers.iter().map(|&j| (j, if case.knob[3] == 0 { 4 } else { 0 })));
        }
    }
    for s in &mut d.streams {
        if s.name == "ready-made" {
            s.data = [4, 0].into_iter().chain((0..own.len() as u8).map(|j| 10 + j)).collect();
            continue;
        }
        for x in &mut s.data {
            if *x >= 20 {
                *x = 20 + place(*x - 20);
            } else if *x >= 10 {
                *x = 10 + place(*x - 10);
            }
        }
        if s.vector {
            s.data.extend(tracers.iter().flat_map(|&j| [10 + j, 20 + j]));
        }
    }
    d
}

fn c28(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let c = &case.phases[0].sims[0];
    let n = c.s as usize;
    let d = with_own(c, case);
    let q = concentration(case);
    let a = ctx.run_phase(case, 0, false)?;
    let mut other = case.phases[1].clone();
    other.sims = vec![d.clone()];
    let b = ctx.run_recording(&other, false, 1)?;
    let (ha, hb) = (hists(&a), hists(&b));
    no_panic(&ha)?;
    no_panic(&hb)?;
    let (ha, hb) = (&ha[0], &hb[0]);
    init_fine(ha)?;
    init_fine(hb)?;
    let with = format!("with a physics of the user's own ({:?})", d.own.iter().map(|&x| ["rho", "v", "p", "tracer"][x as usize]).collect::<Vec<_>>());
    let eq = |x: f64, y: f64| x == y || (x.is_nan() && y.is_nan());
    let same = |what: &str, x: &Snap, y: &Snap, fine: bool| -> Result<(), Viol> {
        let bad = |name: String, w: String, g: String| viol("own", format!("{with}: {what}: {name} is {g} instead of {w}"));
        if x.iter != y.iter || x.kind != y.kind {
            return bad("iteration".into(), format!("{} ({})", x.iter, x.kind), format!("{} ({})", y.iter, y.kind));
        }
        for (name, v, w) in [("t", x.t, y.t), ("dt", x.dt, y.dt), ("t_next_output", x.t_next, y.t_next)] {
            if !eq(v, w) {
                return bad(name.into(), format!("{v:e}"), format!("{w:e}"));
            }
        }
        for i in 0..n {
            if !eq(x.cs[i], y.cs[i]) {
                return bad(format!("c_sound of cell {i}"), format!("{:e}", x.cs[i]), format!("{:e}", y.cs[i]));
            }
        }
        let rho = d.own.iter().position(|&x| x == 0).unwrap();
        for (j, &role) in d.own.iter().enumerate() {
            for i in 0..n {
                let k = j * n + i;
                let (name, p, u) = if role != TRACER {
                    let m = role as usize * n + i;
                    (["density", "velocity", "pressure"][role as usize], x.prim[m], x.cons[m])
                } else if fine {
                    ("tracer", q, q * y.cons[rho * n + i])
                } else {
                    continue;
                };
                if !eq(p, y.prim[k]) {
                    return bad(format!("{name} (primitive) of cell {i}"), format!("{p:e}"), format!("{:e}", y.prim[k]));
                }
                if !eq(u, y.cons[k]) {
                    return bad(format!("{name} (conservative) of cell {i}"), format!("{u:e}"), format!("{:e}", y.cons[k]));
                }
            }
        }
        Ok(())
    };
    if let (Some(x), Some(y)) = (&ha.init_snap, &hb.init_snap) {
        same("after the set-up", x, y, true)?;
    }
    let mut m = 0;
    let mut sound = true;
    for (k, (x, y)) in ha.steps().zip(hb.steps()).enumerate() {
        same(&format!("before step {k}"), &x.begin, &y.begin, sound)?;
        if let (Some(x), Some(y)) = (&x.end, &y.end) {
            if x.0 != y.0 {
                return viol("own", format!("{with}: step {k} ends with {} {:?} instead of {} {:?}", y.0, y.1, x.0, x.1));
            }
            // a failed step leaves what it was at
            sound = x.0 && sound;
            same(&format!("after step {k}"), &x.3, &y.3, sound)?;
        }
        m += 1;
    }
    let ends = |h: &Hist| h.runs.iter().map(|r| r.end.as_ref().map(|e| e.0)).collect::<Vec<_>>();
    let (ca, cb) = (ha.steps().count(), hb.steps().count());
    if ca != cb || ends(ha) != ends(hb) {
        return viol("own", format!("{with}: {cb} steps ({:?}) instead of {ca} ({:?})", ends(hb), ends(ha)));
    }
    // the same outputs, of its own equations
    let mut v = vec![];
    for (st, own) in c.streams.iter().zip(&d.streams) {
        let get = |c: &SimCfg, st: &StreamCfg, x: &Res| match records(c, st, &x.fs, &x.rep.io.stdout) {
            Ok(v) => Ok(v),
            Err(e) => viol("format", format!("{with}: stream {}: {e}", st.name)),
        };
        let (p, g) = (get(c, st, &a)?, get(&d, own, &b)?);
        if p.len() != g.len() {
            return viol("records", format!("{with}: stream {}: {} records instead of {}", st.name, g.len(), p.len()));
        }
        for (k, (x, y)) in p.iter().zip(&g).enumerate() {
            for (i, (x, y)) in x.iter().zip(y).enumerate() {
                for col in 0..st.data.len() {
                    // of the ready-made output
                    if own.data[col] >= 10 && d.own[own.data[col] as usize % 10] == TRACER {
                        continue;
                    }
                    if x.get(col) != y.get(col) {
                        return viol(
                            "records",
                            format!("{with}: stream {}: record {k}, row {i}: {} is {:?} instead of {:?}", st.name, name_of(own.data[col]), y.get(col), x.get(col)),
                        );
                    }
                }
            }
        }
        v.push((own, g));
    }
    if c.script.is_empty() {
        out::match_states(&d, hb, &v)?;
    }
    ctx.stats.counts.entry("steps compared".into()).and_modify(|x| *x += m).or_insert(m);
    if d.own.contains(&TRACER) {
        ctx.hit("with tracers");
    }
    Ok(m > 0)
}
