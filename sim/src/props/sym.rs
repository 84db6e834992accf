//! C21 the choice of units does not matter, C22 streams influence neither the simulation nor each other.
use super::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            gen: c21_gen,
            check: c21,
            quick: 5000,
            thorough: 100_000,
            rule: "random simulation (physics, flux, limiter, integrator, boundaries, limits, failures and retries) and the same in other units of mass, length and time (powers of two), on different random schedules; non-trivial: at least one step was compared",
        },
        Prop {
            id: "C22",
            gen: c22_gen,
            check: c22,
            quick: 5000,
            thorough: 100_000,
            rule: "random simulation with 1-6 streams, failures and retries; the same with some streams left out, others altered, their order kept, on another schedule; non-trivial: at least one stream was compared",
        },
    ]
}

// ---- C21 ------------------------------------------------------------------------------------------

fn c21_gen(r: &mut Rng, _: &mut Ctx) -> Case {
    let o = gen::Opt { asc: 0.3, nout: (1, 6), steps: (2.0, 20.0), ..Default::default() };
    // not where squares of the variables leave the range of floating point numbers in other units
    let mut c = loop {
        let mut c = gen::sim(r, &o);
        gen::vary_sound(r, &mut c);
        if c.ic.iter().all(|x| x.abs() < 1e60) && c.ic[0] > 1e-60 {
            break c;
        }
    };
    add_streams(r, &mut c, 0, &Streams { n: (1, 2), prec: vec![17], stdout: 0.2, must: vec![7], meta: 0.1, ..Default::default() });
    for s in &mut c.streams {
        if !s.file {
            s.meta = false;
        }
    }
    if r.chance(0.3) {
        let flux = r.chance(0.6);
        c.faults.push(StepFault {
            at: r.below(10) as u32,
            site: if flux { SITE_FLUX } else { SITE_BEFORE },
            k: r.below(6) as u32,
            act: if flux && r.chance(0.5) { A_NAN } else { A_ERR },
            cell: r.below(24) as u32,
            eq: r.below(3) as u32,
        });
        c.retries = r.below(2) as u32;
    }
    let knob = if c.asc_on() {
        // the absolute tolerance is one number for variables of different dimensions
        vec![r.range(-60, 60), 0, r.range(-40, 40)]
    } else {
        match r.below(4) {
            0 => vec![r.range(-60, 60), 0, 0],
            1 => vec![0, r.range(-40, 40), 0],
            2 => vec![0, 0, r.range(-40, 40)],
            _ => vec![r.range(-60, 60), r.range(-40, 40), r.range(-40, 40)],
        }
    };
    let mut a = gen::phase(vec![c.clone()]);
    schedule(r, &mut a);
    let mut b = gen::phase(vec![c]);
    schedule(r, &mut b);
    Case { phases: vec![a, b], knob }
}

/// the exponents of the units
struct Units {
    rho: i32,
    v: i32,
    l: i32,
}
impl Units {
    fn t(&self) -> i32 {
        self.l - self.v
    }
    fn prim(&self, j: usize) -> i32 {
        [self.rho, self.v, self.rho + 2 * self.v][j]
    }
    fn cons(&self, j: usize) -> i32 {
        [self.rho, self.rho + self.v, self.rho + 2 * self.v][j]
    }
}
fn p2(k: i32) -> f64 {
    2f64.powi(k)
}

fn scaled(c: &SimCfg, u: &Units) -> SimCfg {
    let mut d = c.clone();
    let n = c.s as usize;
    for j in 0..c.e() {
        d.ic[j * n..(j + 1) * n].iter_mut().for_each(|x| *x *= p2(u.prim(j)));
    }
    d.cs.iter_mut().for_each(|x| *x *= p2(u.v));
    for x in [&mut d.t0, &mut d.t_end, &mut d.dt_min, &mut d.dt_max] {
        *x *= p2(u.t());
    }
    for x in [&mut d.xi_in, &mut d.xi_out] {
        *x *= p2(u.l);
    }
    d.atol *= p2(u.rho);
    d
}

/// largest deviation from `a` in the other units, relative to the largest value of the row
fn off(a: &[f64], b: &[f64], k: i32) -> f64 {
    let top = a.iter().filter(|x| x.is_finite()).fold(0.0f64, |m, x| m.max(x.abs()));
    a.iter()
        .zip(b)
        .map(|(x, y)| {
            let y = y / p2(k);
            if *x == y || (x.is_nan() && y.is_nan()) {
                0.0
            } else if !x.is_finite() || !y.is_finite() || top == 0.0 {
                f64::INFINITY
            } else {
                (x - y).abs() / top
            }
        })
        .fold(0.0, f64::max)
}

fn c21(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    const TOL: f64 = 1e-9;
    let c = &case.phases[0].sims[0];
    let (e, n) = (c.e(), c.s as usize);
    let u = Units { rho: case.knob[0] as i32, v: case.knob[1] as i32, l: case.knob[2] as i32 };
    let d = scaled(c, &u);
    let a = ctx.run_phase(case, 0, false)?;
    let mut other = case.phases[1].clone();
    other.sims = vec![d.clone()];
    let b = ctx.run_recording(&other, false, 1)?;
    let (ha, hb) = (hists(&a), hists(&b));
    no_panic(&ha)?;
    no_panic(&hb)?;
    let (ha, hb) = (&ha[0], &hb[0]);
    init_fine(ha)?;
    init_fine(hb)?;
    let units = format!("with units of density, velocity, length of 2^{}, 2^{}, 2^{}", u.rho, u.v, u.l);
    let same = |what: &str, x: &Snap, y: &Snap| -> Result<(), Viol> {
        let bad = |name: String, o: f64| viol("units", format!("{units}: {what}: {name} differs by {o:e} (relative)"));
        if x.iter != y.iter || x.kind != y.kind {
            return viol("units", format!("{units}: {what}: iteration {} ({}) instead of {} ({})", y.iter, y.kind, x.iter, x.kind));
        }
        for (name, p, q) in [("t", x.t, y.t), ("dt", x.dt, y.dt), ("t_next", x.t_next, y.t_next)] {
            let o = off(&[p], &[q], u.t());
            if o > TOL {
                return bad(name.into(), o);
            }
        }
        for j in 0..e {
            let r = j * n..(j + 1) * n;
            for (name, o) in [
                (format!("prim_{j}"), off(&x.prim[r.clone()], &y.prim[r.clone()], u.prim(j))),
                (format!("cons_{j}"), off(&x.cons[r.clone()], &y.cons[r.clone()], u.cons(j))),
            ] {
                // velocities and momenta may cancel
                if o > TOL && (j != 1 || top_speed(x, n, e, c) * o > TOL) {
                    return bad(name, o);
                }
            }
        }
        let o = off(&x.cs, &y.cs, u.v);
        if o > TOL {
            return bad("c_sound".into(), o);
        }
        Ok(())
    };
    if let (Some(x), Some(y)) = (&ha.init_snap, &hb.init_snap) {
        same("after the set-up", x, y)?;
    }
    let mut m = 0;
    for (k, (x, y)) in ha.steps().zip(hb.steps()).enumerate() {
        same(&format!("before step {k}"), &x.begin, &y.begin)?;
        if let (Some(x), Some(y)) = (&x.end, &y.end) {
            if x.0 != y.0 {
                return viol("units", format!("{units}: step {k} ends with {} {:?} instead of {} {:?}", y.0, y.1, x.0, x.1));
            }
            if x.0 {
                same(&format!("after step {k}"), &x.3, &y.3)?;
            }
        }
        m += 1;
    }
    let (ca, cb) = (ha.steps().count(), hb.steps().count());
    let ends = |h: &Hist| h.runs.iter().map(|r| r.end.as_ref().map(|e| e.0)).collect::<Vec<_>>();
    if ca != cb || ends(ha) != ends(hb) {
        return viol("units", format!("{units}: {cb} steps ({:?}) instead of {ca} ({:?})", ends(hb), ends(ha)));
    }
    // and the records say so
    for st in &c.streams {
        let get = |c: &SimCfg, x: &Res| match records(c, st, &x.fs, &x.rep.io.stdout) {
            Ok(v) => Ok(v),
            Err(e) => viol("format", format!("{units}: stream {}: {e}", st.name)),
        };
        let (p, q) = (get(c, &a)?, get(&d, &b)?);
        if p.len() != q.len() {
            return viol("records", format!("{units}: stream {}: {} records instead of {}", st.name, q.len(), p.len()));
        }
        for (k, (x, y)) in p.iter().zip(&q).enumerate() {
            if is_err(st, x) != is_err(st, y) || x.len() != y.len() {
                return viol("records", format!("{units}: stream {}: record {k} is of another kind", st.name));
            }
            for (col, &dt) in st.data.iter().enumerate() {
                let num = |r: &Record| r.iter().map(|row| row.get(col).and_then(|t| t.parse::<f64>().ok()).unwrap_or(f64::NAN)).collect::<Vec<_>>();
                let sc = match dt {
                    0..=2 => u.l,
                    3 => u.v,
                    4 | 6 => u.t(),
                    5 => 0,
                    // velocities may cancel, and are compared above
                    7 | 11 | 21 => continue,
                    10..=19 => u.prim(dt as usize - 10),
                    _ => u.cons(dt as usize - 20),
                };
                let (v, w) = (num(x), num(y));
                let o = off(&v, &w, sc);
                if o > TOL {
                    return viol("records", format!("{units}: stream {}: record {k}: {} differs by {o:e} (relative)", st.name, name_of(dt)));
                }
            }
        }
    }
    ctx.stats.counts.entry("steps compared".into()).and_modify(|x| *x += m).or_insert(m);
    Ok(m > 0)
}

/// largest velocity relative to the largest speed of sound, at most 1
fn top_speed(s: &Snap, n: usize, e: usize, c: &SimCfg) -> f64 {
    let v = s.prim[n..2 * n].iter().fold(0.0f64, |a, x| a.max(x.abs()));
    let a = (0..n)
        .map(|i| if e == 3 { (c.gamma * s.prim[2 * n + i] / s.prim[i]).sqrt() } else { s.cs[i] })
        .fold(0.0f64, |a, x| a.max(x));
    if a > 0.0 {
        (v / a).min(1.0)
    } else {
        1.0
    }
}

// ---- C22 ------------------------------------------------------------------------------------------

/// knob: what becomes of each stream: 0 kept, 1 left out, 2 altered
fn c22_gen(r: &mut Rng, _: &mut Ctx) -> Case {
    let o = gen::Opt { asc: 0.25, nout: (1, 12), steps: (2.0, 20.0), ..Default::default() };
    let mut c = gen::sim(r, &o);
    gen::vary_sound(r, &mut c);
    add_streams(r, &mut c, 0, &Streams { n: (1, 6), stdout: 0.6, prec: vec![0, 2, 3, 7, 10, 16, 16, 20], twins: 0.15, ..Default::default() });
    if r.chance(0.4) {
        for _ in 0..r.range(1, 3) {
            let flux = r.chance(0.6);
            c.faults.push(StepFault {
                at: r.below(10) as u32,
                site: if flux { SITE_FLUX } else { SITE_BEFORE },
                k: r.below(6) as u32,
                act: if flux && r.chance(0.5) { A_NAN } else { A_ERR },
                cell: r.below(24) as u32,
                eq: r.below(3) as u32,
            });
        }
        c.retries = r.below(4) as u32;
    }
    c.reruns = r.chance(0.1) as u32;
    let knob = (0..c.streams.len()).map(|_| *r.pick(&[0i64, 0, 1, 2])).collect();
    let mut a = gen::phase(vec![c.clone()]);
    schedule(r, &mut a);
    let mut b = gen::phase(vec![c]);
    schedule(r, &mut b);
    if r.chance(0.2) {
        b.io = gen::soft_io(r);
    }
    Case { phases: vec![a, b], knob }
}

fn altered(c: &SimCfg, st: &StreamCfg, k: usize) -> StreamCfg {
    let mut s = st.clone();
    let h = simrt::prng::mix(k as u64 + 77 * st.prec as u64 + 1000 * st.data.len() as u64);
    s.name = format!("other{k}");
    s.file = true;
    s.csv = h & 1 == 0;
    s.vector = h & 2 == 0;
    s.ghost = h & 4 == 0;
    s.meta = h & 8 == 0;
    s.prec = [0, 1, 5, 9, 18][(h >> 8) as usize % 5];
    s.folder = ["out", "res", "elsewhere"][(h >> 16) as usize % 3].into();
    s.data = if s.vector { vec![10, 4, 21] } else { vec![5, 4] };
    if s.vector && h & 16 == 0 {
        s.data.extend([0, 6, 7, 20 + c.e() as u8 - 1]);
    }
    s
}

fn c22(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let c = &case.phases[0].sims[0];
    let mut d = c.clone();
    let fate = |k: usize| case.knob.get(k).copied().unwrap_or(0);
    d.streams = c
        .streams
        .iter()
        .enumerate()
        .filter_map(|(k, s)| match fate(k) {
            0 => Some(s.clone()),
            1 => None,
            _ => Some(altered(c, s, k)),
        })
        .collect();
    let a = ctx.run_phase(case, 0, false)?;
    let mut other = case.phases[1].clone();
    other.sims = vec![d.clone()];
    let b = ctx.run_recording(&other, false, 1)?;
    let (ha, hb) = (hists(&a), hists(&b));
    no_panic(&ha)?;
    no_panic(&hb)?;
    init_fine(&ha[0])?;
    init_fine(&hb[0])?;
    if let Some(x) = diff_logs(&a.rep.logs[0], &b.rep.logs[0]) {
        return viol("simulation", format!("with other streams the simulation goes another way: {x}"));
    }
    let mut n = 0;
    for (k, st) in c.streams.iter().enumerate() {
        if fate(k) != 0 {
            continue;
        }
        if !st.file {
            // metadata names all streams
            if c.streams.iter().filter(|s| !s.file).count() == 1 && !st.meta {
                if let Some(x) = diff_bytes(&a.rep.io.stdout, &b.rep.io.stdout) {
                    return viol("stdout", format!("stream {} on stdout, with other streams beside it: {x}", st.name));
                }
                n += 1;
            }
            continue;
        }
        let mine = |p: &str| {
            if st.vector {
                p.strip_prefix(&format!("{}/{}_", folder_path(st), st.name))
                    .and_then(|x| x.strip_suffix(&format!(".{}", ext(st))))
                    .is_some_and(|x| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit()))
            } else {
                p == scalar_path(st)
            }
        };
        let pick = |f: &Fs| f.iter().filter(|(p, _)| mine(p)).map(|(p, n)| (p.clone(), n.clone())).collect::<Fs>();
        if let Some(x) = diff_fs(&pick(&a.fs), &pick(&b.fs)) {
            return viol("file", format!("stream {}, with other streams beside it: {x}", st.name));
        }
        n += 1;
    }
    ctx.stats.counts.entry("streams compared".into()).and_modify(|x| *x += n).or_insert(n);
    Ok(n > 0)
}
