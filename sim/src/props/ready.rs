//! C25 what the library offers ready-made: configurations, initial conditions, conversions of units.
use super::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        gen: c25_gen,
        check: c25,
        quick: 1500,
        thorough: 30_000,
        rule: "ready-made configuration with ready-made (or random) initial conditions, for every flux scheme, physics and mesh size, the default streams or default streams with chosen data, any end and number of outputs, on a random schedule, with conversions of random quantities in both systems of units; non-trivial: a simulation ran to its end, or was refused for its physics",
    }]
}

/// Everything about a simulation that the documentation of what it is made of says
pub fn documented(c: &mut SimCfg) {
    if c.ready == 0 {
        return;
    }
    let n = c.s as usize;
    c.banner = false;
    c.lim = 4;
    c.xi_in = 1.0;
    c.xi_out = 2.0;
    c.gamma = 5.0 / 3.0;
    c.units = 0;
    c.bcw = None;
    c.bce = None;
    c.rkf = 8;
    c.asc = false;
    c.rtol = 0.001;
    c.atol = 0.001;
    c.friction = 0.08;
    c.iter_max = u64::MAX - 2;
    c.t0 = 0.0;
    c.dt_min = 1e-12;
    c.dt_max = f64::MAX;
    c.cfl = 0.4;
    if c.ready & READY_NAMES == 0 {
        let (folder, name) = c.streams.iter().find(|s| s.file).map(|s| (s.folder.clone(), s.name.clone())).unwrap_or(("out".into(), "x".into()));
        let mut file = StreamCfg { file: true, folder, name, data: vec![4, 0], ..Default::default() };
        file.data.extend((0..c.e() as u8).map(|j| 10 + j));
        c.streams = vec![StreamCfg { data: vec![5, 4, 6, 7], ..Default::default() }, file];
    }
    for s in &mut c.streams {
        s.csv = s.file;
        s.vector = s.file;
        s.clear = s.file;
        s.ghost = s.file;
        s.meta = s.file;
        s.prec = if s.file { 7 } else { 3 };
        if !s.file {
            s.folder.clear();
            s.name.clear();
        }
    }
    let east = |i: usize| i >= n / 2;
    if c.ready & READY_NOH != 0 {
        // a uniform fluid that streams towards the centre from both sides
        c.ic = vec![1.0; n];
        c.ic.extend((0..n).map(|i| if east(i) { -1.0 } else { 1.0 }));
        c.cs = vec![if c.phys == 0 { 0.0 } else { 1.0 }; n];
        if c.phys == 0 {
            c.ic.extend(vec![1e-5; n]);
        }
    }
    if c.ready & READY_SOD != 0 {
        // a fluid at rest with a jump of density and pressure at the centre
        c.ic = (0..n).map(|i| if east(i) { 0.125 } else { 1.0 }).collect();
        c.ic.extend(vec![0.0; n]);
        c.ic.extend((0..n).map(|i| if east(i) { 0.1 } else { 1.0 }));
    }
}

fn c25_gen(r: &mut Rng, _: &mut Ctx) -> Case {
    let mut c = gen::sim(r, &gen::Opt { big: 0.3, ..Default::default() });
    c.ready = READY_CONFIG | *r.pick(&[0, READY_NOH, READY_NOH, READY_SOD, READY_SOD]);
    let names = r.chance(0.5);
    if names {
        c.ready |= READY_NAMES;
    }
    c.streams.clear();
    let folder = r.pick(&FOLDERS).to_string();
    let n = if names { r.range(1, 3) } else { 1 };
    for k in 0..n {
        let mut s = gen::stream(r, c.e(), k as usize, true, &["out"], &[4], &[7]);
        // every one of them clears its folder
        s.folder = if k == 0 { folder.clone() } else { format!("more{k}") };
        s.data = gen::data(r, c.e(), true, &[4]);
        if r.chance(0.3) {
            // the default ones for some of the equations
            s.data = [4, 0].into_iter().chain((0..r.below(c.e() as u64 + 1) as u8).map(|j| 10 + j)).collect();
        }
        c.streams.push(s);
    }
    if names && r.chance(0.7) {
        let data = if r.chance(0.3) { vec![5, 4, 6, 7] } else { gen::data(r, c.e(), false, &[4]) };
        let at = r.below(c.streams.len() as u64 + 1) as usize;
        c.streams.insert(at, StreamCfg { data, ..Default::default() });
    }
    documented(&mut c);
    // how far the fastest waves get in a few steps
    let fast = (0..c.s as usize).map(|i| gen::speed(&c, &c.ic, &c.cs, i.min(c.s as usize - 1))).fold(0.0, f64::max);
    let dt = 0.4 / (c.s as f64 - 4.0) / if fast.is_finite() && fast > 0.0 { fast } else { 1.0 };
    c.t_end = dt * r.uni(0.01, if c.s > 100 { 6.0 } else { 30.0 });
    c.nout = if r.chance(0.6) { 1 } else { r.range(2, 12) as u64 };
    if r.chance(0.5) {
        let f = r.log(1e-30, 1e30);
        c.convert = (0..r.range(1, 4)).map(|_| r.uni(-2.0, 2.0) * f).chain([0.0, 1.0]).collect();
    }
    single(vec![c], r)
}

fn c25(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let res = ctx.run_phase(case, 0, false)?;
    let c = &case.phases[0].sims[0];
    let hs = hists(&res);
    no_panic(&hs)?;
    let h = &hs[0];
    for (_, op, _, got) in h.notes.iter().filter(|n| n.1 & 255 == OP_CONVERT) {
        let cgs = op >> 8 == 1;
        // how many SI units a unit of length, time and mass is worth
        let unit = if cgs { [0.01, 1.0, 0.001] } else { [1.0; 3] };
        for (k, &y) in got.prim.iter().enumerate() {
            let (x, what) = (c.convert[k / 6], ["length", "time", "mass"][k % 3]);
            let to_cgs = k % 6 >= 3;
            let target = if to_cgs { [0.01, 1.0, 0.001][k % 3] } else { 1.0 };
            let want = x * unit[k % 3] / target;
            if !((y - want).abs() <= 1e-14 * want.abs()) {
                return viol(
                    "units",
                    format!(
                        "a {what} of {x:e} in {} units is {want:e} in {} units, converted to {y:e}",
                        if cgs { "CGS" } else { "SI" },
                        if to_cgs { "CGS" } else { "SI" }
                    ),
                );
            }
        }
        ctx.hit("units converted");
    }
    if c.ready & READY_SOD != 0 && c.phys != 0 {
        // made for adiabatic physics only
        if h.init_ok() {
            return viol("physics", "the Sod test was set up with isothermal physics");
        }
        for st in &c.streams {
            match records(c, st, &res.fs, &res.rep.io.stdout) {
                Ok(v) if v.is_empty() => {},
                x => return viol("records", format!("stream {}: the simulation was refused, but there is {x:?}", st.name)),
            }
        }
        ctx.hit("refused for its physics");
        return Ok(true);
    }
    init_fine(h)?;
    ctx.hit(match c.ready & (READY_NOH | READY_SOD) {
        0 => "own initial conditions",
        READY_NOH => "Noh test",
        _ => "Sod test",
    });
    num::c14(case, ctx)?;
    out::c01(case, ctx)?;
    out::c03(case, ctx)?;
    disk::c17(case, ctx)?;
    // The second-order scheme does not keep the nearly vanishing pressure of the adiabatic Noh test positive on coarse meshes;
    // all other tests run to the end
    let coarse = c.ready & READY_NOH != 0 && c.phys == 0 && c.flux != 0;
    let done = matches!(h.runs.last().and_then(|r| r.end.clone()), Some((true, ..)));
    if !done && !coarse && c.ready & (READY_NOH | READY_SOD) != 0 {
        return viol("end", format!("the run failed: {:?}", h.runs.last().and_then(|r| r.end.clone())));
    }
    Ok(done)
}
