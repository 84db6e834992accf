//! Seeded generation of simulations, streams, schedules and faults.
use simrt::io::{self, Act, Fault, IoPlan};
use simrt::plan::*;
use simrt::prng::Rng;
use simrt::sched::Policy;

pub struct Opt {
    pub asc: f64,
    pub steps: (f64, f64),
    pub nout: (i64, i64),
    pub custom_bc: f64,
    pub wild: f64,
    pub small: bool,
    /// how often the state is of an unusual scale
    pub scale: f64,
    /// how often the mesh, the coordinates, the time or the duration are of an unusual size
    pub big: f64,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { asc: 0.25, steps: (3.0, 25.0), nout: (1, 8), custom_bc: 0.5, wild: 0.0, small: false, scale: 0.02, big: 0.03 }
    }
}

pub fn boundary(r: &mut Rng, e: usize, prob: f64) -> Option<Vec<(u8, u8)>> {
    if !r.chance(prob) {
        return None;
    }
    let mut v: Vec<(u8, u8)> = (0..e as u8)
        .map(|j| {
            let m = if j == 1 {
                *r.pick(&[4u8, 4, 5, 6, 7, 7, 0, 2, 3])
            } else {
                *r.pick(&[4u8, 4, 4, 4, 0, 1, 1])
            };
            (j, m)
        })
        .collect();
    if r.chance(0.4) {
        v.reverse();
    }
    Some(v)
}

pub fn speed(c: &SimCfg, prim: &[f64], cs: &[f64], i: usize) -> f64 {
    let s = c.s as usize;
    let v = prim[s + i];
    let a = if c.phys == 0 { (c.gamma * prim[2 * s + i] / prim[i]).sqrt() } else { cs[i] };
    v.abs() + a
}

/// A simulation without output streams
pub fn sim(r: &mut Rng, o: &Opt) -> SimCfg {
    let phys = r.below(2) as u8;
    let flux = r.below(2) as u8;
    let s = if o.small { *r.pick(&[7u32, 7, 12]) } else { *r.pick(&[7u32, 12, 12, 24]) };
    let s = if r.chance(o.big) { *r.pick(&[6u32, 6, 6, 64, 64, 64, 64, 131, 131, 131, 131, 1031]) } else { s };
    let e = if phys == 0 { 3 } else { 2 };
    let n = s as usize;
    let mut xi_in = r.uni(1.0, 2.0);
    let len = r.uni(0.3, 1.2);
    let gamma = match r.below(3) {
        0 => 5.0 / 3.0,
        1 => 1.4,
        _ => r.uni(1.1, 1.9),
    };
    let (mut rho0, mut p0) = (r.log(0.1, 10.0), r.log(0.1, 10.0));
    if r.chance(o.scale) {
        rho0 *= r.log(1e-10, 1e10);
        p0 *= r.log(1e-10, 1e10);
        if r.chance(0.25) {
            let f = if r.chance(0.5) { 1e-130 } else { 1e130 };
            rho0 *= f;
            p0 *= f;
        }
    }
    let c0 = if phys == 0 { (gamma * p0 / rho0).sqrt() } else { r.log(0.3, 3.0) };
    let v0 = if r.chance(0.3) { 0.0 } else { c0 * r.uni(-1.5, 1.5) };
    let kind = r.below(4);
    let amp = if r.chance(o.wild) { r.uni(0.5, 0.98) } else { r.uni(0.02, 0.35) };
    let ph = [r.uni(0.0, 6.28), r.uni(0.0, 6.28), r.uni(0.0, 6.28)];
    let k = r.uni(1.0, 7.0);
    let split = 2 + r.below((n - 4) as u64) as usize;
    let left = [r.uni(-1.0, 1.0), r.uni(-1.0, 1.0), r.uni(-1.0, 1.0)];
    let mut ic = vec![0.0; e * n];
    for j in 0..e {
        for i in 0..n {
            let x = i as f64 / n as f64;
            let d = match kind {
                0 => (k * x + ph[j]).sin(),
                1 => {
                    if i < split {
                        left[j]
                    } else {
                        -left[j]
                    }
                },
                2 => r.uni(-1.0, 1.0),
                _ => (-(30.0 * (x - 0.5) * (x - 0.5))).exp() * left[j],
            };
            ic[j * n + i] = match j {
                0 => rho0 * (1.0 + amp * d),
                1 => v0 + c0 * amp * d * if r.chance(o.wild) { 3.0 } else { 1.0 },
                _ => p0 * (1.0 + amp * d),
            };
        }
    }
    let cs = vec![if phys == 1 { c0 } else { 0.0 }; n];
    let cfl = r.uni(0.1, 0.45);
    let dxi = len / (n as f64 - 4.0);
    let dt_char = cfl * dxi / (v0.abs() + c0 * (1.0 + amp));
    let t0 = if r.chance(0.5) {
        0.0
    } else if r.chance(o.big) {
        r.log(1.0, 1e4)
    } else {
        r.uni(0.0, 5.0)
    };
    let mut steps = r.uni(o.steps.0, o.steps.1) * if r.chance(0.3 * o.big) { r.uni(3.0, if s > 100 { 5.0 } else { 30.0 }) } else { 1.0 };
    let long = s < 12 && r.chance(0.15 * o.big);
    if long {
        steps = r.log(300.0, 3000.0);
    }
    let t_end = t0 + steps * dt_char;
    let nout = if r.chance(0.4 * o.big) { 0 } else { r.range(o.nout.0, o.nout.1) as u64 };
    let dt_out = (t_end - t0) / nout.max(1) as f64;
    let dt_min = (dt_char * 10f64.powf(-r.uni(2.0, 8.0))).min(dt_out * 0.01);
    let dt_max = if r.chance(0.7) { (t_end - t0) * r.uni(1.0, 3.0) } else { dt_char * r.uni(0.3, 1.2) };
    let rkf = r.below(9) as u8;
    let asc = r.chance(o.asc) && !matches!(rkf, 0 | 1 | 3);
    let bcw = boundary(r, e, o.custom_bc);
    let bce = boundary(r, e, o.custom_bc);
    let kepler = [&bcw, &bce].iter().any(|b| b.iter().flatten().any(|x| matches!(x.1, 1 | 2)));
    if !kepler && r.chance(3.0 * o.big) {
        // anywhere, also across the origin
        xi_in = match r.below(4) {
            0 => 0.0,
            1 => -0.5 * len,
            _ => r.uni(-1.5, 1.0) * *r.pick(&[1.0, 1.0, 30.0]),
        };
    }
    SimCfg {
        phys,
        flux,
        lim: r.below(5) as u8,
        lim_p: r.uni(1.05, 2.0),
        s,
        xi_in,
        xi_out: xi_in + len,
        gamma,
        units: r.below(2) as u8,
        bcw,
        bce,
        rkf,
        asc,
        rtol: r.log(1e-4, 0.1),
        atol: r.log(1e-4, 0.1),
        friction: r.uni(0.02, 0.2),
        // automated step control may go for very small steps
        iter_max: if long { 6000 } else if asc { 120 } else if s > 100 { 600 } else { 1500 },
        t0,
        t_end,
        dt_min,
        dt_max,
        cfl,
        nout,
        banner: r.chance(0.2),
        streams: vec![],
        ic,
        cs,
        faults: vec![],
        stub_dt: vec![],
        retries: 0,
        reruns: 0,
        flux_mismatch: false,
        manual: vec![],
        script: vec![],
        printer: vec![],
        probe: false,
        ready: 0,
        convert: vec![],
        own: vec![],
        hop: vec![],
    }
}

/// The sound speed of an isothermal gas may vary in space
pub fn vary_sound(r: &mut Rng, c: &mut SimCfg) {
    if c.phys == 1 && r.chance(0.25) {
        let base = c.cs[0];
        c.cs.iter_mut().for_each(|x| *x = base * r.uni(0.8, 1.2));
    }
}

/// the time between two outputs
pub fn interval(c: &SimCfg) -> f64 {
    (c.t_end - c.t0) / c.nout.max(1) as f64
}

pub fn typical_dt(c: &SimCfg) -> f64 {
    let s = c.s as usize;
    let dxi = (c.xi_out - c.xi_in) / (s as f64 - 4.0);
    let m = (2..s - 2).map(|i| speed(c, &c.ic, &c.cs, i)).fold(0.0, f64::max);
    (c.cfl * dxi / m).min(c.dt_max)
}

pub fn data(r: &mut Rng, e: usize, vector: bool, must: &[u8]) -> Vec<u8> {
    let mut all: Vec<u8> = vec![4, 5, 6, 7];
    if vector {
        all.extend([0, 1, 2, 3]);
        for j in 0..e as u8 {
            all.push(10 + j);
            all.push(20 + j);
        }
    }
    let keep = r.uni(0.3, 1.0);
    let mut v: Vec<u8> = all.into_iter().filter(|d| must.contains(d) || r.chance(keep)).collect();
    if v.is_empty() {
        v.push(4);
    }
    for i in (1..v.len()).rev() {
        let j = r.below(i as u64 + 1) as usize;
        v.swap(i, j);
    }
    v
}

/// the names must differ between streams of one process
pub fn stream(r: &mut Rng, e: usize, k: usize, file: bool, folders: &[&str], must: &[u8], prec: &[u32]) -> StreamCfg {
    let vector = r.chance(0.5);
    StreamCfg {
        file,
        csv: r.chance(0.5),
        vector,
        folder: r.pick(folders).to_string(),
        clear: false,
        name: format!("{}{}", r.pick(&["s", "s", "out_", "run.", "x-", "a b", "k: v, [w] ", "q\"u\\o'te", "\u{e4}\u{3b2}", "n%d{}", "long_long_long_long_long_long_long_long_long_long_long_long_long_long_name"]), k),
        prec: *r.pick(prec),
        ghost: r.chance(0.4),
        meta: r.chance(0.4),
        data: data(r, e, vector, must),
    }
}

/// Every variable of the state, with all digits: what a golden comparison needs
pub fn full_stream(c: &SimCfg, k: usize, folder: &str, vector: bool) -> StreamCfg {
    let mut data = vec![4, 5, 6, 7];
    if vector {
        data.push(3);
        for j in 0..c.e() as u8 {
            data.push(10 + j);
            data.push(20 + j);
        }
    }
    StreamCfg {
        file: true,
        csv: true,
        vector,
        folder: folder.into(),
        clear: false,
        name: format!("full{k}"),
        prec: 16,
        ghost: true,
        meta: false,
        data,
    }
}

pub fn policy(r: &mut Rng) -> Policy {
    if r.chance(0.08) {
        return Policy::sequential();
    }
    Policy::Seeded {
        seed: r.u64(),
        gap: *r.pick(&[0u32, 20, 100, 500, 3000, 20000]),
        p_sys: *r.pick(&[0u16, 50, 300, 800]),
        p_join: *r.pick(&[0u16, 100, 500, 1000]),
        stall: if r.chance(0.2) {
            Some((r.below(6) as u8, (r.below(50_000), r.below(200_000))))
        } else {
            None
        },
    }
}

pub const HARD: [i32; 6] = [libc::EIO, libc::ENOSPC, libc::EACCES, libc::EMFILE, libc::EDQUOT, libc::EROFS];

pub fn errno_for(r: &mut Rng, class: u8) -> i32 {
    if class == io::STDOUT {
        *r.pick(&[libc::EPIPE, libc::EIO, libc::ENOSPC])
    } else {
        *r.pick(&HARD)
    }
}

/// Given how often each class of call occurs in a run without faults, picks a hard fault that will fire.
pub fn hard_fault(r: &mut Rng, counts: &[u32]) -> Option<Fault> {
    let classes: Vec<u8> = [io::OPEN, io::WRITE, io::STDOUT, io::MKDIR, io::UNLINK, io::RMDIR, io::OPENDIR]
        .into_iter()
        .filter(|&c| counts[c as usize] > 0)
        .collect();
    if classes.is_empty() {
        return None;
    }
    let class = *r.pick(&classes);
    let n = counts[class as usize];
    let nth = if r.chance(0.2) { 0 } else if r.chance(0.2) { n - 1 } else { r.below(n as u64) as u32 };
    let e = errno_for(r, class);
    let act = if r.chance(0.35) { Act::Sticky(e) } else { Act::Errno(e) };
    Some(Fault { class, nth, act })
}

pub fn soft_io(r: &mut Rng) -> IoPlan {
    let mut p = IoPlan::default();
    if r.chance(0.7) {
        p.max_write = *r.pick(&[1u32, 2, 3, 7, 13, 64]);
    }
    if r.chance(0.6) || p.max_write == 0 {
        p.eintr_every = r.range(2, 9) as u32;
    }
    p
}

pub fn phase(sims: Vec<SimCfg>) -> Phase {
    let n = sims.len() as u8;
    Phase {
        sims,
        roots: vec![(0..n).collect()],
        threads: 1,
        policy: Policy::sequential(),
        io: IoPlan::default(),
        pre: vec![],
        world: 0,
        bare: false,
        nest: false,
    }
}
