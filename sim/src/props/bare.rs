//! C27: corries without its feature `validation`.
use super::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        gen: c27_gen,
        check: c27,
        quick: 4000,
        thorough: 80_000,
        rule: "random simulation with streams, failing steps and retries, stop and resume scripts, disturbed system calls, or an invalid configuration, run by corries as it is and by corries built without its feature validation on a random schedule; non-trivial: at least one step was taken by both, or both rejected the configuration",
    }]
}

fn c27_gen(r: &mut Rng, ctx: &mut Ctx) -> Case {
    let mut case = match r.below(10) {
        0 => disk::c08_gen(r, ctx),
        1 | 2 => user::c23_gen(r, ctx),
        _ => {
            let o = gen::Opt { asc: 0.35, nout: (1, 6), steps: (3.0, 20.0), wild: 0.3, big: 0.1, ..Default::default() };
            let mut c = gen::sim(r, &o);
            gen::vary_sound(r, &mut c);
            add_streams(r, &mut c, 0, &Streams { n: (0, 2), stdout: 0.3, ..Default::default() });
            let dt = gen::typical_dt(&c);
            match r.below(8) {
                0 => c.iter_max = r.range(1, 20) as u64,
                1 => {
                    c.dt_min = dt * r.uni(0.7, 1.15);
                    c.dt_max = c.dt_max.max(c.dt_min * 1.5);
                },
                2 => c.cfl = r.uni(0.5, 1.2),
                _ => {},
            }
            for _ in 0..r.below(3) {
                c.faults.push(StepFault {
                    at: r.below(10) as u32,
                    site: *r.pick(&[SITE_BEFORE, SITE_BEFORE, SITE_AFTER, SITE_FLUX, SITE_FLUX]),
                    k: r.below(6) as u32,
                    act: *r.pick(&[A_ERR, A_ERR, A_ERR, A_NAN, A_NEG, A_HUGE]),
                    cell: r.below(24) as u32,
                    eq: r.below(3) as u32,
                });
            }
            c.retries = r.below(3) as u32;
            let mut case = single(vec![c], r);
            if r.chance(0.2) {
                case.phases[0].io = gen::soft_io(r);
            }
            case
        },
    };
    case.phases[0].bare = true;
    case
}

fn c27(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let mut solo = case.phases[0].clone();
    solo.bare = false;
    let want = ctx.golden(&solo, false)?;
    let wh = hists(&want);
    // where it may start to differ: what validation objects to, the other one does not see
    let objects = |e: &Ev| matches!(&e.what, What::StepEnd { ok: false, msg, .. } if !["injected", "dt_min", "iter_max"].iter().any(|m| msg.contains(m)));
    let until = want.rep.logs[0].iter().position(objects);
    let res = match ctx.run_phase(case, 0, false) {
        Ok(r) => r,
        // nothing is known about a simulation that went on with a state like that
        Err(v) if until.is_some() && v.class != "died" => return Ok(false),
        Err(v) => return Err(v),
    };
    let gh = hists(&res);
    let (a, b) = (&want.rep.logs[0], &res.rep.logs[0]);
    let (n, all) = match until {
        Some(k) => {
            ctx.hit("validation objected");
            (k, false)
        },
        None => (a.len(), true),
    };
    if b.len() < n {
        return viol("course", format!("without validation the simulation ends after {} events instead of {n}", b.len()));
    }
    if let Some(d) = diff_logs(&a[..n], if all { b } else { &b[..n] }) {
        return viol("course", format!("without validation the simulation takes another course: {d}"));
    }
    if all {
        no_panic(&gh)?;
        if let Some(d) = diff_fs(&want.fs, &res.fs) {
            return viol("files", format!("without validation the files differ: {d}"));
        }
        // several streams may write to stdout in any order
        let lines = |b: &[u8]| {
            let mut v: Vec<Vec<u8>> = b.split(|x| *x == b'\n').map(|l| l.to_vec()).collect();
            v.sort();
            v
        };
        if lines(&want.rep.io.stdout) != lines(&res.rep.io.stdout) {
            return viol("stdout", "without validation stdout differs".to_string());
        }
        ctx.hit("whole courses compared");
    }
    if !matches!(&wh[0].init, Some((true, ..))) {
        ctx.hit("set-up refused by both");
        return Ok(true);
    }
    Ok(a[..n].iter().any(|e| matches!(&e.what, What::StepEnd { .. })))
}
