//! C29: where simulations are run.
use super::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        gen: c29_gen,
        check: c29,
        quick: 3000,
        thorough: 60_000,
        rule: "1-6 random simulations, some with failing steps, panics of user code, stop and resume scripts or steps taken by hand, which are handed from thread to thread between calls, run on the pool in a join or a scope, or side by side in parallel iterators, and each of them alone on one thread; non-trivial: some of it ran elsewhere than on the user's thread",
    }]
}

fn c29_gen(r: &mut Rng, ctx: &mut Ctx) -> Case {
    let n = if r.chance(0.45) { 1 } else { r.range(2, 6) as usize };
    let nest = r.chance(if n == 1 { 0.15 } else { 0.45 });
    // everything is handed to the pool, call by call: a thread of it that waits may go on with any of it
    let mixed = !nest && n > 1 && r.chance(0.6);
    let mut sims = vec![];
    for k in 0..n {
        let mut c = if r.chance(if n == 1 { 0.3 } else { 0.1 }) {
            let mut c = user::c23_gen(r, ctx).phases.remove(0).sims.remove(0);
            for (j, s) in c.streams.iter_mut().enumerate() {
                s.name = format!("s{k}_{j}");
                s.clear = false;
            }
            c
        } else {
            let o = gen::Opt { asc: 0.4, nout: (1, 5), steps: (2.0, 9.0), wild: 0.1, small: n > 1, big: 0.03, ..Default::default() };
            let mut c = gen::sim(r, &o);
            gen::vary_sound(r, &mut c);
            add_streams(r, &mut c, 10 * (k + 1), &Streams { n: (0, 3), stdout: 0.4, meta: 0.3, ..Default::default() });
            if r.chance(0.3) {
                for _ in 0..r.range(1, 2) {
                    c.faults.push(StepFault {
                        at: r.below(6) as u32,
                        site: *r.pick(&[SITE_BEFORE, SITE_AFTER, SITE_FLUX, SITE_FLUX, SITE_INIT]),
                        k: r.below(4) as u32,
                        act: *r.pick(&[A_ERR, A_ERR, A_NAN, A_PANIC]),
                        cell: r.below(24) as u32,
                        eq: r.below(3) as u32,
                    });
                }
                c.retries = r.below(3) as u32;
            } else if r.chance(if mixed { 0.6 } else { 0.3 }) {
                c.manual = (0..r.range(3, 12)).map(|_| if r.chance(0.7) { f64::INFINITY } else { gen::typical_dt(&c) * r.uni(0.3, 4.0) }).collect();
            }
            c.reruns = r.chance(0.2) as u32;
            c.banner = r.chance(0.2);
            c
        };
        if !nest || r.chance(0.3) {
            // a thread of the pool that waits for another thread may keep it from the pool
            let places: &[u8] = if mixed { &[HOP_JOIN, HOP_SCOPE] } else if nest { &[HOP_STAY, HOP_JOIN, HOP_SCOPE] } else { &[HOP_STAY, HOP_THREAD, HOP_THREAD, HOP_JOIN, HOP_SCOPE] };
            c.hop = (0..r.range(1, 6)).map(|_| *r.pick(places)).collect();
            if !nest && c.hop.iter().all(|h| *h == HOP_STAY) {
                c.hop[0] = HOP_JOIN;
            }
            // a step called from the pool does not wait for another thread either
            if !c.manual.is_empty() && c.hop.iter().any(|h| *h >= HOP_JOIN) {
                c.hop.iter_mut().for_each(|h| *h = if *h == HOP_THREAD { HOP_SCOPE } else { *h });
            }
        }
        sims.push(c);
    }
    let mut case = single(sims, r);
    let p = &mut case.phases[0];
    p.nest = nest;
    if n > 1 && r.chance(0.6) {
        // simulations left over to go on with
        p.threads = if nest { *r.pick(&[2, 3, 3]) } else { *r.pick(&[2, 2, 3]) };
    }
    if !nest {
        p.roots = (0..n as u8).map(|k| vec![k]).collect();
    } else if n > 3 && r.chance(0.3) {
        p.roots = vec![(0..n as u8 / 2).collect(), (n as u8 / 2..n as u8).collect()];
    }
    if r.chance(0.1) {
        p.io = gen::soft_io(r);
    }
    case
}

fn c29(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let ph = &case.phases[0];
    conc::apart(case, ctx, "on its own and in one place")?;
    if ph.nest {
        ctx.hit("simulations in a parallel iterator");
    }
    for h in ph.sims.iter().flat_map(|s| &s.hop) {
        ctx.hit(&format!("{} (times planned)", ["stay", "thread of its own", "join on the pool", "scope on the pool"][*h as usize & 3]));
    }
    Ok(ph.nest || ph.sims.iter().any(|s| s.hop.iter().any(|h| *h != HOP_STAY)))
}
