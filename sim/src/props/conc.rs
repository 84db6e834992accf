//! C12 schedules, C13 several simulations in a process, C16 shared stdout.
use super::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            gen: c12_gen,
            check: c12,
            quick: 4000,
            thorough: 80_000,
            rule: "random simulation with 1-4 streams, some with failing steps, executed on one thread without preemptions and then on 1-6 pool threads under a random schedule with random stealing and stalls; non-trivial: the second schedule switched threads at least once",
        },
        Prop {
            id: "C13",
            gen: c13_gen,
            check: c13,
            quick: 2500,
            thorough: 50_000,
            rule: "2-4 random simulations in one process, one after the other on one user thread or at the same time on several, sharing the pool and some output folders; some fail; non-trivial: at least two user threads, or at least one failing simulation",
        },
        Prop {
            id: "C16",
            gen: c16_gen,
            check: c16,
            quick: 4000,
            thorough: 80_000,
            rule: "random simulation with 2-3 stdout streams (and possibly files), or two such simulations on two user threads, with random line lengths on a random schedule, some with short writes; non-trivial: at least two streams wrote to stdout and threads were switched",
        },
    ]
}

// ---- C12 ------------------------------------------------------------------------------------------

fn c12_gen(r: &mut Rng, _: &mut Ctx) -> Case {
    let o = gen::Opt { asc: 0.3, nout: (1, 6), steps: (2.0, 14.0), wild: 0.1, ..Default::default() };
    let mut c = gen::sim(r, &o);
    gen::vary_sound(r, &mut c);
    add_streams(r, &mut c, 0, &Streams { n: (1, 4), stdout: 0.5, twins: 0.2, ..Default::default() });
    if r.chance(0.2) {
        c.faults.push(StepFault {
            at: r.below(6) as u32,
            site: *r.pick(&[SITE_BEFORE, SITE_AFTER, SITE_FLUX]),
            k: r.below(2) as u32,
            act: *r.pick(&[A_ERR, A_NAN, A_HUGE]),
            cell: r.below(24) as u32,
            eq: r.below(3) as u32,
        });
        c.retries = r.below(2) as u32;
    }
    let mut case = single(vec![c], r);
    case.phases[0].threads = r.range(1, 6) as u8;
    if r.chance(0.2) {
        case.phases[0].io = gen::soft_io(r);
    }
    case
}

fn c12(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let g = ctx.golden(&case.phases[0], false)?;
    no_panic(&hists(&g))?;
    let res = ctx.run_phase(case, 0, false)?;
    no_panic(&hists(&res))?;
    if let Some(d) = diff_logs(&g.rep.logs[0], &res.rep.logs[0]) {
        return viol("states", format!("the simulation takes another course than on one thread: {d}"));
    }
    if let Some(d) = diff_fs(&g.fs, &res.fs) {
        return viol("files", format!("the files differ from those of a run on one thread: {d}"));
    }
    if let Some(d) = diff_bytes(&g.rep.io.stdout, &res.rep.io.stdout) {
        return viol("stdout", format!("stdout differs from that of a run on one thread: it {d}"));
    }
    if res.rep.steals > 0 {
        ctx.hit("runs with stolen work");
    }
    Ok(res.rep.rec.switches > 1)
}

// ---- C13 ------------------------------------------------------------------------------------------

fn c13_gen(r: &mut Rng, _: &mut Ctx) -> Case {
    let n = r.range(2, 4) as usize;
    let mut sims = vec![];
    let alike = r.chance(0.3);
    let seed = r.u64();
    for k in 0..n {
        let o = gen::Opt { asc: 0.3, nout: (1, 5), steps: (2.0, 8.0), wild: 0.1, small: true, ..Default::default() };
        let mut q = if alike { Rng::new(seed) } else { r.fork() };
        let mut c = gen::sim(&mut q, &o);
        gen::vary_sound(&mut q, &mut c);
        c.banner = r.chance(0.25);
        add_streams(r, &mut c, 10 * (k + 1), &Streams { n: (1, 2), stdout: 0.3, meta: 0.3, ..Default::default() });
        if r.chance(0.25) {
            c.faults.push(StepFault {
                at: r.below(5) as u32,
                site: *r.pick(&[SITE_BEFORE, SITE_FLUX, SITE_INIT]),
                k: 0,
                act: *r.pick(&[A_ERR, A_NAN, A_PANIC]),
                cell: r.below(24) as u32,
                eq: r.below(3) as u32,
            });
            c.retries = r.below(2) as u32;
        }
        sims.push(c);
    }
    let mut roots = vec![];
    if r.chance(0.3) {
        roots.push((0..n as u8).collect());
    } else {
        for k in 0..n as u8 {
            if roots.is_empty() || r.chance(0.75) {
                roots.push(vec![k])
            } else {
                roots.last_mut().unwrap().push(k)
            }
        }
    }
    if r.chance(0.35) {
        // the same simulation again, with the same files
        if let Some(t) = roots.iter().find(|t| t.len() > 1) {
            let (a, b) = (t[0] as usize, t[1] as usize);
            let mut c = sims[a].clone();
            if r.chance(0.5) {
                c.faults.clear();
            }
            if r.chance(0.3) {
                c.nout = r.range(1, 5) as u64;
            }
            sims[b] = c;
        }
    }
    let mut case = single(sims, r);
    case.phases[0].roots = roots;
    if r.chance(0.15) {
        case.phases[0].io = gen::soft_io(r);
    }
    case
}

fn sorted_lines(b: &[u8]) -> Vec<String> {
    let mut v: Vec<String> = String::from_utf8_lossy(b).lines().map(|x| x.to_string()).collect();
    v.sort();
    v
}

/// User code may panic, corries may not
fn no_other_panic(hs: &[Hist]) -> Result<(), Viol> {
    match hs.iter().enumerate().find_map(|(i, h)| h.panicked().filter(|m| !m.contains("injected panic")).map(|m| (i, m))) {
        Some((i, m)) => viol("panic", format!("simulation {i} panicked: {m}")),
        None => Ok(()),
    }
}

fn c13(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let failing = apart(case, ctx, "on its own")?;
    let n = case.phases[0].roots.len();
    ctx.hit(&format!("{n} user threads"));
    Ok(n > 1 || failing)
}

/// Does everything come out as if each simulation were run alone, on one thread?
pub fn apart(case: &Case, ctx: &mut Ctx, how: &str) -> Result<bool, Viol> {
    let ph = &case.phases[0];
    let mut fs = Fs::new();
    fs.insert("work".into(), Node::Dir);
    let mut out = vec![];
    let mut logs = vec![];
    let mut failing = false;
    for k in 0..ph.sims.len() {
        let mut solo = gen::phase(vec![ph.sims[k].clone()]);
        solo.pre = ph.pre.clone();
        let g = ctx.golden(&solo, false)?;
        let gh = hists(&g);
        no_other_panic(&gh)?;
        failing |= !gh[0].all_ok();
        fs.extend(g.fs);
        out.extend_from_slice(&g.rep.io.stdout);
        logs.push(g.rep.logs[0].clone());
    }
    let res = ctx.run_phase(case, 0, false)?;
    no_other_panic(&hists(&res))?;
    for k in 0..ph.sims.len() {
        if let Some(d) = diff_logs(&logs[k], &res.rep.logs[k]) {
            return viol("states", format!("simulation {k} takes another course than {how}: {d}"));
        }
    }
    if let Some(d) = diff_fs(&fs, &res.fs) {
        return viol("files", format!("the files differ from those that each simulation writes {how}: {d}"));
    }
    if ph.sims.len() == 1 {
        if let Some(d) = diff_bytes(&out, &res.rep.io.stdout) {
            return viol("stdout", format!("stdout {d} when the simulation is run {how}"));
        }
    }
    let (a, b) = (sorted_lines(&out), sorted_lines(&res.rep.io.stdout));
    if a != b {
        let x = b.iter().find(|l| !a.contains(l)).or_else(|| a.iter().find(|l| !b.contains(l))).cloned().unwrap_or_default();
        return viol("stdout", format!("the lines on stdout differ from those that each simulation writes {how}, e.g. {x:?}"));
    }
    Ok(failing)
}

// ---- C16 ------------------------------------------------------------------------------------------

fn c16_gen(r: &mut Rng, _: &mut Ctx) -> Case {
    let many = if r.chance(0.5) { 1 } else { r.range(2, 4) as usize };
    let mut sims = vec![];
    for q in 0..many {
        let o = gen::Opt { asc: 0.1, nout: (1, 4), steps: (1.0, 5.0), small: true, ..Default::default() };
        let mut c = gen::sim(r, &o);
        c.nout = c.nout.min(if many > 2 { 2 } else { 4 });
        c.banner = r.chance(0.4);
        let n = if many > 1 { r.range(1, 2) } else { r.range(1, 3) } as usize;
        for k in 0..n {
            let mut s = gen::stream(r, c.e(), 10 * q + k, false, &["out"], &[], &[16, 7, 3]);
            s.meta = r.chance(0.3);
            c.streams.push(s);
        }
        if r.chance(0.3) {
            let at = r.below(c.streams.len() as u64 + 1) as usize;
            c.streams.insert(at, gen::stream(r, c.e(), 10 * q + 5, true, &["out"], &[], &[7]));
        }
        sims.push(c);
    }
    // threads that print something of their own
    for _ in 0..if many > 2 { r.below(2) } else if many == 1 { r.range(0, 3) as u64 } else { r.below(3) } {
        let mut c = sims[0].clone();
        c.streams.clear();
        c.printer = (0..r.range(1, 6)).map(|_| r.range(1, 5) as u32).collect();
        sims.push(c);
    }
    let mut case = single(sims, r);
    let n = case.phases[0].sims.len() as u8;
    case.phases[0].roots = (0..n).map(|k| vec![k]).collect();
    if many > 1 && r.chance(0.15) {
        // one after the other
        case.phases[0].roots.remove(1);
        case.phases[0].roots[0].push(1);
    }
    case.phases[0].threads = r.range(2, 4) as u8;
    if r.chance(0.25) {
        case.phases[0].io = gen::soft_io(r);
    }
    case
}

/// The output of a single stdout stream, cut into the pieces that must stay together
pub fn blocks(c: &SimCfg, st: &StreamCfg, out: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let t = String::from_utf8_lossy(out).into_owned();
    if !t.is_empty() && !t.ends_with('\n') {
        return Err("the output does not end with a newline".into());
    }
    let lines: Vec<&str> = t.split_inclusive('\n').collect();
    let mut v = vec![];
    let mut i = 0;
    if st.meta {
        let k = lines.iter().position(|l| *l == "}\n").ok_or("no complete metadata")?;
        v.push(lines[..=k].concat().into_bytes());
        i = k + 1;
    }
    let n = nrows(c, st);
    let mut first = true;
    while i < lines.len() {
        let mut len = n;
        if st.vector || first {
            len += 1
        }
        first = false;
        if i + len > lines.len() {
            return Err("incomplete record".into());
        }
        v.push(lines[i..i + len].concat().into_bytes());
        i += len;
    }
    Ok(v)
}

/// What a simulation (or a thread that prints) brings to stdout: the pieces of each stream in order.
/// Piece k of a stream belongs to the k-th moment of the program, which does not begin before the
/// moment before is over.
pub type Pieces = Vec<Vec<(usize, Vec<u8>)>>;

/// Is `out` an interleaving?  (The position in `out` follows from how far each stream has got.)
pub fn shuffle(programs: &[Pieces], out: &[u8]) -> Result<(), String> {
    let seqs: Vec<(usize, &Vec<(usize, Vec<u8>)>)> =
        programs.iter().enumerate().flat_map(|(p, v)| v.iter().map(move |s| (p, s))).collect();
    let total: usize = seqs.iter().flat_map(|(_, s)| s.iter()).map(|b| b.1.len()).sum();
    let mut seen = std::collections::BTreeSet::new();
    let mut todo = vec![(0usize, vec![0usize; seqs.len()])];
    let mut far = 0;
    while let Some((pos, at)) = todo.pop() {
        if !seen.insert(at.clone()) {
            continue;
        }
        far = far.max(pos);
        if pos == out.len() && pos == total {
            return Ok(());
        }
        for (k, (p, s)) in seqs.iter().enumerate() {
            let Some((moment, piece)) = s.get(at[k]) else { continue };
            let early = seqs.iter().zip(&at).any(|((q, t), &a)| q == p && t.get(a).is_some_and(|x| x.0 < *moment));
            if !early && out[pos..].starts_with(piece) {
                let mut n = at.clone();
                n[k] += 1;
                todo.push((pos + piece.len(), n));
            }
        }
    }
    Err(format!("{} bytes, {total} expected; after {far} bytes comes {}", out.len(), brief(&out[far..], 0)))
}

fn c16(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let ph = &case.phases[0];
    let mut programs: Vec<Pieces> = vec![];
    let mut writers = 0;
    for (i, c) in ph.sims.iter().enumerate() {
        if !c.printer.is_empty() {
            programs.push(vec![c.printer.iter().enumerate().map(|(n, &l)| (n, sut::printed(i, n, l).concat().into_bytes())).collect()]);
            writers += 1;
            continue;
        }
        let mut seqs: Pieces = vec![];
        if c.banner {
            let mut one = c.clone();
            one.streams.clear();
            let g = ctx.golden(&gen::phase(vec![one]), false)?;
            no_panic(&hists(&g))?;
            if g.rep.io.stdout.is_empty() {
                return viol("banner", "there is no banner");
            }
            seqs.push(vec![(0, g.rep.io.stdout)]);
        }
        for k in 0..c.streams.len() {
            if c.streams[k].file {
                continue;
            }
            writers += 1;
            let mut one = c.clone();
            one.streams = vec![c.streams[k].clone()];
            one.banner = false;
            let g = ctx.golden(&gen::phase(vec![one]), false)?;
            let gh = hists(&g);
            no_panic(&gh)?;
            init_fine(&gh[0])?;
            // metadata describes all streams
            let mut b = match blocks(c, &c.streams[k], &g.rep.io.stdout) {
                Ok(b) => b,
                Err(e) => return viol("format", e),
            };
            let meta = c.streams[k].meta;
            if meta {
                b[0] = serde_json::to_vec_pretty(&sut::config(c)).unwrap();
                b[0].push(b'\n');
            }
            seqs.push(b.into_iter().enumerate().map(|(n, x)| (if meta { n + 1 } else { n + 2 }, x)).collect());
        }
        programs.push(seqs);
    }
    // simulations of the same user thread follow each other
    let mut done = vec![];
    for t in &ph.roots {
        let mut all: Pieces = vec![];
        let mut base = 0;
        for &i in t {
            let Some(p) = programs.get(i as usize) else { continue };
            all.extend(p.iter().map(|s| s.iter().map(|(m, x)| (m + base, x.clone())).collect::<Vec<_>>()));
            base += 1 + p.iter().flatten().map(|x| x.0).max().unwrap_or(0);
        }
        done.push(all);
    }
    let res = ctx.run_phase(case, 0, false)?;
    let hs = hists(&res);
    no_panic(&hs)?;
    for (c, h) in ph.sims.iter().zip(&hs) {
        if c.printer.is_empty() {
            init_fine(h)?;
        } else {
            ctx.hit("threads that print");
        }
    }
    if let Err(e) = shuffle(&done, &res.rep.io.stdout) {
        return viol("interleaved", format!("stdout is no sequence of whole pieces: {e}"));
    }
    ctx.hit(&format!("{} user threads", ph.roots.len()));
    Ok(writers > 1 && res.rep.rec.switches > 1)
}
