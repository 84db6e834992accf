//! C04 I/O faults, C05 crashes, C06 restarts, C07 confinement, C08 rejected configurations, C17 metadata.
use super::*;
use simrt::io::{self, Act, Fault};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            gen: c04_gen,
            check: c04,
            quick: 4000,
            thorough: 80_000,
            rule: "random simulation with 1-4 streams; one or two hard faults (EIO, ENOSPC, EACCES, EMFILE, EDQUOT, EROFS, EPIPE; once or for good) at calls that a fault-free run makes, or a disk quota, or short and interrupted writes throughout; random schedule; non-trivial: a fault fired",
        },
        Prop {
            id: "C05",
            gen: c05_gen,
            check: c05,
            quick: 4000,
            thorough: 80_000,
            rule: "random simulation with 1-4 streams that is killed at a random system call (before it, after it, or with part of a write done) or whose output fails for good, on a random schedule; non-trivial: the process was killed or failed after set-up",
        },
        Prop {
            id: "C06",
            gen: c06_gen,
            check: c06,
            quick: 3000,
            thorough: 60_000,
            rule: "two processes: the first (killed, failed or finished) leaves files behind among which the second, with the same or a changed configuration, starts; non-trivial: the first left at least one file that the second writes too",
        },
        Prop {
            id: "C07",
            gen: c07_gen,
            check: c07,
            quick: 8000,
            thorough: 80_000,
            rule: "random simulation with 1-3 file streams next to foreign files, directories and symbolic links (in, around and in place of the output folders), with hard faults or a crash in half of the cases; non-trivial: some output folder existed before",
        },
        Prop {
            id: "C08",
            gen: c08_gen,
            check: c08,
            quick: 24_000,
            thorough: 80_000,
            rule: "random valid configuration in which one or two documented rules are broken by a random amount, over existing output folders that are to be cleared; non-trivial: always (counted per distinct case)",
        },
        Prop {
            id: "C26",
            gen: c26_gen,
            check: c26,
            quick: 3000,
            thorough: 80_000,
            rule: "random simulation with 1-4 streams in which one or two open or write calls fail once and the user calls run_corries again, on a random schedule; non-trivial: an output failed and the simulation went on",
        },
        Prop {
            id: "C17",
            gen: c17_gen,
            check: c17,
            quick: 8000,
            thorough: 80_000,
            rule: "random simulation with 1-4 streams, most with metadata, over leftover metadata files, on a random schedule, half of them killed at a random system call or with I/O faults; non-trivial: at least one stream asks for metadata",
        },
    ]
}

fn base(r: &mut Rng, streams: (i64, i64), stdout: f64) -> SimCfg {
    let o = gen::Opt { asc: 0.15, nout: (1, 6), steps: (2.0, 10.0), ..Default::default() };
    let mut c = gen::sim(r, &o);
    add_streams(r, &mut c, 0, &Streams { n: streams, stdout, ..Default::default() });
    c
}

/// folders some streams may clear: not above another stream's folder
fn choose_clear(r: &mut Rng, c: &mut SimCfg, prob: f64) {
    let paths: Vec<String> = c.streams.iter().map(folder_path).collect();
    for k in 0..c.streams.len() {
        let under = format!("{}/", paths[k]);
        let above = (0..paths.len()).any(|q| c.streams[q].file && paths[q].starts_with(&under));
        c.streams[k].clear = c.streams[k].file && !above && r.chance(prob);
    }
}

fn counts(ctx: &mut Ctx, ph: &Phase) -> Option<io::IoRec> {
    ctx.golden(ph, false).ok().map(|r| r.rep.io)
}

/// Files of somebody else whose names resemble those of a stream's own
fn lookalikes(r: &mut Rng, st: &StreamCfg, pre: &mut Vec<Pre>) {
    let (f, n, e) = (folder_path(st), &st.name, ext(st));
    let other = if st.csv { "tsv" } else { "csv" };
    let mut names = vec![
        format!("{n}_notes.{e}"),
        format!("{n}_reference.{e}"),
        format!("{n}.bak"),
        format!("{n}.{e}~"),
        format!("{n}.{e}.bak"),
        format!("{n}_1.{e}.old"),
        format!("{n}_1x.{e}"),
        format!("{n}_metadata.json.bak"),
        format!("{n}_metadata.{e}"),
        format!("{n}-2.{e}"),
        format!("old_{n}.{e}"),
        format!("{n}.{other}"),
        format!("{n}_0.{other}"),
        format!("{n}_"),
        n.clone(),
        format!(".{n}.{e}.swp"),
        format!("{n}.tmp"),
        format!("{n}.{e}.tmp"),
        format!("{n}.{e}.lock"),
    ];
    if !st.vector {
        names.push(format!("{n}_0.{e}"));
        names.push(format!("{n}_1.{e}"));
    } else {
        names.push(format!("{n}.{e}"));
    }
    let keep = r.uni(0.1, 0.6);
    for x in names {
        if r.chance(keep) {
            pre.push(Pre::File(format!("{f}/{x}"), b"somebody else's\n".to_vec()));
        }
    }
}

/// Is this one of the files the stream is to write?
fn own_file(c: &SimCfg, st: &StreamCfg, p: &str) -> bool {
    if !st.file {
        return false;
    }
    if st.meta && p == meta_path(st) {
        return true;
    }
    if !st.vector {
        return p == scalar_path(st);
    }
    let pre = format!("{}/{}_", folder_path(st), st.name);
    let suf = format!(".{}", ext(st));
    p.strip_prefix(&pre)
        .and_then(|x| x.strip_suffix(&suf))
        .map(|x| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit()) && x.parse::<u64>().map(|k| k <= c.nout.max(1)).unwrap_or(false))
        .unwrap_or(false)
}

/// Leftovers of somebody else, or of an earlier run, in and around the output folders
fn litter(r: &mut Rng, c: &SimCfg, pre: &mut Vec<Pre>) {
    for st in c.streams.iter().filter(|s| s.file) {
        if r.chance(0.6) {
            let f = folder_path(st);
            pre.push(Pre::Dir(f.clone()));
            if r.chance(0.6) {
                pre.push(Pre::File(format!("{f}/notes.txt"), b"keep me\n".to_vec()));
            }
            if r.chance(0.4) {
                pre.push(Pre::File(format!("{f}/old/deep/data.bin"), vec![7; 40]));
            }
            if r.chance(0.6) {
                let junk: Vec<u8> = (0..r.range(0, 6000)).map(|_| b'0' + r.below(10) as u8).collect();
                let name = if st.vector {
                    format!("{f}/{}_{}.{}", st.name, r.below(c.nout + 3), ext(st))
                } else {
                    scalar_path(st)
                };
                pre.push(Pre::File(name, junk));
            }
            if r.chance(0.4) {
                pre.push(Pre::File(meta_path(st), vec![b'{'; r.range(1, 9000) as usize]));
            }
            if r.chance(0.3) {
                lookalikes(r, st, pre);
            }
        }
    }
}

// ---- C04 ------------------------------------------------------------------------------------------

fn c04_gen(r: &mut Rng, ctx: &mut Ctx) -> Case {
    let mut c = base(r, (1, 4), 0.5);
    choose_clear(r, &mut c, 0.3);
    let mut pre = vec![];
    if r.chance(0.3) {
        litter(r, &c, &mut pre);
    }
    let mut case = single(vec![c], r);
    case.phases[0].pre = pre;
    let kind = r.below(10);
    if kind < 3 {
        case.phases[0].io = gen::soft_io(r);
        case.knob = vec![0];
    } else {
        case.knob = vec![1];
        if let Some(rec) = counts(ctx, &case.phases[0]) {
            if kind == 3 {
                let total: u64 = rec.ops.iter().filter(|o| o.class == io::WRITE).map(|o| o.res.max(0) as u64).sum();
                case.phases[0].io.quota = Some(r.below(total + 1));
            } else {
                for _ in 0..if r.chance(0.2) { 2 } else { 1 } {
                    case.phases[0].io.faults.extend(gen::hard_fault(r, &rec.counts));
                }
                if r.chance(0.2) {
                    case.phases[0].io.max_write = *r.pick(&[1u32, 5, 50]);
                }
            }
        }
    }
    case
}

fn c04(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let ph = &case.phases[0];
    let g = ctx.golden(ph, false)?;
    let gh = hists(&g);
    no_panic(&gh)?;
    init_fine(&gh[0])?;
    let res = ctx.run_phase(case, 0, false)?;
    let hs = hists(&res);
    no_panic(&hs)?;
    let fired = res.rep.io.ops.iter().any(|o| o.fault != 0);
    let hard = res.rep.io.ops.iter().any(|o| matches!(o.fault, 1 | 4 | 6));
    if hs[0].all_ok() == gh[0].all_ok() && hs[0].init_ok() {
        // reported the same outcome as without faults: then nothing may be missing
        let blamed = !gh[0].all_ok() && hard;
        if !blamed {
            if let Some(d) = diff_fs(&g.fs, &res.fs) {
                return viol("silent", format!("no error was reported, but {d}"));
            }
            if let Some(d) = diff_bytes(&g.rep.io.stdout, &res.rep.io.stdout) {
                return viol("silent", format!("no error was reported, but stdout {d}"));
            }
        }
    } else if !hard {
        return viol("soft", format!("interrupted or short writes made the program fail: {:?}", hs[0].runs.last().map(|r| &r.end)));
    }
    ctx.hit(if hs[0].all_ok() { "reported success" } else { "reported an error" });
    Ok(fired)
}

// ---- C05 ------------------------------------------------------------------------------------------

fn c05_gen(r: &mut Rng, ctx: &mut Ctx) -> Case {
    let mut c = base(r, (1, 4), 0.5);
    let mut pre = vec![];
    if r.chance(0.3) {
        litter(r, &c, &mut pre);
        choose_clear(r, &mut c, 0.3);
    }
    let mut case = single(vec![c], r);
    case.phases[0].pre = pre;
    if let Some(rec) = counts(ctx, &case.phases[0]) {
        if r.chance(0.8) {
            let total = rec.total.max(1);
            let nth = if r.chance(0.2) { total - 1 - r.below((total as u64).min(10)) as u32 } else { r.below(total as u64) as u32 };
            let part = if r.chance(0.3) { 0 } else { r.range(1, 40) as u32 };
            case.phases[0].io.faults.push(Fault { class: io::ANY, nth, act: Act::Crash(part) });
            if r.chance(0.2) {
                case.phases[0].io.max_write = *r.pick(&[1u32, 5, 50]);
            }
        } else if let Some(mut f) = gen::hard_fault(r, &rec.counts) {
            if let Act::Errno(e) = f.act {
                f.act = Act::Sticky(e);
            }
            case.phases[0].io.faults.push(f);
        }
    }
    case
}

/// byte offsets at which the records of a scalar stream (file or stdout) end
fn scalar_ends(b: &[u8], skip_lines: usize, rows: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut line = 0;
    for (i, &x) in b.iter().enumerate() {
        if x == b'\n' {
            line += 1;
            if line > skip_lines && (line - skip_lines) % rows == 0 {
                v.push(i + 1);
            }
        }
    }
    v
}

/// `want`: what the stream's files hold at the end of a run that nothing disturbs
fn durable(c: &SimCfg, st: &StreamCfg, want: &Fs, got: &Fs, before: &Fs, n: usize) -> Result<(), Viol> {
    let part = |p: &str| -> Result<(usize, usize), Viol> {
        let w: &[u8] = match want.get(p) {
            Some(Node::File(b)) => b,
            _ => &[],
        };
        match got.get(p) {
            Some(Node::File(b)) => {
                if !w.starts_with(b) {
                    // untouched leftovers of an earlier run
                    if before.get(p) == got.get(p) {
                        return Ok((0, w.len()));
                    }
                    return viol("torn", format!("{p}: what is there is not the beginning of what belongs there: {}", diff_bytes(&w[..w.len().min(b.len())], b).unwrap_or_default()));
                }
                Ok((b.len(), w.len()))
            },
            _ => Ok((0, w.len())),
        }
    };
    if st.vector {
        for (k, (_, text, _)) in vector_files(st, want).iter().enumerate() {
            let p = format!("{}/{}_{}.{}", folder_path(st), st.name, text, ext(st));
            let (have, need) = part(&p)?;
            if k < n && have < need {
                return viol("lost", format!("{p} belongs to output {k} of {n} that were finished, but holds only {have} of {need} bytes"));
            }
        }
    } else {
        let p = scalar_path(st);
        let (have, _) = part(&p)?;
        if let Some(Node::File(w)) = want.get(&p) {
            let ends = scalar_ends(w, 1, 1);
            if n > 0 && ends.len() >= n && have < ends[n - 1] {
                return viol("lost", format!("{p} holds {have} bytes; the {n} outputs that were finished take {}", ends[n - 1]));
            }
        }
    }
    let _ = c;
    Ok(())
}

fn c05(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let ph = &case.phases[0];
    let c = &ph.sims[0];
    let g = ctx.golden(ph, false)?;
    let gh = hists(&g);
    no_panic(&gh)?;
    init_fine(&gh[0])?;
    let res = ctx.run_phase(case, 0, false)?;
    let hs = hists(&res);
    no_panic(&hs)?;
    let h = &hs[0];
    let stepped = h.steps().last();
    // outputs that were finished: those before the step that was begun last
    let n = match (stepped, h.runs.last()) {
        (_, Some(Run { end: Some((true, ..)), .. })) => c.nout as usize + 1,
        (Some(s), _) => outputs_before(c, &s.begin),
        _ => 0,
    };
    for st in c.streams.iter().filter(|s| s.file) {
        durable(c, st, &g.fs, &res.fs, &res.before, n)?;
    }
    let (want, got) = (&g.rep.io.stdout, &res.rep.io.stdout);
    if !want.starts_with(got) {
        return viol("torn", format!("stdout {}", diff_bytes(&want[..want.len().min(got.len())], got).unwrap_or_default()));
    }
    if let Some(st) = c.streams.iter().find(|s| !s.file) {
        // where in the full output the records end
        let text = want;
        let mut skip = if c.banner { BANNER_LINES } else { 0 };
        let lines: Vec<&str> = std::str::from_utf8(text).unwrap_or("").lines().collect();
        if st.meta {
            skip += lines.iter().skip(skip).position(|l| *l == "}").map(|k| k + 1).unwrap_or(0);
        }
        let rows = nrows(c, st) + st.vector as usize;
        let ends = scalar_ends(text, skip + !st.vector as usize, rows);
        if n > 0 && ends.len() >= n && got.len() < ends[n - 1] {
            return viol("lost", format!("stdout got {} bytes; the {n} outputs that were finished take {}", got.len(), ends[n - 1]));
        }
    }
    if res.rep.end == 3 && h.init_ok() {
        ctx.hit(&format!("crashed after {} finished outputs", if n > 3 { "4+".to_string() } else { n.to_string() }));
    }
    Ok((res.rep.end == 3 || !h.all_ok()) && h.init_ok())
}

// ---- C06 ------------------------------------------------------------------------------------------

fn c06_gen(r: &mut Rng, ctx: &mut Ctx) -> Case {
    let mut c = base(r, (1, 3), 0.3);
    choose_clear(r, &mut c, 0.3);
    let mut pre = vec![];
    if r.chance(0.5) {
        litter(r, &c, &mut pre);
    }
    let mut a = gen::phase(vec![c.clone()]);
    schedule(r, &mut a);
    a.pre = pre;
    match r.below(4) {
        0 => {},
        1 | 2 => {
            if let Some(rec) = counts(ctx, &a) {
                a.io.faults.push(Fault {
                    class: io::ANY,
                    nth: r.below(rec.total.max(1) as u64) as u32,
                    act: Act::Crash(r.below(30) as u32),
                });
            }
        },
        _ => {
            if let Some(rec) = counts(ctx, &a) {
                a.io.faults.extend(gen::hard_fault(r, &rec.counts));
            }
        },
    }
    let mut d = c;
    if r.chance(0.5) {
        match r.below(5) {
            0 => d.nout = r.range(1, 12) as u64,
            1 => {
                for s in &mut d.streams {
                    s.prec = *r.pick(&[2u32, 5, 16])
                }
            },
            2 => {
                for s in &mut d.streams {
                    s.ghost = !s.ghost;
                    s.data.truncate(1)
                }
            },
            3 => d.t_end = d.t0 + (d.t_end - d.t0) * r.uni(0.2, 0.9),
            _ => {
                for s in &mut d.streams {
                    s.csv = !s.csv
                }
            },
        }
        let w = gen::interval(&d);
        d.dt_min = d.dt_min.min(0.01 * w);
    }
    choose_clear(r, &mut d, 0.3);
    let mut b = gen::phase(vec![d]);
    schedule(r, &mut b);
    if r.chance(0.2) {
        b.io = gen::soft_io(r);
    }
    Case { phases: vec![a, b], knob: vec![] }
}

fn c06(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let c = &case.phases[1].sims[0];
    let first = ctx.run_phase(case, 0, false)?;
    no_panic(&hists(&first))?;
    let second = ctx.run_phase(case, 1, true)?;
    let hs = hists(&second);
    no_panic(&hs)?;
    let g = ctx.golden(&case.phases[1], false)?;
    let gh = hists(&g);
    no_panic(&gh)?;
    init_fine(&gh[0])?;
    if hs[0].init.as_ref().map(|x| x.0) != gh[0].init.as_ref().map(|x| x.0) || hs[0].all_ok() != gh[0].all_ok() {
        return viol("outcome", format!("with leftovers: {:?} {:?}; from scratch: {:?} {:?}", hs[0].init, hs[0].runs.last().map(|r| &r.end), gh[0].init, gh[0].runs.last().map(|r| &r.end)));
    }
    let mut shared = 0;
    for (p, n) in &g.fs {
        match (n, second.fs.get(p)) {
            (Node::File(a), Some(Node::File(b))) => {
                if first.fs.contains_key(p) {
                    shared += 1
                }
                if let Some(d) = diff_bytes(a, b) {
                    return viol("leftovers", format!("{p} {d}"));
                }
            },
            (Node::Dir, Some(Node::Dir)) => {},
            (_, x) => return viol("leftovers", format!("{p} should be {n:?}, is {x:?}")),
        }
    }
    if let Some(d) = diff_bytes(&g.rep.io.stdout, &second.rep.io.stdout) {
        return viol("stdout", format!("stdout {d}"));
    }
    let cleared: Vec<String> = c.streams.iter().filter(|s| s.file && s.clear).map(|s| folder_path(s) + "/").collect();
    let in_cleared = |p: &str| cleared.iter().any(|f| p.starts_with(f.as_str()));
    for (p, n) in &second.fs {
        if g.fs.contains_key(p) {
            continue;
        }
        if in_cleared(p) {
            return viol("not-cleared", format!("{p} survived in a folder that is to be cleared"));
        }
        if first.fs.get(p) != Some(n) {
            return viol("foreign", format!("{p}, which is no output of this run, was created or changed"));
        }
    }
    for p in first.fs.keys() {
        if !second.fs.contains_key(p) && !in_cleared(p) {
            return viol("foreign", format!("{p}, which is no output of this run, is gone"));
        }
    }
    if shared > 0 {
        ctx.hit("files written over leftovers");
    }
    Ok(shared > 0)
}

// ---- C07 ------------------------------------------------------------------------------------------

fn c07_gen(r: &mut Rng, ctx: &mut Ctx) -> Case {
    let o = gen::Opt { asc: 0.0, nout: (1, 4), steps: (2.0, 6.0), small: true, ..Default::default() };
    let mut c = gen::sim(r, &o);
    add_streams(
        r,
        &mut c,
        0,
        &Streams {
            stdout: 0.1,
            folders: vec!["out", "out", "out/", "res/x", "./out2", "res/../out3", "out/sub", "by/../via"],
            ..Default::default()
        },
    );
    choose_clear(r, &mut c, 0.6);
    let mut pre = vec![
        Pre::File("work/keep.txt".into(), b"mine".to_vec()),
        Pre::File("work/out.csv".into(), b"not yours".to_vec()),
        Pre::File("work/output/data.csv".into(), b"1,2,3\n".to_vec()),
        Pre::File("precious/a/b.txt".into(), b"precious".to_vec()),
        Pre::File("precious/s0.csv".into(), b"precious too".to_vec()),
        Pre::File("work/res/other/file".into(), b"x".to_vec()),
    ];
    if c.streams.iter().any(|s| s.folder.starts_with("by/")) {
        // "by/../via" is not work/via
        pre.push(Pre::Dir("other/in".into()));
        pre.push(Pre::Link("work/by".into(), "../other/in".into()));
        pre.push(Pre::File("work/via/mine".into(), b"mine as well".to_vec()));
    }
    for st in c.streams.iter().filter(|s| s.file) {
        let f = folder_path(st);
        let depth = f.matches('/').count();
        let up = "../".repeat(depth);
        let nested = c.streams.iter().any(|s| s.file && s.name != st.name && (folder_path(s).starts_with(&format!("{f}/")) || f.starts_with(&format!("{}/", folder_path(s)))));
        let same = c.streams.iter().any(|s| s.file && s.name != st.name && folder_path(s) == f && (!s.clear || s.folder.ends_with('/')));
        if st.clear && !nested && !same && !st.folder.ends_with('/') && r.chance(0.25) {
            // the folder is itself a link to somebody else's directory
            pre.push(Pre::Link(f.clone(), format!("{up}precious")));
        } else if r.chance(0.8) {
            pre.push(Pre::Dir(f.clone()));
            pre.push(Pre::Link(format!("{f}/link"), format!("{up}../precious")));
            pre.push(Pre::Link(format!("{f}/flink"), format!("{up}../precious/a/b.txt")));
            pre.push(Pre::Link(format!("{f}/dangling"), format!("{up}../nowhere")));
            pre.push(Pre::File(format!("{f}/d/e/f"), b"old".to_vec()));
            pre.push(Pre::Link(format!("{f}/d/up"), "../..".into()));
            if r.chance(0.7) {
                lookalikes(r, st, &mut pre);
            }
            if r.chance(0.3) {
                pre.push(Pre::File(meta_path(st), b"{}".to_vec()));
            }
        }
    }
    let mut case = single(vec![c], r);
    case.phases[0].pre = pre;
    if r.chance(0.5) {
        if let Some(rec) = counts(ctx, &case.phases[0]) {
            if r.chance(0.5) {
                case.phases[0].io.faults.extend(gen::hard_fault(r, &rec.counts));
            } else {
                case.phases[0].io.faults.push(Fault {
                    class: io::ANY,
                    nth: r.below(rec.total.max(1) as u64) as u32,
                    act: Act::Crash(r.below(30) as u32),
                });
            }
        }
    }
    case
}

fn c07(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    // (a case that is being minimised)
    let link = |p: &Pre| matches!(p, Pre::Link(f, _) if f == "work/by");
    if case.phases[0].sims[0].streams.iter().any(|s| s.folder.starts_with("by/")) && !case.phases[0].pre.iter().any(link) {
        return Ok(false);
    }
    let res = ctx.run_phase(case, 0, false)?;
    no_panic(&hists(&res))?;
    let c = &case.phases[0].sims[0];
    if let Some(e) = res.rep.io.escapes.first() {
        return viol("escape", format!("tried to change something outside the working directory: {e}"));
    }
    let own: Vec<String> = c.streams.iter().filter(|s| s.file).map(folder_path).collect();
    let inside = |p: &str| own.iter().any(|f| p == f || p.starts_with(&format!("{f}/")));
    let parent = |p: &str| own.iter().any(|f| f.starts_with(&format!("{p}/")));
    for (p, n) in &res.before {
        if !inside(p) && res.fs.get(p) != Some(n) {
            return viol("foreign", format!("{p} is outside the output folders {own:?} and was {}", if res.fs.contains_key(p) { "changed" } else { "removed" }));
        }
    }
    for (p, n) in &res.fs {
        if !inside(p) && !res.before.contains_key(p) && !(parent(p) && *n == Node::Dir) {
            return viol("foreign", format!("{p} is outside the output folders {own:?} and was created"));
        }
    }
    // in a folder that is not to be cleared, only the streams' own files change
    for st in c.streams.iter().filter(|s| s.file) {
        let f = folder_path(st);
        if c.streams.iter().any(|s| s.file && s.clear && (folder_path(s) == f || f.starts_with(&format!("{}/", folder_path(s))))) {
            continue;
        }
        for (p, n) in &res.before {
            if !p.starts_with(&format!("{f}/")) || own.iter().any(|o| o != &f && (p == o || p.starts_with(&format!("{o}/")))) {
                continue;
            }
            let mine = c.streams.iter().any(|s| own_file(c, s, p));
            if !mine && res.fs.get(p) != Some(n) {
                return viol("not-asked", format!("{p} was changed or removed although {f} is not to be cleared"));
            }
        }
        // nor does anything else appear
        for p in res.fs.keys() {
            if res.rep.end != 3
                && p.starts_with(&format!("{f}/"))
                && !res.before.contains_key(p)
                && !c.streams.iter().any(|s| own_file(c, s, p))
                && !own.iter().any(|o| o == p || o.starts_with(&format!("{p}/")) || (o != &f && p.starts_with(&format!("{o}/"))))
            {
                return viol("uncalled", format!("{p} is no file that any stream is to write"));
            }
        }
    }
    Ok(own.iter().any(|f| res.before.contains_key(f)))
}

// ---- C08 ------------------------------------------------------------------------------------------

pub fn c08_gen(r: &mut Rng, _: &mut Ctx) -> Case {
    let mut c = base(r, (1, 3), 0.4);
    choose_clear(r, &mut c, 0.8);
    c.banner = r.chance(0.6);
    let mut pre = vec![Pre::File("work/out/s0.csv".into(), b"earlier results\n".to_vec())];
    litter(r, &c, &mut pre);
    let n = if r.chance(0.1) { 0 } else if r.chance(0.15) { 2 } else { 1 };
    let mut knob = vec![];
    if n == 0 {
        // unusual, but valid: to be accepted
        for _ in 0..r.range(1, 4) {
            match r.below(14) {
                0 => (c.xi_in, c.xi_out) = *r.pick(&[(0.0, 1.0), (-1.0, 1.0), (-5.0, -4.0), (1e-3, 1e6), (-0.5, 0.0), (1e8, 1e8 + 1.0)]),
                1 => c.gamma = *r.pick(&[1.0 + 1e-9, 2.0 - 1e-9, 1.5]),
                2 => c.iter_max = 1,
                3 => c.iter_max = u64::MAX >> 1,
                4 => (c.t0, c.t_end) = (0.0, *r.pick(&[1e-9, 1e9])),
                5 => c.dt_min = *r.pick(&[1e-300, 1e300, f64::MIN_POSITIVE]),
                6 => c.dt_max = *r.pick(&[1e-300, 1e300]),
                7 => c.cfl = *r.pick(&[1e-10, 0.999, 7.0]),
                8 => (c.rtol, c.atol) = (1e-16, 1e300),
                9 => c.friction = *r.pick(&[1e-12, 0.99, 3.0]),
                10 if c.flux == 1 => (c.lim, c.lim_p) = (3, *r.pick(&[1.0 + 1e-9, 100.0])),
                11 => c.nout = *r.pick(&[0u64, 1, 12345]),
                12 => c.streams.clear(),
                _ => {
                    for s in &mut c.streams {
                        s.prec = *r.pick(&[0u32, 40]);
                        s.data.truncate(1);
                    }
                },
            }
        }
        // only the set-up counts
        c.faults.push(StepFault { at: 0, site: SITE_BEFORE, k: 0, act: A_ERR, cell: 0, eq: 0 });
    }
    for _ in 0..n {
        let k = r.below(22) as i64;
        let bad = |r: &mut Rng| *r.pick(&[0.0, -0.0, -1e-300, -1.0, -1e10, f64::NAN, f64::NEG_INFINITY]);
        match k {
            0 => c.xi_out = c.xi_in,
            1 => c.xi_out = c.xi_in - r.log(1e-9, 10.0),
            2 => c.gamma = *r.pick(&[1.0, 0.999, 0.0, -1.4, f64::NAN]),
            3 => c.gamma = *r.pick(&[2.0, 2.0001, 5.0, f64::INFINITY]),
            4 => c.iter_max = 0,
            5 => c.t0 = -r.log(1e-9, 10.0),
            6 => c.t_end = c.t0,
            7 => c.t_end = c.t0 - r.log(1e-9, 10.0),
            8 => c.dt_min = bad(r),
            9 => c.dt_max = bad(r),
            10 => c.cfl = bad(r),
            11 => c.rtol = bad(r),
            12 => c.atol = bad(r),
            13 => c.friction = bad(r),
            14 if c.flux == 1 => {
                c.lim = 3;
                c.lim_p = *r.pick(&[1.0, 0.99, 0.0, -2.0, f64::NAN]);
            },
            15 => {
                let mut s = c.streams[0].clone();
                s.file = true;
                s.folder = String::new();
                s.clear = true;
                c.streams.push(s);
            },
            16 => {
                let mut s = c.streams[0].clone();
                s.file = true;
                s.folder = "out".into();
                s.name = String::new();
                s.clear = true;
                c.streams.push(s);
            },
            17 => {
                let mut s = c.streams[0].clone();
                s.vector = false;
                let at = r.below(s.data.len() as u64 + 1) as usize;
                s.data.insert(at, *r.pick(&[0u8, 1, 2, 3, 10, 11, 20, 21]));
                s.name += "v";
                c.streams.push(s);
            },
            18 => {
                let p: &mut f64 = match r.below(4) {
                    0 => &mut c.xi_in,
                    1 => &mut c.xi_out,
                    2 => &mut c.t0,
                    _ => &mut c.t_end,
                };
                *p = f64::NAN;
            },
            19 => {
                let mut s = c.streams[0].clone();
                s.vector = true;
                let at = r.below(s.data.len() as u64 + 1) as usize;
                s.data.insert(at, *r.pick(&[10u8, 20]) + r.range(c.e() as i64, 9) as u8);
                s.name += "w";
                c.streams.push(s);
            },
            20 => {
                let b = if r.chance(0.5) { &mut c.bcw } else { &mut c.bce };
                let j = if c.phys == 0 { r.range(3, 9) } else { r.range(2, 9) } as u8;
                b.get_or_insert(vec![(0, 4), (1, 4)]).push((j, r.below(8) as u8));
            },
            21 => {
                let mut s = c.streams[0].clone();
                s.data.clear();
                s.name += "x";
                c.streams.push(s);
            },
            _ => c.flux_mismatch = true,
        }
        knob.push(k);
    }
    let mut case = single(vec![c], r);
    case.phases[0].pre = pre;
    case.knob = knob;
    case
}

fn c08(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let res = ctx.run_phase(case, 0, false)?;
    let hs = hists(&res);
    if case.knob.is_empty() {
        no_panic(&hs)?;
        init_fine(&hs[0])?;
        ctx.hit("unusual configurations accepted");
        return Ok(true);
    }
    match &hs[0].init {
        Some((true, ..)) => return viol("accepted", format!("an invalid configuration (rules {:?}) was accepted", case.knob)),
        Some((_, true, m)) => return viol("panic", format!("an invalid configuration (rules {:?}) led to a panic: {m}", case.knob)),
        Some((false, false, m)) if m.is_empty() => return viol("message", "the error has no message"),
        _ => {},
    }
    if let Some(d) = diff_fs(&res.before, &res.fs) {
        return viol("changed", format!("an invalid configuration (rules {:?}) was rejected, but {d}", case.knob));
    }
    if !res.rep.io.stdout.is_empty() {
        return viol("output", format!("an invalid configuration (rules {:?}) was rejected, but wrote {} to stdout", case.knob, brief(&res.rep.io.stdout, 0)));
    }
    let touched = res.rep.io.ops.iter().find(|o| {
        !matches!(o.class, io::OPENDIR | io::CLOSE | io::STDERR)
    });
    if let Some(o) = touched {
        return viol("touched", format!("an invalid configuration (rules {:?}) was rejected, but only after {} of {}", case.knob, io::CLASS_NAMES[o.class as usize], res.rep.io.paths[o.path as usize]));
    }
    for k in &case.knob {
        ctx.hit(&format!("rule {k} broken"));
    }
    Ok(true)
}

// ---- C17 ------------------------------------------------------------------------------------------

fn c17_gen(r: &mut Rng, ctx: &mut Ctx) -> Case {
    let o = gen::Opt { asc: 0.1, nout: (1, 3), steps: (1.0, 4.0), small: true, ..Default::default() };
    let mut c = gen::sim(r, &o);
    add_streams(r, &mut c, 0, &Streams { n: (1, 4), stdout: 0.4, meta: 0.75, ..Default::default() });
    choose_clear(r, &mut c, 0.2);
    // what is empty or the default belongs to the description as well
    for st in c.streams.iter_mut().filter(|s| !s.file) {
        if r.chance(0.5) {
            st.folder.clear();
        }
        if r.chance(0.5) {
            st.name.clear();
        }
    }
    if r.chance(0.1) {
        c.bcw = Some(vec![]);
    }
    if r.chance(0.1) {
        c.bce = Some(vec![]);
    }
    if r.chance(0.2) {
        c.dt_max = f64::MAX;
        c.iter_max = u64::MAX - 2;
    }
    let mut pre = vec![];
    litter(r, &c, &mut pre);
    // longer metadata of an earlier run
    for st in c.streams.iter().filter(|s| s.file && !s.clear) {
        if r.chance(0.5) {
            pre.push(Pre::File(meta_path(st), vec![b'x'; r.range(1, 9000) as usize]));
        }
    }
    let mut case = single(vec![c], r);
    case.phases[0].pre = pre;
    if r.chance(0.6) {
        if let Some(rec) = counts(ctx, &case.phases[0]) {
            match r.below(3) {
                0 => case.phases[0].io.faults.extend(gen::hard_fault(r, &rec.counts)),
                1 => case.phases[0].io = gen::soft_io(r),
                _ => case.phases[0].io.faults.push(Fault {
                    class: io::ANY,
                    nth: r.below(rec.total.max(1) as u64) as u32,
                    act: Act::Crash(r.below(60) as u32),
                }),
            }
        }
    }
    case
}

pub fn c17(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let c = &case.phases[0].sims[0];
    let res = ctx.run_phase(case, 0, false)?;
    let hs = hists(&res);
    no_panic(&hs)?;
    let want = described(c);
    let ready = hs[0].init_ok() || !hs[0].runs.is_empty();
    for st in &c.streams {
        if st.file {
            let p = meta_path(st);
            let now = res.fs.get(&p);
            let old = res.before.get(&p);
            if !st.meta {
                if now.is_some() && now != old {
                    return viol("unasked", format!("{p} was written although no metadata was asked for"));
                }
                continue;
            }
            if ready {
                let Some(Node::File(b)) = now else {
                    return viol("missing", format!("the simulation was set up, but {p} is missing"));
                };
                same_json(&p, b, &want)?;
            } else if let Some(Node::File(b)) = now {
                // under way: nothing but (the beginning of) the description, or what was there before
                if now != old && serde_json::from_slice::<serde_json::Value>(b).is_ok() {
                    same_json(&p, b, &want)?;
                }
            }
        } else if st.meta && ready {
            let out = &res.rep.io.stdout;
            let lines: Vec<String> = String::from_utf8_lossy(out).lines().map(|x| x.to_string()).collect();
            let a = lines.iter().position(|l| l == "{");
            let b = lines.iter().position(|l| l == "}");
            let (Some(a), Some(b)) = (a, b) else {
                return viol("missing", "the simulation was set up, but stdout shows no complete metadata");
            };
            same_json("stdout", lines[a..=b.max(a)].join("\n").as_bytes(), &want)?;
        } else if !st.meta && c.streams.iter().filter(|s| !s.file).all(|s| !s.meta) {
            if String::from_utf8_lossy(&res.rep.io.stdout).lines().any(|l| l == "{") {
                return viol("unasked", "metadata on stdout although none was asked for");
            }
        }
    }
    Ok(c.streams.iter().any(|s| s.meta))
}

/// The configuration as the metadata shows it, not taken from the code under test
fn described(c: &SimCfg) -> serde_json::Value {
    use serde_json::{json, Value};
    let num = |x: f64| if x.is_finite() { json!(x) } else { Value::Null };
    let bc = |b: &Option<Vec<(u8, u8)>>| match b {
        None => json!("NoGradients"),
        Some(v) => {
            let modes = [
                "Extrapolate",
                "ExtrapolateDensityKepler",
                "ExtrapolateEtaVelocityKepler",
                "NearZero",
                "NoGradients",
                "OutflowNoGradients",
                "OutFlowExtrapolate",
                "Reflecting",
            ];
            json!({"Custom": v.iter().map(|&(j, m)| json!([j, modes[(m as usize).min(7)]])).collect::<Vec<_>>()})
        },
    };
    let name = |d: u8| match d {
        0 => json!("XiCent"),
        1 => json!("XiWest"),
        2 => json!("XiEast"),
        3 => json!("CSound"),
        4 => json!("T"),
        5 => json!("Iter"),
        6 => json!("Dt"),
        7 => json!("DtKind"),
        10..=19 => json!({"Prim": d - 10}),
        _ => json!({"Cons": d - 20}),
    };
    let flux = if (c.flux == 0) != c.flux_mismatch {
        json!("Hll")
    } else {
        let lim = match c.lim {
            0 => json!("NoLimiter"),
            1 => json!("MinMod"),
            2 => json!("Superbee"),
            3 => json!({"Monocent": num(c.lim_p)}),
            _ => json!("VanLeer"),
        };
        json!({"Kt": {"limiter_mode": lim}})
    };
    let rkf = ["RK1", "RK2", "RK3", "RK4", "Heun2", "RKF12", "RKF45", "SSPRK3", "SSPRK5"][(c.rkf as usize).min(8)];
    json!({
        "print_banner": c.banner,
        "mesh_config": {"mode": "Cartesian", "xi_in": num(c.xi_in), "xi_out": num(c.xi_out)},
        "physics_config": {"adiabatic_index": num(c.gamma), "units_mode": if c.units == 0 { "SI" } else { "CGS" }},
        "boundary_condition_west": bc(&c.bcw),
        "boundary_condition_east": bc(&c.bce),
        "numerics_config": {
            "numflux_config": flux,
            "time_integration_config": {"Rkf": {
                "rkf_mode": rkf,
                "asc": c.asc,
                "asc_relative_tolerance": num(c.rtol),
                "asc_absolute_tolerance": num(c.atol),
                "asc_timestep_friction": num(c.friction),
            }},
            "iter_max": c.iter_max,
            "t0": num(c.t0),
            "t_end": num(c.t_end),
            "dt_min": num(c.dt_min),
            "dt_max": num(c.dt_max),
            "dt_cfl_param": num(c.cfl),
        },
        "output_counter_max": c.nout,
        "writer_config": c.streams.iter().map(|s| json!({
            "stream_mode": if s.file { "File" } else { "Stdout" },
            "formatting_mode": if s.csv { "CSV" } else { "TSV" },
            "string_conversion_mode": if s.vector { "Vector" } else { "Scalar" },
            "folder_name": s.folder,
            "should_clear_out_folder": s.clear,
            "file_name": s.name,
            "precision": s.prec,
            "should_print_ghostcells": s.ghost,
            "should_print_metadata": s.meta,
            "data_names": s.data.iter().map(|&d| name(d)).collect::<Vec<_>>(),
        })).collect::<Vec<_>>(),
    })
}

/// equal up to the last bit of numbers, which the parser may round; nothing missing
fn alike(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value::*;
    match (a, b) {
        (Number(x), Number(y)) => {
            let (p, q) = (x.as_f64().unwrap_or(f64::NAN), y.as_f64().unwrap_or(f64::NAN));
            x == y || (p - q).abs() <= 1e-14 * q.abs()
        },
        (Array(x), Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| alike(a, b)),
        (Object(x), Object(y)) => y.iter().all(|(k, b)| x.get(k).map(|a| alike(a, b)).unwrap_or(false)),
        _ => a == b,
    }
}

fn same_json(what: &str, b: &[u8], want: &serde_json::Value) -> Result<(), Viol> {
    match serde_json::from_slice::<serde_json::Value>(b) {
        Err(e) => viol("json", format!("{what} is not valid JSON: {e}")),
        Ok(v) if alike(&v, want) => Ok(()),
        Ok(v) => viol("content", format!("{what} does not describe the configuration: {}", json_diff("", want, &v))),
    }
}

fn json_diff(at: &str, want: &serde_json::Value, got: &serde_json::Value) -> String {
    use serde_json::Value::*;
    match (want, got) {
        (Object(a), Object(b)) => {
            for (k, v) in a {
                match b.get(k) {
                    None => return format!("{at}/{k} is missing"),
                    Some(w) if !alike(w, v) => return json_diff(&format!("{at}/{k}"), v, w),
                    _ => {},
                }
            }
            b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("{at}/{k} is new")).unwrap_or_default()
        },
        (Array(a), Array(b)) if a.len() == b.len() => {
            let k = a.iter().zip(b).position(|(x, y)| !alike(x, y)).unwrap_or(0);
            json_diff(&format!("{at}/{k}"), &a[k], &b[k])
        },
        _ => format!("{at} is {got} instead of {want}"),
    }
}

// ---- C26 ------------------------------------------------------------------------------------------

fn c26_gen(r: &mut Rng, ctx: &mut Ctx) -> Case {
    let mut c = base(r, (1, 4), 0.5);
    c.nout = r.range(2, 8) as u64;
    choose_clear(r, &mut c, 0.3);
    c.retries = 3;
    let mut case = single(vec![c], r);
    if let Some(rec) = counts(ctx, &case.phases[0]) {
        let classes: Vec<u8> = [io::OPEN, io::WRITE, io::STDOUT].into_iter().filter(|&k| rec.counts[k as usize] > 0).collect();
        if !classes.is_empty() {
            for _ in 0..if r.chance(0.3) { 2 } else { 1 } {
                let class = *r.pick(&classes);
                let n = rec.counts[class as usize] as u64;
                // more often those of the outputs than those of the set-up
                let nth = n - 1 - r.below(n).min(r.below(n));
                let act = Act::Errno(gen::errno_for(r, class));
                case.phases[0].io.faults.push(Fault { class, nth: nth as u32, act });
            }
            if r.chance(0.3) {
                case.phases[0].io.max_write = *r.pick(&[1u32, 5, 50]);
            }
        }
    }
    case
}

/// What is there consists of the lines that belong there, in order, apart from what the failures cost.
fn survivors(what: &str, want: &[u8], got: &[u8], fails: usize, per: usize) -> Result<(), Viol> {
    let want = String::from_utf8_lossy(want).into_owned();
    let want: Vec<&str> = want.lines().collect();
    let got = String::from_utf8_lossy(got).into_owned();
    let (mut at, mut bad, mut seen) = (0, 0, 0);
    for (k, l) in got.lines().enumerate() {
        match want[at..].iter().position(|w| *w == l) {
            Some(p) => {
                if k == 0 && p != 0 {
                    return viol("header", format!("{what} begins with {l:?} instead of {:?}", want[0]));
                }
                at += p + 1;
                seen += 1;
            },
            None => {
                bad += 1;
                if bad > fails {
                    return viol("torn", format!("{what}: line {k} is {l:?}, which does not belong there, after {fails} failure(s)"));
                }
            },
        }
    }
    if want.len() - seen > 2 * per * fails {
        return viol("lost", format!("{what}: {fails} failure(s) cost {} of {} lines", want.len() - seen, want.len()));
    }
    Ok(())
}

fn c26(case: &Case, ctx: &mut Ctx) -> Result<bool, Viol> {
    let ph = &case.phases[0];
    let c = &ph.sims[0];
    let g = ctx.golden(ph, false)?;
    let gh = hists(&g);
    no_panic(&gh)?;
    init_fine(&gh[0])?;
    if !gh[0].all_ok() {
        ctx.hit("fails by itself");
        return Ok(false);
    }
    let res = ctx.run_phase(case, 0, false)?;
    let hs = hists(&res);
    no_panic(&hs)?;
    let h = &hs[0];
    if !h.init_ok() {
        ctx.hit("set-up failed");
        return Ok(false);
    }
    let fails = h.runs.iter().filter(|r| matches!(r.end, Some((false, ..)))).count();
    let fired = res.rep.io.ops.iter().filter(|o| matches!(o.fault, 1 | 4 | 6)).count();
    if fails > fired {
        return viol("error", format!("{fired} output(s) failed, but {fails} runs"));
    }
    if !matches!(h.runs.last().unwrap().end, Some((true, ..))) {
        return viol("retry", format!("the simulation could not be completed: {:?}", h.runs.last().unwrap().end));
    }
    let (want, got): (Vec<&Step>, Vec<&Step>) = (gh[0].steps().collect(), h.steps().collect());
    if want.len() != got.len() {
        return viol("steps", format!("{} steps instead of {}", got.len(), want.len()));
    }
    for (k, (a, b)) in want.iter().zip(&got).enumerate() {
        let bits = |s: &Step| {
            let mut o = vec![];
            s.begin.put(&mut o);
            s.end.as_ref().map(|x| x.3.clone()).put(&mut o);
            o
        };
        if bits(a) != bits(b) {
            return viol("steps", format!("step {k} is another one: from t = {:e} instead of {:e}", b.begin.t, a.begin.t));
        }
    }
    let bytes = |fs: &Fs, p: &str| match fs.get(p) {
        Some(Node::File(b)) => b.clone(),
        _ => vec![],
    };
    for st in c.streams.iter().filter(|s| s.file) {
        if st.meta {
            let p = meta_path(st);
            if let Some(d) = diff_bytes(&bytes(&g.fs, &p), &bytes(&res.fs, &p)) {
                return viol("metadata", format!("{p} {d}"));
            }
        }
        if !st.vector {
            let p = scalar_path(st);
            survivors(&p, &bytes(&g.fs, &p), &bytes(&res.fs, &p), fails, 1)?;
            continue;
        }
        let (a, b) = (vector_files(st, &g.fs), vector_files(st, &res.fs));
        if b.len() + fails < a.len() {
            return viol("lost", format!("stream {}: {} files instead of {} after {fails} failure(s)", st.name, b.len(), a.len()));
        }
        let mut at = 0;
        for (k, (num, text, now)) in b.iter().enumerate() {
            if a.get(k).map(|x| &x.1) != Some(text) {
                return viol("names", format!("stream {}: the {k}-th file has number {text}", st.name));
            }
            match a[at..].iter().position(|x| x.2 == *now) {
                Some(p) => at += p + 1,
                // the last one may be what became of an output that failed
                None if k + 1 == b.len() && fails > 0 && a[at..].iter().any(|x| x.2.starts_with(now)) => {},
                None => return viol("torn", format!("stream {}: file {num} shows none of the outputs that belong after the one before", st.name)),
            }
        }
    }
    if let [st] = &c.streams.iter().filter(|s| !s.file).collect::<Vec<_>>()[..] {
        survivors("stdout", &g.rep.io.stdout, &res.rep.io.stdout, fails, nrows(c, st) + st.vector as usize)?;
    }
    if fails > 0 {
        ctx.hit(&format!("completed after {fails} failed output(s)"));
    }
    Ok(fails > 0)
}
