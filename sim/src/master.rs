//! The search: workers, time limits, minimisation, replay files, evidence.
use crate::core::*;
use crate::exec::Env;
use crate::props;
use simrt::codec::Codec;
use simrt::prng::{mix, Rng};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1)
}

fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    mix(mix(seed ^ 0x1234_5678) ^ hash_bytes(id.as_bytes())) ^ mix(i.wrapping_mul(0x9e37_79b9_7f4a_7c15))
}

const NOBODY: u32 = 65534;

/// A scratch directory of our own, below which everything happens
struct Scratch(String);
impl Scratch {
    fn new() -> Scratch {
        // names of one length: how long a path is may show in the number of scheduling points
        let name = format!("dst-{:07}", std::process::id());
        for base in ["/dev/shm", "/tmp", "/var/tmp"] {
            let d = format!("{base}/{name}");
            if std::fs::create_dir(&d).is_ok() {
                unsafe {
                    let c = std::ffi::CString::new(d.clone()).unwrap();
                    libc::chmod(c.as_ptr(), 0o755);
                }
                return Scratch(d);
            }
        }
        eprintln!("harness error: no scratch directory");
        std::process::exit(3)
    }
    fn sub(&self, n: &str) -> String {
        let d = format!("{}/{n:_<6}", self.0);
        std::fs::create_dir_all(&d).unwrap();
        let c = std::ffi::CString::new(d.clone()).unwrap();
        unsafe { libc::chown(c.as_ptr(), NOBODY, NOBODY) };
        d
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn drop_privileges() {
    unsafe {
        if libc::getuid() == 0 {
            libc::setgroups(0, std::ptr::null());
            if libc::setgid(NOBODY) != 0 || libc::setuid(NOBODY) != 0 {
                eprintln!("harness note: could not drop privileges");
            }
        }
        libc::prctl(libc::PR_SET_DUMPABLE, 1);
    }
}

fn pin(k: usize) {
    unsafe {
        let mut all: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut all) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|&c| libc::CPU_ISSET(c, &all)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[k % cpus.len()], &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

fn ncpu() -> usize {
    unsafe {
        let mut all: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut all);
        (libc::CPU_COUNT(&all) as usize).clamp(1, 16)
    }
}

/// Runs f in a child process without privileges; its answer comes back through a file descriptor.
fn in_child(k: usize, dir: &str, f: impl FnOnce(&mut Env) -> Vec<u8>) -> (i32, i32) {
    unsafe {
        let name = std::ffi::CString::new("dst").unwrap();
        let fd = libc::memfd_create(name.as_ptr(), 0);
        assert!(fd >= 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            pin(k);
            drop_privileges();
            let mut env = Env::new(dir);
            let out = f(&mut env);
            let mut off = 0;
            while off < out.len() {
                let r = libc::write(fd, out[off..].as_ptr() as *const libc::c_void, out.len() - off);
                if r <= 0 {
                    libc::_exit(3);
                }
                off += r as usize;
            }
            libc::_exit(0);
        }
        (pid, fd)
    }
}

fn collect(pid: i32, fd: i32) -> Result<Vec<u8>, String> {
    unsafe {
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        if !libc::WIFEXITED(status) || libc::WEXITSTATUS(status) != 0 {
            libc::close(fd);
            return Err(format!("a worker ended with wait status {status}"));
        }
        let n = libc::lseek(fd, 0, libc::SEEK_END) as usize;
        let mut v = vec![0u8; n];
        let mut off = 0;
        while off < n {
            let r = libc::pread(fd, v[off..].as_mut_ptr() as *mut libc::c_void, n - off, off as i64);
            if r <= 0 {
                return Err("short read from a worker".into());
            }
            off += r as usize;
        }
        libc::close(fd);
        Ok(v)
    }
}

fn make_case(p: &Prop, sd: u64, i: u64, ctx: &mut Ctx) -> Case {
    let mut r = Rng::new(case_seed(sd, p.id, i));
    (p.gen)(&mut r, ctx)
}

#[allow(clippy::too_many_arguments)]
fn worker(p: &Prop, sd: u64, from: u64, w: u64, nw: u64, n: u64, deadline: Instant, min: &AtomicU64, env: &mut Env) -> Vec<u8> {
    let mut st = Stats::default();
    let mut bad: Option<(u64, Case, Viol)> = None;
    let mut i = from + (w + nw - from % nw) % nw;
    while i < n && i < min.load(SeqCst) && Instant::now() < deadline {
        let mut ctx = Ctx { env: &mut *env, stats: &mut st, recs: Default::default() };
        let case = make_case(p, sd, i, &mut ctx);
        let r = judge(p.check, &case, &mut ctx);
        st.cases += 1;
        match r {
            Ok(nontrivial) => {
                if nontrivial {
                    let mut o = vec![];
                    case.put(&mut o);
                    st.nontrivial.insert(hash_bytes(&o));
                }
                if w == 0 && st.samples.len() < 3 && nontrivial {
                    st.samples.push(format!("case {i}: {}", describe(&case)));
                }
            },
            Err(v) => {
                min.fetch_min(i, SeqCst);
                bad = Some((i, case, v));
                break;
            },
        }
        i += nw;
    }
    let mut o = st.put();
    match bad {
        None => o.push(0),
        Some((i, c, v)) => {
            o.push(1);
            i.put(&mut o);
            c.put(&mut o);
            v.put(&mut o);
        },
    }
    o
}

pub fn check(id: &str, tier: &str) -> i32 {
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("no such property: {id}");
        return 2;
    };
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let sd = seed();
    let n = if tier == "quick" { p.quick } else { p.thorough };
    let limit = Duration::from_secs(if tier == "quick" { 240 } else { 14 * 60 });
    println!("property {id}, {tier}, seed {sd}, {n} cases");
    let start = Instant::now();
    let scratch = Scratch::new();
    let min = unsafe {
        let m = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        &*(m as *const AtomicU64)
    };
    let nw = ncpu();
    let mut st = Stats::default();
    let mut searched = 0.0;
    let mut code = 0;
    let mut from = 0;
    let mut unrepeatable = 0;
    loop {
        min.store(u64::MAX, SeqCst);
        let begin = Instant::now();
        let kids: Vec<(i32, i32)> = (0..nw)
            .map(|w| {
                let dir = scratch.sub(&format!("w{w}"));
                in_child(w, &dir, |env| worker(&p, sd, from, w as u64, nw as u64, n, start + limit, min, env))
            })
            .collect();
        let mut worst: Option<(u64, Case, Viol)> = None;
        let mut broken = None;
        for (pid, fd) in kids {
            match collect(pid, fd) {
                Err(e) => broken = Some(e),
                Ok(v) => {
                    let mut b = &v[..];
                    st.merge(&mut b);
                    if u8::get(&mut b) == 1 {
                        let i = u64::get(&mut b);
                        let c = Case::get(&mut b);
                        let v = Viol::get(&mut b);
                        if worst.as_ref().map(|x| i < x.0).unwrap_or(true) {
                            worst = Some((i, c, v));
                        }
                    }
                },
            }
        }
        searched += begin.elapsed().as_secs_f64();
        let Some((i, case, v)) = worst else {
            if let Some(e) = broken {
                eprintln!("harness error: {e}");
                return 3;
            }
            break;
        };
        println!("case {i} violates {id}: {}: {}", v.class, v.detail);
        match minimise(&p, &scratch, case, v, tier) {
            Ok((c, v, evals)) => {
                let file = write_replay(id, sd, i, &c, &v);
                println!("minimised with {evals} further runs; {}: {}", v.class, v.detail);
                println!("{}", describe(&c));
                println!("VIOLATION property={id} replay={file}");
                code = 1;
                break;
            },
            Err(e) => {
                // not the code's doing, then; go on with the cases after this one
                println!("not counted: {e}");
                st.hit("observation that did not occur again");
                unrepeatable += 1;
                from = i + 1;
                if unrepeatable == 4 {
                    eprintln!("harness error: runs do not repeat");
                    return 3;
                }
            },
        }
    }
    evidence(&p, tier, sd, &st, searched, start.elapsed().as_secs_f64(), code);
    println!(
        "longest run: {} scheduling points, {} system calls",
        st.longest, st.most_calls
    );
    println!(
        "{} cases, {} simulated processes, {} distinct schedules, {} simulation steps in {:.1} s",
        st.cases,
        st.procs,
        st.schedules.len(),
        st.steps,
        searched
    );
    code
}

fn minimise(p: &Prop, scratch: &Scratch, case: Case, v: Viol, tier: &str) -> Result<(Case, Viol, u32), String> {
    let dir = scratch.sub("min");
    let secs = if tier == "quick" { 60 } else { 180 };
    let check = p.check;
    let (pid, fd) = in_child(0, &dir, |env| {
        let mut m = Minimiser {
            env,
            check,
            class: v.class.clone(),
            evals: 6000,
            deadline: Instant::now() + Duration::from_secs(secs),
            best: case.clone(),
            detail: v.detail.clone(),
        };
        m.run();
        let mut o = vec![];
        m.best.put(&mut o);
        m.detail.put(&mut o);
        (6000 - m.evals).put(&mut o);
        o
    });
    let b = collect(pid, fd)?;
    let mut i = &b[..];
    let best = Case::get(&mut i);
    let detail = String::get(&mut i);
    let evals = u32::get(&mut i);
    // once more, in a fresh process
    let dir = scratch.sub("again");
    for c in [best.clone(), best, case.clone(), case] {
        let (pid, fd) = in_child(0, &dir, |env| {
            let mut st = Stats::default();
            let mut ctx = Ctx { env, stats: &mut st, recs: Default::default() };
            let mut o = vec![];
            let r: Option<Viol> = judge(check, &c, &mut ctx).err();
            r.put(&mut o);
            o
        });
        let b = collect(pid, fd)?;
        if let Some(w) = Option::<Viol>::get(&mut &b[..]) {
            if w.class == v.class {
                let d = if w.detail.is_empty() { detail } else { w.detail };
                return Ok((c, Viol { class: w.class, detail: d }, evals));
            }
        }
    }
    Err(format!("the violation ({}: {}) did not occur again when the case was replayed", v.class, v.detail))
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn home() -> String {
    std::env::var("DST_HOME").unwrap_or_else(|_| "/verif".into())
}

fn write_replay(id: &str, sd: u64, i: u64, c: &Case, v: &Viol) -> String {
    let mut o = vec![];
    c.put(&mut o);
    let j = serde_json::json!({
        "property": id,
        "seed": sd,
        "case": i,
        "class": v.class,
        "detail": v.detail,
        "what_happens": describe(c).lines().collect::<Vec<_>>(),
        "replay_with": "/verif/sim/target/debug/dst replay <this file>",
        "trace": hex(&o),
    });
    let dir = format!("{}/replays", home());
    let _ = std::fs::create_dir_all(&dir);
    let f = format!("{dir}/{id}-seed{sd}-case{i}.json");
    let text = serde_json::to_string_pretty(&j).unwrap();
    if std::fs::write(&f, &text).is_ok() {
        return f;
    }
    let f = format!("/tmp/{id}-seed{sd}-case{i}.json");
    let _ = std::fs::write(&f, &text);
    f
}

pub fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        },
    };
    let j: serde_json::Value = serde_json::from_str(&text).unwrap();
    let id = j["property"].as_str().unwrap().to_string();
    let class = j["class"].as_str().unwrap().to_string();
    let b = unhex(j["trace"].as_str().unwrap());
    let case = Case::get(&mut &b[..]);
    let p = props::all().into_iter().find(|p| p.id == id).unwrap();
    println!("{}", describe(&case));
    let scratch = Scratch::new();
    let dir = scratch.sub("replay");
    let check = p.check;
    let (pid, fd) = in_child(0, &dir, |env| {
        let mut st = Stats::default();
        let mut ctx = Ctx { env, stats: &mut st, recs: Default::default() };
        let mut o = vec![];
        let r: Option<Viol> = judge(check, &case, &mut ctx).err();
        r.put(&mut o);
        o
    });
    match collect(pid, fd) {
        Err(e) => {
            eprintln!("harness error: {e}");
            3
        },
        Ok(b) => match Option::<Viol>::get(&mut &b[..]) {
            None => {
                println!("no violation");
                0
            },
            Some(v) => {
                println!("{}: {}", v.class, v.detail);
                if v.class != class {
                    println!("(a different violation from the recorded {class})");
                }
                println!("VIOLATION property={id} replay={file}");
                1
            },
        },
    }
}

pub fn show(id: &str, i: u64) -> i32 {
    let p = props::all().into_iter().find(|p| p.id == id).unwrap();
    let scratch = Scratch::new();
    let dir = scratch.sub("show");
    let sd = seed();
    let (pid, fd) = in_child(0, &dir, |env| {
        let mut st = Stats::default();
        let mut ctx = Ctx { env, stats: &mut st, recs: Default::default() };
        let case = make_case(&p, sd, i, &mut ctx);
        let r = judge(p.check, &case, &mut ctx);
        println!("{}", describe(&case));
        println!("{r:?}");
        println!("{:?}", st.counts);
        vec![]
    });
    collect(pid, fd).map(|_| 0).unwrap_or(3)
}

/// Determinism: the same case, executed twice in different worker processes (with different pinning),
/// leaves identical histories, files, output and schedules.
pub fn selftest(n: u64) -> i32 {
    let scratch = Scratch::new();
    let sd = seed();
    let nw = ncpu();
    let round = |tag: &str, shift: u64| -> Vec<(u64, u64)> {
        let kids: Vec<_> = (0..nw)
            .map(|w| {
                let dir = scratch.sub(&format!("{tag}{w}"));
                in_child(w, &dir, |env| {
                    let mut v: Vec<(u64, u64)> = vec![];
                    let all = props::all();
                    let mut i = (w as u64 + shift) % nw as u64;
                    while i < n {
                        let p = &all[i as usize % all.len()];
                        let mut st = Stats::default();
                        let mut ctx = Ctx { env: &mut *env, stats: &mut st, recs: Default::default() };
                        let case = make_case(p, sd, i, &mut ctx);
                        let mut h = 0;
                        for (k, ph) in case.phases.iter().enumerate() {
                            let res = ctx.env.run(ph, k > 0);
                            let mut o = vec![];
                            res.rep.rec.put(&mut o);
                            // the heap holds paths of the worker
                            let mut logs = res.rep.logs.clone();
                            logs.iter_mut().flatten().for_each(|e| e.live = 0);
                            logs.put(&mut o);
                            // descriptor numbers depend on what the worker has open
                            let mut ops = res.rep.io.ops.clone();
                            ops.iter_mut().filter(|x| matches!(x.class, simrt::io::OPEN | simrt::io::OPENDIR)).for_each(|x| x.res = x.res.min(0));
                            ops.put(&mut o);
                            res.rep.io.stdout.put(&mut o);
                            o.extend_from_slice(format!("{:?}", res.fs).as_bytes());
                            // absolute names contain the worker's folder (always of the same length)
                            let own = dir.as_bytes();
                            while let Some(k) = o.windows(own.len()).position(|x| x == own) {
                                o[k..k + own.len()].fill(b'@');
                            }
                            h = mix(h ^ hash_bytes(&o));
                        }
                        v.push((i, h));
                        i += nw as u64;
                    }
                    let mut o = vec![];
                    v.put(&mut o);
                    o
                })
            })
            .collect();
        let mut all = vec![];
        for (pid, fd) in kids {
            let b = collect(pid, fd).unwrap();
            all.extend(Vec::<(u64, u64)>::get(&mut &b[..]));
        }
        all.sort();
        all
    };
    let a = round("a", 0);
    let b = round("b", 3);
    let diff: Vec<u64> = a.iter().zip(&b).filter(|(x, y)| x != y).map(|(x, _)| x.0).collect();
    println!("{} cases executed twice, {} differ {:?}", a.len(), diff.len(), &diff[..diff.len().min(20)]);
    (!diff.is_empty()) as i32
}

fn evidence(p: &Prop, tier: &str, sd: u64, st: &Stats, searched: f64, wall: f64, code: i32) {
    let covered = st.cov.iter().map(|b| b.count_ones() as u64).sum::<u64>();
    let j = serde_json::json!({
        "property": p.id,
        "tier": tier,
        "seed": sd,
        "level": "exploration",
        "coverage": {
            "evaluations": st.cases,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": p.rule,
            "samples": st.samples,
            "simulated_processes": st.procs,
            "cases_per_hour": (st.cases as f64 / searched * 3600.0) as u64,
            "simulated_processes_per_hour": (st.procs as f64 / searched * 3600.0) as u64,
            "simulation_time_covered": st.sim_time,
            "simulation_steps": st.steps,
            "scheduling_points": st.ticks,
            "scheduling_points_of_the_longest_run": st.longest,
            "most_system_calls_of_a_run": st.most_calls,
            "context_switches": st.switches,
            "preemptions": st.preempts,
            "work_stealing_thefts": st.steals,
            "distinct_schedules": st.schedules.len(),
            "distinct_schedules_measure": "distinct hashes over the sequence of (scheduling point, thread chosen) of a simulated process",
            "control_flow_edges_reached": covered,
            "faults_and_events": st.counts,
            "real_components": [
                "corries (every line of /repo/src, instrumented at control-flow edges)",
                "ndarray, rayon (iterators, splitting, joins), serde_json, color-eyre, the standard library",
                "the kernel's file system, below a scratch directory"
            ],
            "stub_components": [
                "rayon-core: thread pool and work stealing replaced by a simulated pool whose every choice is seeded",
                "libc file, directory and descriptor calls: recorded, delayed and failed by the simulator before they reach the kernel",
                "stdout: captured in memory",
                "time solver and flux scheme wrapped (not replaced) to log steps and inject failures; some cases replace the time solver by a given sequence of steps",
                "the user's program (set-up, initial conditions, calls of run_corries)"
            ],
        },
        "assumptions": [
            "exploration by seeded search: schedules, faults and configurations are sampled, not enumerated",
            "sequentially consistent interleavings at control-flow edges, system calls, futex operations and fork-joins; no weak memory effects",
            "a crash loses nothing that a write call had already transferred to the kernel (process crash, not power loss)",
        ],
        "wall_s": wall,
        "violations": code,
    });
    let dir = format!("{}/evidence", home());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", p.id), serde_json::to_string_pretty(&j).unwrap() + "\n") {
        eprintln!("harness error: cannot write evidence: {e}");
        std::process::exit(3);
    }
}

/// A case in words
pub fn describe(c: &Case) -> String {
    use simrt::plan::*;
    use simrt::sched::Policy;
    let mut o = String::new();
    for (k, p) in c.phases.iter().enumerate() {
        o += &format!("process {k}{}: user threads run simulations {:?}{}; pool of {} thread(s); ", if p.bare { " (without validation)" } else { "" }, p.roots, if p.nest { " in parallel iterators" } else { "" }, p.threads);
        o += &match &p.policy {
            Policy::Script { preempts, forced } => {
                let f = forced.iter().filter(|x| **x != 0).count();
                if preempts.is_empty() && f == 0 {
                    "no preemptions".to_string()
                } else {
                    format!("{} preemptions at {:?}, {} other choices not the first", preempts.len(), preempts.iter().take(12).collect::<Vec<_>>(), f)
                }
            },
            Policy::Seeded { seed, gap, p_sys, p_join, stall } => {
                format!("schedule from seed {seed:x} (gap {gap}, sys {p_sys}, join {p_join}, stall {stall:?})")
            },
        };
        o += "\n";
        for f in &p.io.faults {
            let class = if f.class == simrt::io::ANY { "system call" } else { simrt::io::CLASS_NAMES[f.class as usize] };
            o += &format!("  fault: {:?} at {class} number {}\n", f.act, f.nth);
        }
        if p.io.quota.is_some() || p.io.max_write > 0 || p.io.eintr_every > 0 {
            o += &format!(
                "  disk quota {:?}, writes of at most {} bytes, every {}th call interrupted\n",
                p.io.quota, p.io.max_write, p.io.eintr_every
            );
        }
        for x in &p.pre {
            o += &match x {
                Pre::Dir(d) => format!("  beforehand: directory {d}\n"),
                Pre::File(f, b) => format!("  beforehand: file {f} ({} bytes)\n", b.len()),
                Pre::Link(f, t) => format!("  beforehand: symbolic link {f} -> {t}\n"),
            };
        }
        for (i, s) in p.sims.iter().enumerate() {
            o += &format!(
                "  simulation {i}: {} {} {} cells, [{}, {}], gamma {}, {}{}{} t {}..{}, dt_min {:?}, dt_max {:?}, cfl {}, iter_max {}, {} outputs{}\n",
                ["adiabatic", "isothermal"][s.phys as usize],
                if s.flux == 0 { "HLL".to_string() } else { format!("KT/{}", ["none", "minmod", "superbee", "monocent", "van Leer"][s.lim as usize]) },
                s.s,
                s.xi_in,
                s.xi_out,
                s.gamma,
                ["RK1", "RK2", "RK3", "RK4", "Heun2", "RKF12", "RKF45", "SSPRK3", "SSPRK5"][s.rkf as usize],
                if s.asc { format!(" asc(rtol {}, atol {}, friction {})", s.rtol, s.atol, s.friction) } else { String::new() },
                if s.bcw.is_some() || s.bce.is_some() { format!(" boundaries {:?} | {:?}", s.bcw, s.bce) } else { String::new() },
                s.t0,
                s.t_end,
                s.dt_min,
                s.dt_max,
                s.cfl,
                s.iter_max,
                s.nout,
                if s.stub_dt.is_empty() { String::new() } else { format!(", given steps {:?}", s.stub_dt) }
            );
            if !s.hop.is_empty() {
                let w: Vec<_> = s.hop.iter().map(|&h| ["the caller's thread", "a thread of its own", "the pool (join)", "the pool (scope)"][h as usize & 3]).collect();
                o += &format!("    set-up and calls on {w:?}\n");
            }
            if !s.printer.is_empty() {
                o += &format!("    no simulation: prints blocks of {:?} lines\n", s.printer);
            }
            if !s.script.is_empty() {
                let name = ["?", "run", "iter_max=", "save", "restore ", "fresh solver", "write", "step"];
                let ops: Vec<String> = s
                    .script
                    .iter()
                    .map(|op| {
                        let n = name.get((op & 255) as usize).unwrap_or(&"?");
                        if matches!(op & 255, OP_ITER_MAX | OP_RESTORE) { format!("{n}{}", op >> 8) } else { n.to_string() }
                    })
                    .collect();
                o += &format!("    the user does: {}\n", ops.join(", "));
            }
            if s.ready != 0 {
                o += &format!(
                    "    ready-made: the configuration{}{}\n",
                    if s.ready & READY_NOH != 0 { ", the Noh test" } else if s.ready & READY_SOD != 0 { ", the Sod test" } else { "" },
                    if s.ready & READY_NAMES != 0 { ", with chosen data" } else { "" }
                );
            }
            if !s.manual.is_empty() {
                o += &format!("    the user takes the steps, with outputs ahead by {:?}\n", s.manual);
            }
            if s.retries + s.reruns > 0 {
                o += &format!("    {} retries, {} reruns\n", s.retries, s.reruns);
            }
            for f in &s.faults {
                o += &format!(
                    "    fault: {} {} step {} (evaluation {}, cell {}, equation {})\n",
                    ["error", "NaN", "negative value", "huge value", "infinity", "panic"][f.act as usize],
                    ["before", "after", "in the flux of", "in the initial conditions, not"][f.site as usize],
                    f.at,
                    f.k,
                    f.cell,
                    f.eq
                );
            }
            for t in &s.streams {
                o += &format!(
                    "    stream: {}{} {}{} precision {}{}{} {:?}\n",
                    if t.file { format!("{}/{}", t.folder, t.name) } else { "stdout".to_string() },
                    if t.clear { " (clears the folder)" } else { "" },
                    if t.csv { "csv " } else { "tsv " },
                    if t.vector { "vector" } else { "scalar" },
                    t.prec,
                    if t.ghost { ", ghost cells" } else { "" },
                    if t.meta { ", metadata" } else { "" },
                    t.data.iter().map(|&d| crate::hist::name_of(d)).collect::<Vec<_>>()
                );
            }
        }
    }
    if !c.knob.is_empty() {
        o += &format!("knobs {:?}\n", c.knob);
    }
    o.trim_end().to_string()
}
