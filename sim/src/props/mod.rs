//! The properties: how their cases are generated and how they are decided.
use crate::core::*;
use crate::exec::{Fs, Node, Res};
use crate::gen;
use crate::hist::*;
use simrt::codec::Codec;
use simrt::plan::*;
use simrt::prng::Rng;

pub mod bare;
pub mod conc;
pub mod disk;
pub mod life;
pub mod num;
pub mod out;
pub mod own;
pub mod place;
pub mod ready;
pub mod sym;
pub mod user;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(out::props());
    v.extend(disk::props());
    v.extend(conc::props());
    v.extend(num::props());
    v.extend(life::props());
    v.extend(sym::props());
    v.extend(user::props());
    v.extend(ready::props());
    v.extend(bare::props());
    v.extend(own::props());
    v.extend(place::props());
    v.sort_by_key(|p| p.id);
    v
}

pub const FOLDERS: [&str; 12] =
    ["out", "out", "out", "out", "res", "res", "./dot", "a/b", "out/sub/", "w i/th/\u{fc}.d", "/proc/self/cwd/abs", "../beside"];

pub fn hists(res: &Res) -> Vec<Hist> {
    res.rep.logs.iter().map(|l| Hist::new(l)).collect()
}

pub fn no_panic(hs: &[Hist]) -> Result<(), Viol> {
    for (i, h) in hs.iter().enumerate() {
        if let Some(m) = h.panicked() {
            return viol("panic", format!("simulation {i} panicked: {m}"));
        }
    }
    Ok(())
}

/// A valid configuration, no faults: the set-up succeeds
pub fn init_fine(h: &Hist) -> Result<(), Viol> {
    match &h.init {
        Some((true, _, _)) => Ok(()),
        Some((false, true, m)) => viol("panic", format!("setting up panicked: {m}")),
        Some((false, _, m)) => viol("setup", format!("setting up a valid configuration failed: {m}")),
        None => viol("setup", "setting up never returned"),
    }
}

pub fn brief(b: &[u8], at: usize) -> String {
    let lo = at.saturating_sub(30);
    let hi = (at + 30).min(b.len());
    format!("...{:?}...", String::from_utf8_lossy(&b[lo.min(hi)..hi]))
}

pub fn diff_bytes(want: &[u8], got: &[u8]) -> Option<String> {
    if want == got {
        return None;
    }
    let k = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    Some(format!(
        "differs at byte {k} ({} bytes instead of {}): {} instead of {}",
        got.len(),
        want.len(),
        brief(got, k),
        brief(want, k)
    ))
}

/// Are the trees the same?
pub fn diff_fs(want: &Fs, got: &Fs) -> Option<String> {
    for (p, n) in want {
        match (n, got.get(p)) {
            (_, None) => return Some(format!("{p} is missing")),
            (Node::File(a), Some(Node::File(b))) => {
                if let Some(d) = diff_bytes(a, b) {
                    return Some(format!("{p} {d}"));
                }
            },
            (a, Some(b)) if a == b => {},
            _ => return Some(format!("{p} is of another kind")),
        }
    }
    got.keys().find(|p| !want.contains_key(*p)).map(|p| format!("{p} should not be there"))
}

/// What happened in a simulation, without the schedule
pub fn log_bytes(log: &[Ev]) -> Vec<Vec<u8>> {
    log.iter()
        .map(|e| {
            let mut o = vec![];
            e.what.put(&mut o);
            o
        })
        .collect()
}

pub fn diff_logs(want: &[Ev], got: &[Ev]) -> Option<String> {
    let (a, b) = (log_bytes(want), log_bytes(got));
    if a == b {
        return None;
    }
    let k = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let short = |l: &[Ev]| l.get(k).map(|e| brief_what(&e.what)).unwrap_or("nothing".into());
    Some(format!("event {k}: {} instead of {}", short(got), short(want)))
}

pub fn brief_what(w: &What) -> String {
    let sn = |s: &Snap| format!("iter {} t {:e} dt {:e} prim {:?}..", s.iter, s.t, s.dt, &s.prim[..s.prim.len().min(4)]);
    match w {
        What::StepBegin(s) => format!("step begins at {}", sn(s)),
        What::StepEnd { ok, msg, snap, .. } => format!("step ends ({ok} {msg}) at {}", sn(snap)),
        What::Init { ok, msg, .. } => format!("set-up ends ({ok} {msg})"),
        w => format!("{w:?}"),
    }
}

/// Streams for one simulation; names differ for different values of base+k
pub struct Streams {
    pub n: (i64, i64),
    pub stdout: f64,
    pub prec: Vec<u32>,
    pub must: Vec<u8>,
    pub meta: f64,
    pub folders: Vec<&'static str>,
    /// two file streams that differ in their format only are named alike
    pub twins: f64,
}
impl Default for Streams {
    fn default() -> Self {
        Streams {
            n: (1, 3),
            stdout: 0.5,
            prec: vec![16, 16, 10, 7, 3],
            must: vec![],
            meta: 0.4,
            folders: FOLDERS.to_vec(),
            twins: 0.0,
        }
    }
}

pub fn add_streams(r: &mut Rng, c: &mut SimCfg, base: usize, o: &Streams) {
    let n = if r.chance(0.02) { r.range(5, 10) } else { r.range(o.n.0, o.n.1) } as usize;
    let std_at = if r.chance(o.stdout) { r.below(n as u64) as usize } else { usize::MAX };
    for k in 0..n {
        let mut s = gen::stream(r, c.e(), base + k, k != std_at, &o.folders, &o.must, &o.prec);
        s.meta = r.chance(o.meta);
        if r.chance(0.15) {
            // the same columns as another one
            if let Some(x) = c.streams.iter().find(|x| x.vector == s.vector) {
                s.data = x.data.clone();
                if r.chance(0.6) {
                    // other ones of the same kinds
                    let e = c.e() as i64;
                    for d in s.data.iter_mut() {
                        *d = match *d {
                            0..=2 => r.range(0, 2) as u8,
                            x if x >= 10 => x / 10 * 10 + r.range(0, e - 1) as u8,
                            x => x,
                        }
                    }
                    if r.chance(0.3) {
                        s.data.reverse();
                    }
                }
            }
        }
        c.streams.push(s);
    }
    if r.chance(o.twins) {
        let n = c.streams.len();
        if let Some(k) = (1..n).find(|&k| c.streams[k].file && c.streams[k - 1].file && c.streams[k].vector == c.streams[k - 1].vector) {
            let x = c.streams[k - 1].clone();
            let s = &mut c.streams[k];
            (s.folder, s.name, s.csv) = (x.folder, x.name, !x.csv);
        }
    }
}

pub fn schedule(r: &mut Rng, p: &mut Phase) {
    p.threads = if r.chance(0.04) { r.range(5, 9) } else { r.range(1, 4) } as u8;
    p.policy = gen::policy(r);
    p.world = r.u64() | 1;
}

/// number of outputs that were due before the step that begins here
pub fn outputs_before(c: &SimCfg, s: &Snap) -> usize {
    if c.nout == 0 {
        return (s.t_next > c.t_end) as usize;
    }
    let dt_out = gen::interval(c);
    ((s.t_next - c.t0) / dt_out).round().max(0.0) as usize
}

/// Regular records and error dumps of a stream that prints dt_kind
pub fn is_err(st: &StreamCfg, rec: &Record) -> bool {
    column(st, 7).map(|k| rec.iter().any(|r| r.get(k).map(|x| x == "err").unwrap_or(false))).unwrap_or(false)
}
pub fn float(st: &StreamCfg, rec: &Record, d: u8, row: usize) -> Option<f64> {
    let k = column(st, d)?;
    rec.get(row)?.get(k)?.parse().ok()
}
pub fn single(sims: Vec<SimCfg>, r: &mut Rng) -> Case {
    let mut p = gen::phase(sims);
    schedule(r, &mut p);
    Case { phases: vec![p], knob: vec![] }
}
