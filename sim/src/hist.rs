//! Views of what a simulated process logged and wrote.
use crate::exec::{Fs, Node};
use simrt::plan::*;

#[derive(Clone, Debug)]
pub struct Step {
    pub tick: u64,
    pub end_tick: u64,
    pub begin: Snap,
    /// None: still under way
    pub end: Option<(bool, String, u32, Snap)>,
    pub fired: Vec<u32>,
}

#[derive(Clone, Debug)]
pub struct Run {
    pub steps: Vec<Step>,
    /// None: still under way
    pub end: Option<(bool, bool, String)>,
}

#[derive(Clone, Debug, Default)]
pub struct Hist {
    pub init: Option<(bool, bool, String)>,
    pub init_snap: Option<Snap>,
    pub runs: Vec<Run>,
    pub fired: Vec<u32>,
    /// what the user did, after how many runs
    pub notes: Vec<(usize, u64, bool, Snap)>,
}

impl Hist {
    pub fn new(log: &[Ev]) -> Hist {
        let mut h = Hist::default();
        for e in log {
            match &e.what {
                What::Start | What::Seen(_) => {},
                What::Init { ok, panic, msg, snap } => {
                    h.init = Some((*ok, *panic, msg.clone()));
                    h.init_snap = snap.clone();
                },
                What::RunBegin => h.runs.push(Run { steps: vec![], end: None }),
                What::StepBegin(s) => h.runs.last_mut().unwrap().steps.push(Step {
                    tick: e.tick,
                    end_tick: u64::MAX,
                    begin: s.clone(),
                    end: None,
                    fired: vec![],
                }),
                What::StepEnd { ok, msg, fluxes, snap } => {
                    let s = h.runs.last_mut().unwrap().steps.last_mut().unwrap();
                    s.end = Some((*ok, msg.clone(), *fluxes, snap.clone()));
                    s.end_tick = e.tick;
                },
                What::Fired(k) => {
                    h.fired.push(*k);
                    if let Some(s) = h.runs.last_mut().and_then(|r| r.steps.last_mut()) {
                        s.fired.push(*k)
                    }
                },
                What::Note { op, ok, snap } => h.notes.push((h.runs.len(), *op, *ok, snap.clone())),
                What::RunEnd { ok, panic, msg } => {
                    h.runs.last_mut().unwrap().end = Some((*ok, *panic, msg.clone()))
                },
            }
        }
        h
    }
    pub fn steps(&self) -> impl Iterator<Item = &Step> {
        self.runs.iter().flat_map(|r| r.steps.iter())
    }
    pub fn init_ok(&self) -> bool {
        matches!(self.init, Some((true, _, _)))
    }
    pub fn panicked(&self) -> Option<String> {
        if let Some((_, true, m)) = &self.init {
            return Some(m.clone());
        }
        self.runs.iter().find_map(|r| match &r.end {
            Some((_, true, m)) => Some(m.clone()),
            _ => None,
        })
    }
    /// Everything returned Ok
    pub fn all_ok(&self) -> bool {
        self.init_ok() && self.runs.iter().all(|r| matches!(r.end, Some((true, _, _))))
    }
    /// What can have been written: the states between steps, in order, and the dumps of failed runs.
    pub fn states(&self) -> Vec<(Snap, bool)> {
        let mut v = vec![];
        let Some(s) = &self.init_snap else { return v };
        v.push((s.clone(), false));
        let mut failed: Option<Snap> = None;
        for r in &self.runs {
            // a run that failed may be resumed from where it was
            v.extend(failed.take().map(|s| (s, false)));
            for st in &r.steps {
                if let Some((true, _, _, s)) = &st.end {
                    v.push((s.clone(), false));
                }
            }
            if let Some((false, false, _)) = &r.end {
                let last = match r.steps.last() {
                    Some(Step { end: Some((_, _, _, s)), .. }) => s.clone(),
                    _ => v.last().unwrap().0.clone(),
                };
                let mut last = last;
                failed = Some(last.clone());
                last.kind = "err".into();
                v.push((last, true));
            }
        }
        v
    }
}

// ---- records ----------------------------------------------------------------------------------

pub type Row = Vec<String>;
/// the rows of one output of one stream
pub type Record = Vec<Row>;

pub fn name_of(d: u8) -> String {
    match d {
        0 => "xi_cent".into(),
        1 => "xi_west".into(),
        2 => "xi_east".into(),
        3 => "c_sound".into(),
        4 => "t".into(),
        5 => "iter".into(),
        6 => "dt".into(),
        7 => "dt_kind".into(),
        10..=19 => format!("prim_{}", d - 10),
        _ => format!("cons_{}", d - 20),
    }
}

/// One line as its tokens; None if it is not a complete line
pub fn tokens(st: &StreamCfg, line: &str, header: bool) -> Row {
    if st.csv {
        line.split(',').map(|x| x.trim().to_string()).collect()
    } else {
        let l = if header { line.strip_prefix('#').unwrap_or(line) } else { line };
        l.split_whitespace().map(|x| x.to_string()).collect()
    }
}

pub fn is_header(st: &StreamCfg, line: &str) -> bool {
    tokens(st, line, true) == st.data.iter().map(|&d| name_of(d)).collect::<Row>() && (st.csv || line.starts_with('#'))
}

pub fn nrows(c: &SimCfg, st: &StreamCfg) -> usize {
    if !st.vector {
        1
    } else if st.ghost {
        c.s as usize
    } else {
        c.s as usize - 4
    }
}

pub fn value(c: &SimCfg, d: u8, i: usize, s: &Snap) -> f64 {
    let n = c.s as usize;
    let dxi = (c.xi_out - c.xi_in) / (n as f64 - 4.0);
    match d {
        0 => c.xi_in + dxi * (i as f64 - 2.0) + 0.5 * dxi,
        1 => c.xi_in + dxi * (i as f64 - 2.0),
        2 => c.xi_in + dxi * (i as f64 - 1.0),
        3 => s.cs[i],
        4 => s.t,
        5 => s.iter as f64,
        6 => s.dt,
        10..=19 => s.prim[(d as usize - 10) * n + i],
        _ => s.cons[(d as usize - 20) * n + i],
    }
}

/// Does the text represent x, rounded to prec digits after the point of the scientific notation?
pub fn same_number(text: &str, x: f64, prec: u32, slack: f64) -> bool {
    if text == format!("{:.*e}", prec as usize, x) {
        return true;
    }
    let Ok(y) = text.parse::<f64>() else { return false };
    if x.is_nan() || y.is_nan() {
        return x.is_nan() && y.is_nan();
    }
    if x.is_infinite() || y.is_infinite() {
        return x == y;
    }
    // the digits that were asked for are there
    let digits = text.split('e').next().unwrap().split('.').nth(1).map(|f| f.len()).unwrap_or(0);
    if digits < prec as usize {
        return false;
    }
    let e = if x == 0.0 { 0.0 } else { x.abs().log10().floor() };
    (x - y).abs() <= 0.5001 * 10f64.powf(e - prec as f64) + slack
}

pub fn row_matches(c: &SimCfg, st: &StreamCfg, row: &Row, i: usize, s: &Snap) -> Result<(), String> {
    if row.len() != st.data.len() {
        return Err(format!("{} columns instead of {}", row.len(), st.data.len()));
    }
    let cell = if !st.vector || st.ghost { i } else { i + 2 };
    for (k, &d) in st.data.iter().enumerate() {
        let ok = match d {
            5 => row[k] == s.iter.to_string(),
            7 => row[k] == s.kind,
            0..=2 => same_number(&row[k], value(c, d, cell, s), st.prec, 1e-13 * c.xi_in.abs().max(c.xi_out.abs())),
            _ => same_number(&row[k], value(c, d, cell, s), st.prec, 0.0),
        };
        if !ok {
            let want = match d {
                7 => s.kind.clone(),
                5 => s.iter.to_string(),
                _ => format!("{:.*e}", st.prec as usize, value(c, d, cell, s)),
            };
            return Err(format!("column {} row {}: {} instead of {}", name_of(d), i, row[k], want));
        }
    }
    Ok(())
}

pub fn record_matches(c: &SimCfg, st: &StreamCfg, rec: &Record, s: &Snap) -> Result<(), String> {
    if rec.len() != nrows(c, st) {
        return Err(format!("{} rows instead of {}", rec.len(), nrows(c, st)));
    }
    for (i, row) in rec.iter().enumerate() {
        row_matches(c, st, row, i, s)?;
    }
    Ok(())
}

pub fn folder_path(st: &StreamCfg) -> String {
    // C07: by is a link to ../other/in
    let name = st.folder.strip_prefix("/proc/self/cwd/").unwrap_or(&st.folder).replace("by/../", "../other/");
    simrt::io::normalise(&format!("work/{name}"))[1..].to_string()
}
pub fn ext(st: &StreamCfg) -> &'static str {
    if st.csv {
        "csv"
    } else {
        "tsv"
    }
}
pub fn meta_path(st: &StreamCfg) -> String {
    format!("{}/{}{}_metadata.json", folder_path(st), st.name, if st.vector { "_" } else { "" })
}
pub fn scalar_path(st: &StreamCfg) -> String {
    format!("{}/{}.{}", folder_path(st), st.name, ext(st))
}

/// The numbered files of a Vector stream, in order
pub fn vector_files<'a>(st: &StreamCfg, fs: &'a Fs) -> Vec<(u64, String, &'a Vec<u8>)> {
    let pre = format!("{}/{}_", folder_path(st), st.name);
    let suf = format!(".{}", ext(st));
    let mut v = vec![];
    for (p, n) in fs {
        if let (Some(x), Node::File(b)) = (p.strip_prefix(&pre).and_then(|x| x.strip_suffix(&suf)), n) {
            if !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit()) {
                v.push((x.parse().unwrap_or(u64::MAX), x.to_string(), b));
            }
        }
    }
    v.sort();
    v
}

pub fn split_lines(b: &[u8]) -> Result<Vec<String>, String> {
    let t = String::from_utf8_lossy(b).into_owned();
    if !t.is_empty() && !t.ends_with('\n') {
        return Err(format!("the last line is incomplete: {:?}", t.lines().last().unwrap_or("")));
    }
    Ok(t.lines().map(|x| x.to_string()).collect())
}

/// Parses everything a file stream wrote.
pub fn file_records(c: &SimCfg, st: &StreamCfg, fs: &Fs) -> Result<Vec<Record>, String> {
    if st.vector {
        let files = vector_files(st, fs);
        let width = format!("{}", c.nout).len();
        let mut v = vec![];
        for (k, (n, text, b)) in files.iter().enumerate() {
            if *n != k as u64 {
                return Err(format!("{}: file number {} is missing", st.name, k));
            }
            if text.len() < width {
                return Err(format!("{}: file number {} is not padded to {} digits", st.name, text, width));
            }
            let lines = split_lines(b).map_err(|e| format!("{}_{}: {}", st.name, text, e))?;
            if lines.is_empty() || !is_header(st, &lines[0]) {
                return Err(format!("{}_{}: bad header {:?}", st.name, text, lines.first()));
            }
            v.push(lines[1..].iter().map(|l| tokens(st, l, false)).collect());
        }
        Ok(v)
    } else {
        match fs.get(&scalar_path(st)) {
            Some(Node::File(b)) => {
                let lines = split_lines(b).map_err(|e| format!("{}: {}", st.name, e))?;
                if lines.is_empty() || !is_header(st, &lines[0]) {
                    return Err(format!("{}: bad header {:?}", st.name, lines.first()));
                }
                Ok(lines[1..].iter().map(|l| vec![tokens(st, l, false)]).collect())
            },
            _ => Ok(vec![]),
        }
    }
}

pub const BANNER_LINES: usize = 8;

/// Parses stdout of a process in which one stream (and the banner) goes to stdout.
pub fn stdout_records(c: &SimCfg, st: &StreamCfg, out: &[u8]) -> Result<Vec<Record>, String> {
    let lines = split_lines(out)?;
    let mut i = 0;
    if c.banner {
        i = BANNER_LINES;
    }
    if st.meta {
        // pretty-printed JSON object: from "{" to "}" in the first column
        if lines.get(i).map(|x| x.as_str()) != Some("{") {
            return Err("metadata does not start where it should on stdout".into());
        }
        match lines[i..].iter().position(|x| x == "}") {
            Some(k) => i += k + 1,
            None => return Err("metadata on stdout is incomplete".into()),
        }
    }
    let n = nrows(c, st);
    let mut v = vec![];
    let mut first = true;
    while i < lines.len() {
        if st.vector || first {
            if !is_header(st, &lines[i]) {
                return Err(format!("stdout line {}: {:?} instead of the header", i, lines[i]));
            }
            i += 1;
            first = false;
        }
        if i + n > lines.len() {
            return Err(format!("the last record on stdout is incomplete ({} of {} rows)", lines.len() - i, n));
        }
        v.push(lines[i..i + n].iter().map(|l| tokens(st, l, false)).collect());
        i += n;
    }
    Ok(v)
}

pub fn records(c: &SimCfg, st: &StreamCfg, fs: &Fs, out: &[u8]) -> Result<Vec<Record>, String> {
    if st.file {
        file_records(c, st, fs)
    } else {
        stdout_records(c, st, out)
    }
}

pub fn column(st: &StreamCfg, d: u8) -> Option<usize> {
    st.data.iter().position(|&x| x == d)
}
