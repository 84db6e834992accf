//! Runs one simulated process: fork, simulate, collect.
use simrt::codec::Codec;
use simrt::plan::{self, Phase, Pre, Report};
use simrt::{io, sched};
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Dir,
    File(Vec<u8>),
    Link(String),
}
pub type Fs = BTreeMap<String, Node>;

pub struct Res {
    pub rep: Report,
    pub fs: Fs,
    pub before: Fs,
}

pub struct Env {
    pub root: String,
    shm: *mut u8,
    len: usize,
}

const SHM: usize = 256 << 20;
pub const TICK_LIMIT: u64 = 1_000_000_000;

fn walk(base: &Path, rel: &str, out: &mut Fs) {
    let Ok(rd) = std::fs::read_dir(base.join(rel)) else { return };
    for e in rd.flatten() {
        let name = e.file_name().to_string_lossy().into_owned();
        let r = if rel.is_empty() { name } else { format!("{rel}/{name}") };
        let ft = e.file_type().unwrap();
        if ft.is_symlink() {
            let t = std::fs::read_link(e.path()).unwrap();
            out.insert(r, Node::Link(t.to_string_lossy().into_owned()));
        } else if ft.is_dir() {
            out.insert(r.clone(), Node::Dir);
            walk(base, &r, out);
        } else {
            out.insert(r, Node::File(std::fs::read(e.path()).unwrap_or_default()));
        }
    }
}

impl Env {
    pub fn new(root: &str) -> Env {
        std::fs::create_dir_all(root).unwrap();
        let shm = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SHM,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        assert!(shm != libc::MAP_FAILED);
        Env { root: root.to_string(), shm: shm as *mut u8, len: SHM }
    }

    fn boxdir(&self) -> String {
        format!("{}/box", self.root)
    }

    pub fn wipe(&self) {
        let b = self.boxdir();
        let _ = std::fs::remove_dir_all(&b);
        std::fs::create_dir_all(format!("{b}/work")).unwrap();
    }

    /// keep: start from the files the process before left behind
    pub fn run(&mut self, ph: &Phase, keep: bool) -> Res {
        if !keep {
            self.wipe();
        }
        let b = self.boxdir();
        for p in &ph.pre {
            let at = |p: &str| {
                let f = format!("{b}/{p}");
                if let Some(d) = Path::new(&f).parent() {
                    let _ = std::fs::create_dir_all(d);
                }
                f
            };
            match p {
                Pre::Dir(p) => std::fs::create_dir_all(at(p)).unwrap(),
                Pre::File(p, c) => std::fs::write(at(p), c).unwrap(),
                Pre::Link(p, t) => {
                    let _ = std::os::unix::fs::symlink(t, at(p));
                },
            }
        }
        let mut before = Fs::new();
        walk(Path::new(&b), "", &mut before);
        unsafe { (self.shm as *mut u64).write_volatile(0) };
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            self.child(ph, &b);
        }
        let mut status = 0;
        unsafe { libc::waitpid(pid, &mut status, 0) };
        let n = unsafe { (self.shm as *const u64).read_volatile() } as usize;
        let rep = if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0 && n > 0 {
            let buf = unsafe { std::slice::from_raw_parts(self.shm.add(8), n) };
            let mut i = buf;
            Report::get(&mut i)
        } else {
            Report { end: 4, signal: status, ..Default::default() }
        };
        let mut fs = Fs::new();
        walk(Path::new(&b), "", &mut fs);
        Res { rep, fs, before }
    }

    fn child(&mut self, ph: &Phase, b: &str) -> ! {
        unsafe {
            libc::alarm(60);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let cwd = format!("{b}/work");
            std::env::set_current_dir(&cwd).unwrap();
            io::setup(b, &cwd, ph.io.clone());
            plan::set(ph.clone());
            sched::setup(ph.policy.clone(), TICK_LIMIT);
            sched::set_world(ph.world);
            for r in &ph.roots {
                let (r, bare, nest) = (r.clone(), ph.bare, ph.nest);
                sched::spawn(true, move || {
                    if nest {
                        return sut::side_by_side(&r, if bare { sut_bare::run_sim } else { run_sim });
                    }
                    for i in r {
                        if bare { sut_bare::run_sim(i as usize) } else { run_sim(i as usize) }
                    }
                });
            }
            rayon_core::sim_start(ph.threads.max(1) as usize);
            let (end, rec) = sched::run();
            let (steals, forks) = rayon_core::sim_stats();
            let wild = end as u8 == 2;
            let mut rec = rec;
            if wild {
                rec.preempts.truncate(200_000);
                rec.forced.truncate(200_000);
            }
            let rep = Report {
                end: end as u8,
                signal: 0,
                rec,
                // of a process that does not end, only that is of interest
                io: if wild { Default::default() } else { io::take_record() },
                logs: if wild { vec![vec![]; ph.sims.len()] } else { plan::take_logs() },
                cov: sched::coverage(),
                steals,
                forks,
            };
            let mut o = vec![];
            rep.put(&mut o);
            if o.len() + 8 > self.len {
                libc::_exit(3);
            }
            std::ptr::copy_nonoverlapping(o.as_ptr(), self.shm.add(8), o.len());
            (self.shm as *mut u64).write_volatile(o.len() as u64);
            libc::_exit(0)
        }
    }
}

#[cfg(feature = "own")]
use sut_own::run_sim;
#[cfg(not(feature = "own"))]
use sut::run_sim;
