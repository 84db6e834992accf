//! The system-call seam.  The libc entry points the standard library uses for files, directories
//! and descriptors are defined here, so that every call of a simulated thread is recorded, can be
//! made to fail, and cannot touch anything outside the run's scratch directory.  Calls of other
//! threads go straight to the kernel.
use crate::mem::Harness;
use crate::raw::{ret, set_errno, sys6};
use crate::sched::{self, armed, Point};
use libc::{c_char, c_int, c_void, mode_t, off_t, size_t, ssize_t};
use std::ffi::CStr;

pub const OPEN: u8 = 0;
pub const WRITE: u8 = 1;
pub const STDOUT: u8 = 2;
pub const MKDIR: u8 = 3;
pub const UNLINK: u8 = 4;
pub const RMDIR: u8 = 5;
pub const OPENDIR: u8 = 6;
pub const RENAME: u8 = 7;
pub const TRUNC: u8 = 8;
pub const SYNC: u8 = 9;
pub const CLOSE: u8 = 10;
pub const STDERR: u8 = 11;
pub const LINK: u8 = 12;
pub const CHMOD: u8 = 13;
pub const NCLASS: usize = 14;
/// fault class: any class
pub const ANY: u8 = 255;
pub const CLASS_NAMES: [&str; NCLASS] = [
    "open", "write", "stdout-write", "mkdir", "unlink", "rmdir", "opendir", "rename", "truncate", "sync", "close",
    "stderr-write", "link", "chmod",
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    /// this one call fails
    Errno(i32),
    /// this call and all later ones of its class fail
    Sticky(i32),
    /// a write transfers at most this many bytes
    Short(u32),
    /// the process dies: a write has transferred this many bytes of its buffer; another call has been
    /// carried out (1) or not (0)
    Crash(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    pub class: u8,
    /// 0-based, counted per class (ANY: over all faultable calls)
    pub nth: u32,
    pub act: Act,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct IoPlan {
    pub faults: Vec<Fault>,
    /// bytes that fit on the disk (regular files)
    pub quota: Option<u64>,
    /// every write transfers at most this many bytes (0: no limit)
    pub max_write: u32,
    /// every n-th open/write is interrupted by a signal first (0: never)
    pub eintr_every: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct OpRec {
    pub tick: u64,
    pub th: u8,
    pub class: u8,
    pub path: u32,
    pub len: u32,
    /// result, or -errno
    pub res: i32,
    /// 0 none, 1 errno, 2 short, 3 eintr, 4 quota, 5 crash, 6 refused (outside the scratch directory)
    pub fault: u8,
    /// open flags
    pub flags: u32,
}
crate::codec_struct!(OpRec { tick, th, class, path, len, res, fault, flags });

#[derive(Clone, Debug, Default, PartialEq)]
pub struct IoRec {
    pub ops: Vec<OpRec>,
    pub paths: Vec<String>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub counts: Vec<u32>,
    pub total: u32,
    pub escapes: Vec<String>,
}
crate::codec_struct!(IoRec { ops, paths, stdout, stderr, counts, total, escapes });

struct World {
    root: String,
    cwd: String,
    plan: IoPlan,
    rec: IoRec,
    fds: Vec<Option<(u32, bool)>>,
    sticky: [i32; NCLASS],
    used: u64,
    n_eintr: u32,
    just_interrupted: bool,
}

static mut W: Option<World> = None;
#[allow(static_mut_refs)]
fn w() -> &'static mut World {
    unsafe { W.as_mut().unwrap() }
}

/// root: the only directory below which anything may be changed
pub fn setup(root: &str, cwd: &str, plan: IoPlan) {
    unsafe {
        W = Some(World {
            root: root.to_string(),
            cwd: cwd.to_string(),
            plan,
            rec: IoRec { counts: vec![0; NCLASS], ..Default::default() },
            fds: vec![],
            sticky: [0; NCLASS],
            used: 0,
            n_eintr: 0,
            just_interrupted: false,
        })
    }
}

pub fn take_record() -> IoRec {
    std::mem::take(&mut w().rec)
}

pub fn normalise(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {},
            ".." => {
                v.pop();
            },
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}

impl World {
    fn resolve(&self, dirfd: c_int, p: *const c_char) -> String {
        let p = unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned();
        if let Some(q) = p.strip_prefix("/proc/self/cwd/") {
            return normalise(&format!("{}/{q}", self.cwd));
        }
        if p.starts_with('/') {
            return normalise(&p);
        }
        let base = if dirfd == libc::AT_FDCWD {
            self.cwd.clone()
        } else {
            match self.fds.get(dirfd as usize) {
                Some(Some((i, _))) => self.rec.paths[*i as usize].clone(),
                _ => "/?".to_string(),
            }
        };
        normalise(&format!("{base}/{p}"))
    }
    fn path_id(&mut self, p: &str) -> u32 {
        if let Some(i) = self.rec.paths.iter().position(|x| x == p) {
            return i as u32;
        }
        self.rec.paths.push(p.to_string());
        (self.rec.paths.len() - 1) as u32
    }
    fn inside(&self, p: &str) -> bool {
        p.starts_with(&self.root) && p.as_bytes().get(self.root.len()) == Some(&b'/')
    }
    fn log(&mut self, class: u8, path: u32, len: usize, res: i64, fault: u8, flags: u32) {
        self.rec.ops.push(OpRec {
            tick: unsafe { sched::TICK },
            th: sched::me() as u8,
            class,
            path,
            len: len as u32,
            res: res as i32,
            fault,
            flags,
        });
    }
}

enum Gate {
    Go,
    Limit(usize),
    Fail(i32, u8),
    Crash(u32),
}

/// Counts the call and decides its fate.
fn gate(class: u8, len: usize) -> Gate {
    let w = w();
    let c = class as usize;
    let transfer = class == WRITE || class == STDOUT || class == STDERR;
    if (class == OPEN || class == WRITE || class == STDOUT) && w.plan.eintr_every > 0 {
        if w.just_interrupted {
            w.just_interrupted = false;
        } else {
            w.n_eintr += 1;
            if w.n_eintr % w.plan.eintr_every == 0 {
                w.just_interrupted = true;
                return Gate::Fail(libc::EINTR, 3);
            }
        }
    }
    if w.rec.ops.len() > 12_000_000 || w.used > 64 << 20 || w.rec.stdout.len() > 64 << 20 {
        sched::runaway();
    }
    let n = w.rec.counts[c];
    w.rec.counts[c] += 1;
    let total = w.rec.total;
    if class != STDERR {
        w.rec.total += 1;
    }
    if w.sticky[c] != 0 {
        return Gate::Fail(w.sticky[c], 1);
    }
    for f in &w.plan.faults {
        if (f.class == class && f.nth == n) || (f.class == ANY && f.nth == total && class != STDERR) {
            match f.act {
                Act::Errno(e) => return Gate::Fail(e, 1),
                Act::Sticky(e) => {
                    w.sticky[c] = e;
                    return Gate::Fail(e, 1);
                },
                Act::Short(k) if transfer => return Gate::Limit((k as usize).min(len)),
                Act::Short(_) => {},
                Act::Crash(k) => return Gate::Crash(k),
            }
        }
    }
    if transfer && w.plan.max_write > 0 && len > w.plan.max_write as usize {
        return Gate::Limit(w.plan.max_write as usize);
    }
    Gate::Go
}

/// A call that changes or opens something by path.
unsafe fn path_call(class: u8, dirfd: c_int, path: *const c_char, flags: u32, mutating: bool, go: &dyn Fn() -> i64) -> i64 {
    let _h = Harness::enter();
    sched::point(Point::Sys);
    let p = w().resolve(dirfd, path);
    let id = w().path_id(&p);
    if mutating && !w().inside(&p) {
        w().rec.escapes.push(format!("{} {}", CLASS_NAMES[class as usize], p));
        w().log(class, id, 0, -(libc::EACCES as i64), 6, flags);
        set_errno(libc::EACCES);
        return -1;
    }
    match gate(class, 0) {
        Gate::Fail(e, how) => {
            w().log(class, id, 0, -(e as i64), how, flags);
            set_errno(e);
            -1
        },
        Gate::Crash(k) => {
            if k > 0 {
                go();
            }
            w().log(class, id, 0, 0, 5, flags);
            sched::crash()
        },
        _ => {
            let r = go();
            w().log(class, id, 0, r, 0, flags);
            if r >= 0 && (class == OPEN || class == OPENDIR) {
                let fd = r as usize;
                if w().fds.len() <= fd {
                    w().fds.resize(fd + 1, None);
                }
                w().fds[fd] = Some((id, true));
            }
            let r = ret(r);
            let e = *libc::__errno_location();
            sched::point(Point::Sys);
            if r < 0 {
                set_errno(e);
            }
            r
        },
    }
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let go = || sys6(libc::SYS_openat, dirfd as i64, path as i64, flags as i64, mode as i64, 0, 0);
    if !armed() {
        return ret(go()) as c_int;
    }
    let writes = flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
    if !writes && flags & libc::O_DIRECTORY == 0 {
        // plain reads (proc, sys, ...) are no concern of the model
        let p = w().resolve(dirfd, path);
        if !w().inside(&p) {
            return ret(go()) as c_int;
        }
    }
    let class = if writes { OPEN } else { OPENDIR };
    path_call(class, dirfd, path, flags as u32, writes, &go) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dirfd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dirfd, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}

fn do_write(fd: c_int, buf: *const u8, len: usize, go: &dyn Fn(usize) -> i64) -> i64 {
    let _h = Harness::enter();
    unsafe {
        sched::point(Point::Sys);
        let (class, id) = match fd {
            1 => (STDOUT, w().path_id("<stdout>")),
            2 => (STDERR, w().path_id("<stderr>")),
            _ => match w().fds.get(fd as usize) {
                Some(Some((i, true))) if w().rec.paths[*i as usize] == "<stdout>" => (STDOUT, *i),
                Some(Some((i, true))) => (WRITE, *i),
                _ => return ret(go(len)), // not a file of the simulated process
            },
        };
        let mut limit = len;
        let mut how = 0;
        match gate(class, len) {
            Gate::Fail(e, how) => {
                w().log(class, id, len, -(e as i64), how, 0);
                set_errno(e);
                return -1;
            },
            Gate::Limit(k) => {
                limit = k;
                how = 2;
            },
            Gate::Crash(k) => {
                let k = (k as usize).min(len);
                if class == STDOUT {
                    w().rec.stdout.extend_from_slice(std::slice::from_raw_parts(buf, k));
                } else if class == WRITE && k > 0 {
                    go(k);
                }
                w().log(class, id, len, k as i64, 5, 0);
                sched::crash()
            },
            Gate::Go => {},
        }
        if class == WRITE {
            if let Some(q) = w().plan.quota {
                let left = q.saturating_sub(w().used) as usize;
                if left == 0 && limit > 0 {
                    w().log(class, id, len, -(libc::ENOSPC as i64), 4, 0);
                    set_errno(libc::ENOSPC);
                    return -1;
                }
                if left < limit {
                    limit = left;
                    how = 4;
                }
            }
        }
        let r = match class {
            STDOUT => {
                w().rec.stdout.extend_from_slice(std::slice::from_raw_parts(buf, limit));
                limit as i64
            },
            STDERR => {
                w().rec.stderr.extend_from_slice(std::slice::from_raw_parts(buf, limit));
                limit as i64
            },
            _ => go(limit),
        };
        if r > 0 && class == WRITE {
            w().used += r as u64;
        }
        w().log(class, id, len, r, how, 0);
        let r = ret(r);
        let e = *libc::__errno_location();
        sched::point(Point::Sys);
        if r < 0 {
            set_errno(e);
        }
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    let go = |n: usize| sys6(libc::SYS_write, fd as i64, buf as i64, n as i64, 0, 0, 0);
    if !armed() {
        return ret(go(len)) as ssize_t;
    }
    do_write(fd, buf as *const u8, len, &go) as ssize_t
}

unsafe fn pwrite_(fd: c_int, buf: *const c_void, len: size_t, off: off_t) -> ssize_t {
    let go = |n: usize| sys6(libc::SYS_pwrite64, fd as i64, buf as i64, n as i64, off, 0, 0);
    if !armed() {
        return ret(go(len)) as ssize_t;
    }
    do_write(fd, buf as *const u8, len, &go) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, len: size_t, off: off_t) -> ssize_t {
    pwrite_(fd, buf, len, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, len: size_t, off: off_t) -> ssize_t {
    pwrite_(fd, buf, len, off)
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if !armed() {
        return ret(sys6(libc::SYS_writev, fd as i64, iov as i64, n as i64, 0, 0, 0)) as ssize_t;
    }
    let mut all: Vec<u8> = vec![];
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
    }
    let p = all.as_ptr();
    let go = |k: usize| sys6(libc::SYS_write, fd as i64, p as i64, k as i64, 0, 0, 0);
    do_write(fd, p, all.len(), &go) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    mkdirat(libc::AT_FDCWD, path, mode)
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(dirfd: c_int, path: *const c_char, mode: mode_t) -> c_int {
    let go = || sys6(libc::SYS_mkdirat, dirfd as i64, path as i64, mode as i64, 0, 0, 0);
    if !armed() {
        return ret(go()) as c_int;
    }
    path_call(MKDIR, dirfd, path, 0, true, &go) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, path, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, path, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dirfd: c_int, path: *const c_char, flags: c_int) -> c_int {
    let go = || sys6(libc::SYS_unlinkat, dirfd as i64, path as i64, flags as i64, 0, 0, 0);
    if !armed() {
        return ret(go()) as c_int;
    }
    let class = if flags & libc::AT_REMOVEDIR != 0 { RMDIR } else { UNLINK };
    path_call(class, dirfd, path, flags as u32, true, &go) as c_int
}

unsafe fn two_paths(class: u8, d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, go: &dyn Fn() -> i64) -> c_int {
    if !armed() {
        return ret(go()) as c_int;
    }
    let p1 = w().resolve(d1, a);
    if class == RENAME && !w().inside(&p1) {
        w().rec.escapes.push(format!("rename from {p1}"));
        set_errno(libc::EACCES);
        return -1;
    }
    w().path_id(&p1);
    path_call(class, d2, b, 0, true, go) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    renameat(libc::AT_FDCWD, a, libc::AT_FDCWD, b)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    two_paths(RENAME, d1, a, d2, b, &|| sys6(libc::SYS_renameat, d1 as i64, a as i64, d2 as i64, b as i64, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, f: c_int) -> c_int {
    two_paths(LINK, d1, a, d2, b, &|| {
        sys6(libc::SYS_linkat, d1 as i64, a as i64, d2 as i64, b as i64, f as i64, 0)
    })
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    let go = || sys6(libc::SYS_symlink, a as i64, b as i64, 0, 0, 0, 0);
    if !armed() {
        return ret(go()) as c_int;
    }
    path_call(LINK, libc::AT_FDCWD, b, 0, true, &go) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    let go = || sys6(libc::SYS_chmod, p as i64, mode as i64, 0, 0, 0, 0);
    if !armed() {
        return ret(go()) as c_int;
    }
    path_call(CHMOD, libc::AT_FDCWD, p, 0, true, &go) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, len: i64) -> c_int {
    let go = || sys6(libc::SYS_truncate, p as i64, len, 0, 0, 0, 0);
    if !armed() {
        return ret(go()) as c_int;
    }
    path_call(TRUNC, libc::AT_FDCWD, p, 0, true, &go) as c_int
}

unsafe fn fd_call(class: u8, fd: c_int, go: &dyn Fn() -> i64) -> c_int {
    if !armed() {
        return ret(go()) as c_int;
    }
    let id = match w().fds.get(fd as usize) {
        Some(Some((i, true))) => *i,
        _ => return ret(go()) as c_int,
    };
    let _h = Harness::enter();
    sched::point(Point::Sys);
    match gate(class, 0) {
        Gate::Fail(e, how) if class != CLOSE => {
            w().log(class, id, 0, -(e as i64), how, 0);
            set_errno(e);
            -1
        },
        Gate::Crash(k) => {
            if k > 0 {
                go();
            }
            w().log(class, id, 0, 0, 5, 0);
            sched::crash()
        },
        _ => {
            let r = go();
            if class == CLOSE {
                w().fds[fd as usize] = None;
            }
            w().log(class, id, 0, r, 0, 0);
            ret(r) as c_int
        },
    }
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    let go = || sys6(libc::SYS_chdir, p as i64, 0, 0, 0, 0, 0);
    if !armed() {
        return ret(go()) as c_int;
    }
    let to = w().resolve(libc::AT_FDCWD, p);
    let r = ret(go()) as c_int;
    if r == 0 {
        w().cwd = to;
    }
    r
}

/// Another descriptor of the same file
unsafe fn same_file(old: c_int, new: i64) -> c_int {
    if armed() && new >= 0 {
        let _h = Harness::enter();
        let e = if old == 1 {
            Some((w().path_id("<stdout>"), true))
        } else {
            w().fds.get(old as usize).copied().flatten()
        };
        if e.is_some() {
            let fd = new as usize;
            if w().fds.len() <= fd {
                w().fds.resize(fd + 1, None);
            }
            w().fds[fd] = e;
            if old != 1 {
                w().log(OPENDIR, e.unwrap().0, 0, new, 0, 0);
            }
        }
    }
    ret(new) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let r = sys6(libc::SYS_fcntl, fd as i64, cmd as i64, arg as i64, 0, 0, 0);
    if cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC {
        return same_file(fd, r);
    }
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    same_file(fd, sys6(libc::SYS_dup, fd as i64, 0, 0, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    fd_call(TRUNC, fd, &|| sys6(libc::SYS_ftruncate, fd as i64, len, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    fd_call(SYNC, fd, &|| sys6(libc::SYS_fsync, fd as i64, 0, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fd_call(SYNC, fd, &|| sys6(libc::SYS_fdatasync, fd as i64, 0, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    fd_call(CLOSE, fd, &|| sys6(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0))
}
