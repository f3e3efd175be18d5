//! The file system: what libhdf5 calls of libc, for files below /sim that live in this process only.
use serde::{Deserialize, Serialize};
use simcore::{sched, Rng};
use simdrive::bump;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_void, CStr};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    /// Transfers only this part.
    Short(f64),
    Eintr,
    Eio,
    /// Transfers this part, then fails.
    Torn(f64),
    NoSpace,
    /// Takes this long.
    Slow(u64),
    /// The process ends in the middle of it: this part is transferred.
    Crash(f64),
}
impl Fault {
    pub fn name(&self) -> &'static str {
        match self {
            Fault::Short(_) => "short read or write",
            Fault::Eintr => "interrupted system call",
            Fault::Eio => "I/O error",
            Fault::Torn(_) => "torn write or read that fails",
            Fault::NoSpace => "no space left",
            Fault::Slow(_) => "slow disk",
            Fault::Crash(_) => "crash in a system call",
        }
    }
}
/// What happens to the files of a session.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    /// File, index of the call on that file, what happens.
    pub faults: Vec<(usize, u64, Fault)>,
    /// Largest size of each file.
    pub capacity: Option<u64>,
    /// When the session ends by a crash, unwritten pages are lost: seed, and how likely each is to survive.
    pub power: Option<(u64, f64)>,
    /// Locks fail.
    pub locked: bool,
}
#[derive(Clone, Default, Serialize, Deserialize)]
pub struct Disk {
    pub files: BTreeMap<String, Inode>,
    next: u64,
}
#[derive(Clone, Default, Serialize, Deserialize)]
pub struct Inode {
    pub ino: u64,
    pub data: Vec<u8>,
    pub mtime: i64,
}
impl Disk {
    /// The same with these files.
    pub fn with(&self, files: impl Iterator<Item = (String, u64, i64, Vec<u8>)>) -> Disk {
        let mut d = Disk::default();
        for (n, ino, mtime, data) in files {
            d.next = d.next.max(ino);
            d.files.insert(n, Inode { ino, data, mtime });
        }
        d
    }
}
enum Change {
    Write(u64, Vec<u8>),
    Size(u64),
}
#[derive(Default)]
struct Fs {
    disk: Disk,
    plan: Plan,
    fds: BTreeMap<i32, (String, u64, bool)>,
    next: i32,
    calls: BTreeMap<String, u64>,
    changes: BTreeMap<String, Vec<Change>>,
    time: i64,
    faults: BTreeMap<String, u64>,
    ncalls: u64,
}
static FS: Mutex<Option<Fs>> = Mutex::new(None);
const FD: i32 = 10_000;
fn fs<R>(f: impl FnOnce(&mut Fs) -> R) -> R {
    let _o = crate::access::under_test(false);
    let mut g = FS.lock().unwrap_or_else(|e| e.into_inner());
    f(g.as_mut().expect("a session"))
}
fn running() -> bool {
    let _o = crate::access::under_test(false);
    FS.lock().unwrap_or_else(|e| e.into_inner()).is_some()
}
pub fn start(disk: Disk, plan: Plan, time: i64) {
    *FS.lock().unwrap() = Some(Fs { disk, plan, time, next: FD, ..Default::default() });
}
pub struct End {
    pub disk: Disk,
    pub faults: BTreeMap<String, u64>,
    pub calls: u64,
}
pub fn end(crashed: bool) -> End {
    let mut f = FS.lock().unwrap_or_else(|e| e.into_inner()).take().expect("a session");
    if let (true, Some((seed, p))) = (crashed, f.plan.power) {
        bump(&mut f.faults, "power loss", 1);
        // Each file is as it was before the session, but for the changes that reached the disk.
        for (name, changes) in &f.changes {
            let mut rng = Rng::derive(seed, name, 0);
            let Some(i) = f.disk.files.get_mut(name) else { continue };
            let mut data = std::mem::take(&mut i.data);
            // Undone in the reverse order.
            for c in changes.iter().rev() {
                let keep = rng.chance(p);
                let torn = rng.chance(0.1);
                if keep && !torn {
                    continue;
                }
                match c {
                    Change::Write(at, old) => {
                        let from = if torn { rng.below(old.len() + 1) } else { 0 };
                        let at = *at as usize;
                        for (k, b) in old.iter().enumerate().skip(from) {
                            if at + k < data.len() {
                                data[at + k] = *b;
                            }
                        }
                    }
                    Change::Size(n) => data.resize((*n as usize).min(1 << 24), 0),
                }
            }
            i.data = data;
        }
    }
    End { disk: f.disk, faults: f.faults, calls: f.ncalls }
}
impl Fs {
    fn index(path: &str) -> usize {
        path.rsplit('/').next().and_then(|s| s.trim_start_matches('f').parse().ok()).unwrap_or(0)
    }
    /// The fault of this call on the file, if any.
    fn fault(&mut self, path: &str) -> Option<Fault> {
        self.ncalls += 1;
        self.time += 1;
        let n = self.calls.entry(path.into()).or_default();
        let at = *n;
        *n += 1;
        let file = Self::index(path);
        let f = self.plan.faults.iter().find(|(i, k, _)| *i == file && *k == at).map(|(_, _, f)| *f)?;
        Some(f)
    }
    fn met(&mut self, f: &Fault) {
        bump(&mut self.faults, f.name(), 1);
    }
}
fn errno(e: i32) -> i64 {
    -(e as i64)
}
const EINTR: i32 = 4;
const EIO: i32 = 5;
const EAGAIN: i32 = 11;
const ENOENT: i32 = 2;
const EEXIST: i32 = 17;
const ENOSPC: i32 = 28;
/// Waits and faults common to all calls; afterwards the rest of the fault is the call's business.
fn before(path: &str) -> Option<Fault> {
    let _o = crate::access::under_test(false);
    let n = fs(|f| f.ncalls);
    sched::yield_point(0xd15c ^ n << 16);
    let fault = fs(|f| f.fault(path));
    if let Some(Fault::Slow(t)) = fault {
        fs(|f| f.met(&Fault::Slow(t)));
        sched::sleep(t);
        return None;
    }
    fault
}
/// A call that moves no data.
fn control(path: &str) -> Result<(), i64> {
    match before(path) {
        Some(x @ Fault::Eintr) => {
            fs(|f| f.met(&x));
            Err(errno(EINTR))
        }
        Some(x @ (Fault::Eio | Fault::Torn(_))) => {
            fs(|f| f.met(&x));
            Err(errno(EIO))
        }
        Some(x @ Fault::Crash(_)) => {
            fs(|f| f.met(&x));
            crate::case::crash()
        }
        _ => Ok(()),
    }
}
fn part(n: usize, p: f64) -> usize {
    ((n as f64 * p) as usize).min(n)
}
fn write_at(path: &str, at: u64, b: &[u8]) -> i64 {
    let fault = before(path);
    let mut n = b.len();
    let mut result = None;
    if let Some(x) = &fault {
        match x {
            Fault::Short(p) => {
                n = part(n, *p).max(1);
                result = Some(n as i64);
            }
            Fault::Eintr => (n, result) = (0, Some(errno(EINTR))),
            Fault::Eio => (n, result) = (0, Some(errno(EIO))),
            Fault::NoSpace => (n, result) = (0, Some(errno(ENOSPC))),
            Fault::Torn(p) => (n, result) = (part(n, *p), Some(errno(EIO))),
            Fault::Crash(p) => n = part(n, *p),
            Fault::Slow(_) => {}
        }
    }
    let r = fs(|f| {
        if let Some(x) = &fault {
            f.met(x);
        }
        if let Some(c) = f.plan.capacity {
            let room = c.saturating_sub(at) as usize;
            if n > room && n > 0 {
                n = room;
                bump(&mut f.faults, "disk full", 1);
                result = Some(if n == 0 { errno(ENOSPC) } else { n as i64 });
            }
        }
        let time = f.time;
        let Some(i) = f.disk.files.get_mut(path) else { return errno(EIO) };
        let log = f.changes.entry(path.into()).or_default();
        let end = at as usize + n;
        // Corrupt files may ask for anything.
        if end > 1 << 26 {
            return errno(ENOSPC);
        }
        if n > 0 {
            if end > i.data.len() {
                log.push(Change::Size(i.data.len() as u64));
                i.data.resize(end, 0);
            }
            log.push(Change::Write(at, i.data[at as usize..end].to_vec()));
            i.data[at as usize..end].copy_from_slice(&b[..n]);
            i.mtime = time;
        }
        result.unwrap_or(n as i64)
    });
    if let Some(Fault::Crash(_)) = fault {
        crate::case::crash();
    }
    r
}
fn read_at(path: &str, at: u64, b: &mut [u8]) -> i64 {
    let fault = before(path);
    let r = fs(|f| {
        if let Some(x) = &fault {
            if !matches!(x, Fault::NoSpace) {
                f.met(x);
            }
        }
        let Some(i) = f.disk.files.get(path) else { return errno(EIO) };
        let from = (at as usize).min(i.data.len());
        let mut n = b.len().min(i.data.len() - from);
        let mut result = None;
        match &fault {
            Some(Fault::Short(p)) if n > 0 => n = part(n, *p).max(1),
            Some(Fault::Eintr) => (n, result) = (0, Some(errno(EINTR))),
            Some(Fault::Eio) => (n, result) = (0, Some(errno(EIO))),
            Some(Fault::Torn(p)) => (n, result) = (part(n, *p), Some(errno(EIO))),
            _ => {}
        }
        b[..n].copy_from_slice(&i.data[from..from + n]);
        result.unwrap_or(n as i64)
    });
    if let Some(Fault::Crash(_)) = fault {
        crate::case::crash();
    }
    r
}

// ---- libc ----

extern "C" {
    fn __errno_location() -> *mut i32;
}
fn answer(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        unsafe { *__errno_location() = -r as i32 };
        -1
    } else {
        r
    }
}
use crate::interpose::raw;
const AT_FDCWD: i64 = -100;
unsafe fn sim<'a>(p: *const c_char) -> Option<&'a str> {
    let s = CStr::from_ptr(p).to_str().ok()?;
    (s.starts_with("/sim/") && running()).then_some(s)
}
fn file(fd: i32) -> Option<(String, u64)> {
    if fd < FD {
        return None;
    }
    fs(|f| f.fds.get(&fd).map(|(p, at, _)| (p.clone(), *at)))
}
const O_CREAT: i32 = 0o100;
const O_EXCL: i32 = 0o200;
const O_TRUNC: i32 = 0o1000;
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: i32, mode: u32) -> i32 {
    let Some(path) = sim(p) else { return answer(raw(257, AT_FDCWD, p as i64, flags as i64, mode as i64, 0, 0)) as i32 };
    if let Err(e) = control(path) {
        return answer(e) as i32;
    }
    let r = fs(|f| {
        let there = f.disk.files.contains_key(path);
        if !there && flags & O_CREAT == 0 {
            return errno(ENOENT);
        }
        if there && flags & (O_CREAT | O_EXCL) == O_CREAT | O_EXCL {
            return errno(EEXIST);
        }
        if !there {
            f.disk.next += 1;
            let i = Inode { ino: f.disk.next, data: vec![], mtime: f.time };
            f.disk.files.insert(path.into(), i);
        }
        if flags & O_TRUNC != 0 {
            let i = f.disk.files.get_mut(path).unwrap();
            let old = std::mem::take(&mut i.data);
            let log = f.changes.entry(path.into()).or_default();
            log.push(Change::Write(0, old.clone()));
            log.push(Change::Size(old.len() as u64));
        }
        f.next += 1;
        f.fds.insert(f.next, (path.into(), 0, flags & 3 != 0));
        f.next as i64
    });
    answer(r) as i32
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    let Some((path, _)) = file(fd) else { return answer(raw(3, fd as i64, 0, 0, 0, 0, 0)) as i32 };
    let r = control(&path);
    fs(|f| f.fds.remove(&fd));
    answer(r.err().unwrap_or(0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: i32, b: *mut u8, n: usize, at: i64) -> isize {
    let Some((path, _)) = file(fd) else { return answer(raw(17, fd as i64, b as i64, n as i64, at, 0, 0)) as isize };
    answer(read_at(&path, at as u64, std::slice::from_raw_parts_mut(b, n))) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: i32, b: *const u8, n: usize, at: i64) -> isize {
    let Some((path, _)) = file(fd) else { return answer(raw(18, fd as i64, b as i64, n as i64, at, 0, 0)) as isize };
    answer(write_at(&path, at as u64, std::slice::from_raw_parts(b, n))) as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    let Some((path, at)) = file(fd) else { return answer(raw(0, fd as i64, b as i64, n as i64, 0, 0, 0)) as isize };
    let r = read_at(&path, at, std::slice::from_raw_parts_mut(b, n));
    if r > 0 {
        fs(|f| f.fds.get_mut(&fd).unwrap().1 += r as u64);
    }
    answer(r) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    let Some((path, at)) = file(fd) else { return answer(raw(1, fd as i64, b as i64, n as i64, 0, 0, 0)) as isize };
    let r = write_at(&path, at, std::slice::from_raw_parts(b, n));
    if r > 0 {
        fs(|f| f.fds.get_mut(&fd).unwrap().1 += r as u64);
    }
    answer(r) as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, at: i64, whence: i32) -> i64 {
    let Some((path, old)) = file(fd) else { return answer(raw(8, fd as i64, at, whence as i64, 0, 0, 0)) };
    fs(|f| {
        let to = match whence {
            0 => at,
            1 => old as i64 + at,
            _ => f.disk.files[&path].data.len() as i64 + at,
        };
        f.fds.get_mut(&fd).unwrap().1 = to as u64;
        to
    })
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, n: i64) -> i32 {
    let Some((path, _)) = file(fd) else { return answer(raw(77, fd as i64, n, 0, 0, 0, 0)) as i32 };
    if let Err(e) = control(&path) {
        return answer(e) as i32;
    }
    let r = fs(|f| {
        if n as u64 > f.plan.capacity.unwrap_or(1 << 26) {
            bump(&mut f.faults, "disk full", 1);
            return errno(ENOSPC);
        }
        let i = f.disk.files.get_mut(&path).unwrap();
        let log = f.changes.entry(path.clone()).or_default();
        if (n as usize) < i.data.len() {
            log.push(Change::Write(n as u64, i.data[n as usize..].to_vec()));
        }
        log.push(Change::Size(i.data.len() as u64));
        i.data.resize(n as usize, 0);
        i.mtime = f.time;
        0
    });
    answer(r) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    let Some((path, _)) = file(fd) else { return answer(raw(74, fd as i64, 0, 0, 0, 0, 0)) as i32 };
    if let Err(e) = control(&path) {
        return answer(e) as i32;
    }
    fs(|f| f.changes.remove(&path));
    0
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: i32, op: i32) -> i32 {
    let Some((path, _)) = file(fd) else { return answer(raw(73, fd as i64, op as i64, 0, 0, 0, 0)) as i32 };
    if let Err(e) = control(&path) {
        return answer(e) as i32;
    }
    let r = fs(|f| {
        if f.plan.locked && op & 8 == 0 {
            bump(&mut f.faults, "lock held by somebody else", 1);
            return errno(EAGAIN);
        }
        0
    });
    answer(r) as i32
}
/// The kernel's, on x86_64.
#[repr(C)]
pub struct Stat {
    dev: u64,
    ino: u64,
    nlink: u64,
    mode: u32,
    uid: u32,
    gid: u32,
    pad: u32,
    rdev: u64,
    size: i64,
    blksize: i64,
    blocks: i64,
    times: [i64; 6],
    unused: [i64; 3],
}
unsafe fn fill(path: &str, s: *mut Stat) -> i64 {
    fs(|f| {
        let Some(i) = f.disk.files.get(path) else { return errno(ENOENT) };
        *s = Stat {
            dev: 77,
            ino: i.ino,
            nlink: 1,
            mode: 0o100644,
            uid: 0,
            gid: 0,
            pad: 0,
            rdev: 0,
            size: i.data.len() as i64,
            blksize: 4096,
            blocks: i.data.len() as i64 / 512,
            times: [i.mtime, 0, i.mtime, 0, i.mtime, 0],
            unused: [0; 3],
        };
        0
    })
}
unsafe fn stat_path(p: *const c_char, s: *mut Stat, flags: i64) -> i32 {
    let Some(path) = sim(p) else { return answer(raw(262, AT_FDCWD, p as i64, s as i64, flags, 0, 0)) as i32 };
    if let Err(e) = control(path) {
        return answer(e) as i32;
    }
    answer(fill(path, s)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, s: *mut Stat) -> i32 {
    stat_path(p, s, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, s: *mut Stat) -> i32 {
    stat_path(p, s, 0x100)
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: i32, s: *mut Stat) -> i32 {
    let Some((path, _)) = file(fd) else { return answer(raw(5, fd as i64, s as i64, 0, 0, 0, 0)) as i32 };
    if let Err(e) = control(&path) {
        return answer(e) as i32;
    }
    answer(fill(&path, s)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: i32) -> i32 {
    let Some(path) = sim(p) else { return answer(raw(21, p as i64, mode as i64, 0, 0, 0, 0)) as i32 };
    answer(if fs(|f| f.disk.files.contains_key(path)) { 0 } else { errno(ENOENT) }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    // The clock of the machine never gets into a simulated file.
    let now = match running() {
        true => fs(|f| f.time),
        false => raw(201, 0, 0, 0, 0, 0, 0),
    };
    if !t.is_null() {
        *t = now;
    }
    now
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut [i64; 2], z: *mut c_void) -> i32 {
    if running() && !t.is_null() {
        *t = [fs(|f| f.time), 0];
        return 0;
    }
    answer(raw(96, t as i64, z as i64, 0, 0, 0, 0)) as i32
}
