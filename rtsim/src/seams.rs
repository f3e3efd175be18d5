//! Where the simulated world meets the code under test.
use crate::ops::{Done, Step};
use serde::{Deserialize, Serialize};
use simcore::{sched, Rng};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

/// Panic payload of callbacks that give up.
pub struct Abandoned;

#[derive(Default)]
pub struct Ctl {
    pub calls: u64,
    pub panic_at: Option<u64>,
    pub nested: BTreeMap<u64, Step>,
    pub results: Vec<(u64, Done)>,
}
thread_local! {
    static CTL: RefCell<Option<Rc<RefCell<Ctl>>>> = const { RefCell::new(None) };
}
pub fn enter(c: Option<Rc<RefCell<Ctl>>>) -> Option<Rc<RefCell<Ctl>>> {
    CTL.with(|x| std::mem::replace(&mut *x.borrow_mut(), c))
}
/// Every callback of the code under test comes through here.
pub fn seam(tag: u64) {
    let _simulator = crate::access::under_test(false);
    let cur = CTL.with(|c| c.borrow().clone());
    if let Some(c) = cur {
        let (n, abandon, nested) = {
            let mut c = c.borrow_mut();
            let n = c.calls;
            c.calls += 1;
            (n, c.panic_at == Some(n), c.nested.remove(&n))
        };
        // A buffered writer is flushed while an abandoned call unwinds; nothing can be abandoned in there.
        if let Some(s) = nested.filter(|_| !std::thread::panicking()) {
            let r = crate::ops::exec(&s);
            c.borrow_mut().results.push((n, r));
        }
        sched::yield_point(tag);
        if abandon && !std::thread::panicking() {
            std::panic::panic_any(Abandoned);
        }
    } else {
        sched::yield_point(tag);
    }
}

#[derive(Clone, Debug, PartialEq, Default, Serialize, Deserialize)]
pub struct IoPlan {
    pub seed: u64,
    /// Largest number of bytes one call transfers (0: no limit).
    pub chunk: u32,
    /// Calls interrupted, in percent.
    pub eintr: u32,
    /// Ticks a call may take.
    pub delay: u32,
    /// After this many bytes every call fails with this error.
    pub fail: Option<(u64, Errno)>,
    pub flush_fails: bool,
    /// Put a BufReader or BufWriter in between.
    pub buffered: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Errno {
    Eio,
    Enospc,
    Epipe,
    Zero,
    Eof,
}
impl Errno {
    pub fn error(self) -> io::Error {
        match self {
            Errno::Eio => io::Error::from_raw_os_error(5),
            Errno::Enospc => io::Error::from_raw_os_error(28),
            Errno::Epipe => io::Error::from_raw_os_error(32),
            Errno::Eof => io::Error::new(io::ErrorKind::UnexpectedEof, "simulated"),
            Errno::Zero => io::Error::new(io::ErrorKind::WriteZero, "simulated"),
        }
    }
}

/// A bounded pipe between two tasks.
pub struct Pipe {
    pub key: u64,
    pub buf: std::collections::VecDeque<u8>,
    pub cap: usize,
    pub writer_gone: bool,
    pub reader_gone: bool,
    pub transferred: u64,
}
pub type SharedPipe = Arc<Mutex<Pipe>>;

/// A file: what was written, and how much of it is durable.
#[derive(Default)]
pub struct File {
    pub data: Vec<u8>,
    pub durable: usize,
    /// The machine stops when this many bytes were written.
    pub crash_at: Option<u64>,
    pub crashed: bool,
}
pub type SharedFile = Arc<Mutex<File>>;

pub enum Src {
    Bytes(Vec<u8>, usize),
    Pipe(SharedPipe),
}
pub enum Dst {
    Bytes(Arc<Mutex<Vec<u8>>>),
    Pipe(SharedPipe),
    File(SharedFile),
}
#[derive(Default, Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct IoStats {
    pub short: u64,
    pub eintr: u64,
    pub errors: u64,
    pub delays: u64,
    pub blocked: u64,
    pub after_error: u64,
}
pub static STATS: Mutex<IoStats> = Mutex::new(IoStats { short: 0, eintr: 0, errors: 0, delays: 0, blocked: 0, after_error: 0 });
fn stat(f: impl FnOnce(&mut IoStats)) {
    f(&mut STATS.lock().unwrap_or_else(|e| e.into_inner()))
}

struct Line {
    plan: IoPlan,
    rng: Rng,
    done: u64,
    /// Whether an error that is not an interruption was returned.
    failed: Arc<Mutex<bool>>,
}
impl Line {
    fn new(plan: &IoPlan, failed: Arc<Mutex<bool>>) -> Line {
        Line { plan: plan.clone(), rng: Rng::new(plan.seed), done: 0, failed }
    }
    fn error(&self, e: Errno) -> io::Error {
        stat(|s| s.errors += 1);
        *self.failed.lock().unwrap() = true;
        e.error()
    }
    /// How much of `n` may be transferred now.
    fn grant(&mut self, n: usize) -> io::Result<usize> {
        seam(1);
        if self.plan.delay > 0 && self.rng.chance(0.1) {
            stat(|s| s.delays += 1);
            sched::sleep(1 + self.rng.below(self.plan.delay as usize) as u64);
        }
        if self.plan.eintr > 0 && self.rng.chance(self.plan.eintr as f64 / 100.0) {
            stat(|s| s.eintr += 1);
            return Err(io::Error::new(io::ErrorKind::Interrupted, "simulated"));
        }
        let mut n = n;
        if let Some((at, e)) = self.plan.fail {
            if self.done >= at {
                return Err(self.error(e));
            }
            n = n.min((at - self.done) as usize);
        }
        if self.plan.chunk > 0 && n > 0 {
            let k = 1 + self.rng.below(self.plan.chunk as usize);
            if k < n {
                stat(|s| s.short += 1);
                n = k;
            }
        }
        Ok(n)
    }
}

pub struct SimReader {
    src: Src,
    line: Line,
}
impl SimReader {
    pub fn new(src: Src, plan: &IoPlan, failed: Arc<Mutex<bool>>) -> SimReader {
        SimReader { src, line: Line::new(plan, failed) }
    }
}
impl io::Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let _simulator = crate::access::under_test(false);
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.line.grant(buf.len())?;
        let n = match &mut self.src {
            Src::Bytes(b, pos) => {
                let n = n.min(b.len() - *pos);
                buf[..n].copy_from_slice(&b[*pos..*pos + n]);
                *pos += n;
                n
            }
            Src::Pipe(p) => loop {
                let key = {
                    let mut p = p.lock().unwrap();
                    if !p.buf.is_empty() {
                        let n = n.min(p.buf.len());
                        for b in buf.iter_mut().take(n) {
                            *b = p.buf.pop_front().unwrap();
                        }
                        sched::notify(p.key);
                        break n;
                    }
                    if p.writer_gone {
                        break 0;
                    }
                    p.key
                };
                stat(|s| s.blocked += 1);
                sched::block(key);
            },
        };
        self.line.done += n as u64;
        Ok(n)
    }
}
impl Drop for SimReader {
    fn drop(&mut self) {
        let _simulator = crate::access::under_test(false);
        if let Src::Pipe(p) = &self.src {
            let mut p = p.lock().unwrap();
            p.reader_gone = true;
            sched::notify(p.key);
        }
    }
}

pub struct SimWriter {
    dst: Dst,
    line: Line,
}
impl SimWriter {
    pub fn new(dst: Dst, plan: &IoPlan, failed: Arc<Mutex<bool>>) -> SimWriter {
        SimWriter { dst, line: Line::new(plan, failed) }
    }
}
pub struct MachineStopped;
impl io::Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _simulator = crate::access::under_test(false);
        if buf.is_empty() {
            return Ok(0);
        }
        if *self.line.failed.lock().unwrap() {
            stat(|s| s.after_error += 1);
        }
        let n = match self.line.grant(buf.len()) {
            Err(e) if e.kind() == io::ErrorKind::WriteZero => return Ok(0),
            Err(e) => return Err(e),
            Ok(n) => n,
        };
        let n = match &mut self.dst {
            Dst::Bytes(b) => {
                b.lock().unwrap().extend(&buf[..n]);
                n
            }
            Dst::File(f) => {
                let mut f = f.lock().unwrap();
                let room = f.crash_at.map(|c| (c as usize).saturating_sub(f.data.len())).unwrap_or(usize::MAX);
                f.data.extend(&buf[..n.min(room)]);
                if n > room {
                    f.crashed = true;
                    drop(f);
                    std::panic::panic_any(MachineStopped);
                }
                n
            }
            Dst::Pipe(p) => loop {
                let key = {
                    let mut p = p.lock().unwrap();
                    if p.reader_gone {
                        return Err(self.line.error(Errno::Epipe));
                    }
                    let room = p.cap - p.buf.len();
                    if room > 0 {
                        let n = n.min(room);
                        p.buf.extend(&buf[..n]);
                        p.transferred += n as u64;
                        sched::notify(p.key);
                        break n;
                    }
                    p.key
                };
                stat(|s| s.blocked += 1);
                sched::block(key);
            },
        };
        self.line.done += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let _simulator = crate::access::under_test(false);
        seam(2);
        if self.line.plan.flush_fails {
            return Err(self.line.error(Errno::Eio));
        }
        Ok(())
    }
}
impl Drop for SimWriter {
    fn drop(&mut self) {
        let _simulator = crate::access::under_test(false);
        if let Dst::Pipe(p) = &self.dst {
            let mut p = p.lock().unwrap();
            p.writer_gone = true;
            sched::notify(p.key);
        }
    }
}

/// Where formatted text goes.
#[derive(Default, Clone, Debug, PartialEq)]
pub struct SinkLog {
    pub text: String,
    pub failed: bool,
    /// Something was written after the failure.
    pub late: bool,
}
pub struct SimSink {
    pub log: Arc<Mutex<SinkLog>>,
    /// Fails when more bytes than this have come.
    pub room: Option<usize>,
    /// Keep the part of the failing write that fits.
    pub torn: bool,
}
impl std::fmt::Write for SimSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let _simulator = crate::access::under_test(false);
        seam(3);
        let mut l = self.log.lock().unwrap();
        if l.failed {
            l.late = true;
        }
        if let Some(room) = self.room {
            let left = room.saturating_sub(l.text.len());
            if l.failed || s.len() > left {
                if self.torn && !l.failed {
                    let mut n = left;
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    l.text.push_str(&s[..n]);
                }
                l.failed = true;
                return Err(std::fmt::Error);
            }
        }
        l.text.push_str(s);
        Ok(())
    }
}

/// Panic payload of a source of randomness that fails.
pub struct SourceFailed;

/// A source of random words.
pub struct SimRng {
    pub rng: Rng,
    /// 0: random words; 1: all zero; 2: all ones; 3: mixture with extremes.
    pub style: u8,
    pub fail_at: Option<u64>,
    pub drawn: u64,
    pub bytes: u64,
}
impl SimRng {
    pub fn new(seed: u64, style: u8, fail_at: Option<u64>) -> SimRng {
        SimRng { rng: Rng::new(seed), style, fail_at, drawn: 0, bytes: 0 }
    }
    fn word(&mut self) -> u64 {
        let _simulator = crate::access::under_test(false);
        seam(4);
        if self.fail_at == Some(self.drawn) {
            self.fail_at = None;
            std::panic::panic_any(SourceFailed);
        }
        self.drawn += 1;
        let r = self.rng.next();
        match self.style {
            1 => 0,
            2 => u64::MAX,
            3 => match r % 4 {
                0 => 0,
                1 => u64::MAX,
                2 => r & 0xffff,
                _ => r,
            },
            _ => r,
        }
    }
}
impl rand::RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        self.bytes += 4;
        (self.word() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.bytes += 8;
        self.word()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        let _simulator = crate::access::under_test(false);
        for c in dest.chunks_mut(8) {
            self.bytes += c.len() as u64;
            let w = self.word().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
