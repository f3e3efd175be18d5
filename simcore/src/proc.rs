//! Processes: every batch of runs in a child of its own, so that hangs and crashes of the code under test are results.
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    #[link_name = "read"]
    fn read_(fd: i32, buf: *mut u8, n: usize) -> isize;
    #[link_name = "write"]
    fn write_(fd: i32, buf: *const u8, n: usize) -> isize;
    #[link_name = "close"]
    fn close_(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    #[link_name = "open"]
    fn open_(p: *const i8, flags: i32, ...) -> i32;
    fn _exit(c: i32) -> !;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn poll(p: *mut PollFd, n: u64, timeout: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn personality(p: u64) -> i32;
    fn execv(p: *const i8, argv: *const *const i8) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ended {
    /// Ran out of its CPU time.
    Hang,
    /// Signal, exit status.
    Crash(i32, i32),
    /// Nothing the code under test can be blamed for.
    Infra(String),
}

pub struct Limits {
    pub cpu_s: u64,
    pub wall_s: u64,
    pub memory: u64,
}
impl Default for Limits {
    fn default() -> Self {
        Limits { cpu_s: 20, wall_s: 90, memory: 8 << 30 }
    }
}

static ANSWER: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
/// Ends a forked child with its result, from any of its threads.
pub fn answer(mut b: Vec<u8>) -> ! {
    b.extend(b"<done>");
    let mut i = 0;
    unsafe {
        while i < b.len() {
            let n = write_(ANSWER.load(std::sync::atomic::Ordering::SeqCst), b[i..].as_ptr(), b.len() - i);
            if n <= 0 {
                break;
            }
            i += n as usize;
        }
        _exit(0);
    }
}

/// Runs `f` in a forked child and returns what it returned.
pub fn forked(l: &Limits, f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, Ended> {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0);
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            close_(fds[0]);
            setrlimit(0, &[l.cpu_s, l.cpu_s + 5]);
            setrlimit(9, &[l.memory, l.memory]);
            setrlimit(4, &[0, 0]);
            let null = open_(c"/dev/null".as_ptr(), 1);
            if std::env::var("VERIF_VERBOSE").is_err() {
                dup2(null, 2);
            }
            ANSWER.store(fds[1], std::sync::atomic::Ordering::SeqCst);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let Ok(b) = r else { _exit(101) };
            answer(b);
        }
        close_(fds[1]);
        let mut buf = vec![0u8; 1 << 16];
        let mut all = vec![];
        let end = crate::evidence::wall() + l.wall_s as f64;
        let mut timed_out = false;
        loop {
            let left = end - crate::evidence::wall();
            let mut p = PollFd { fd: fds[0], events: 1, revents: 0 };
            if left <= 0.0 || poll(&mut p, 1, (left * 1000.0) as i32 + 1) == 0 {
                timed_out = true;
                kill(pid, 9);
                break;
            }
            let n = read_(fds[0], buf.as_mut_ptr(), buf.len());
            if n <= 0 {
                break;
            }
            all.extend(&buf[..n as usize]);
        }
        close_(fds[0]);
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        if timed_out {
            // It used little CPU time, or the limit on it would have ended it: the machine is busy.
            return Err(Ended::Infra("wall clock limit".into()));
        }
        if all.ends_with(b"<done>") {
            all.truncate(all.len() - 6);
            return Ok(all);
        }
        Err(match status & 0x7f {
            24 => Ended::Hang,
            9 => Ended::Infra("killed".into()),
            s => Ended::Crash(s, (status >> 8) & 0xff),
        })
    }
}
impl Ended {
    pub fn text(&self) -> String {
        match self {
            Ended::Hang => "does not terminate (CPU time limit)".into(),
            Ended::Crash(0, c) if *c == crate::sched::DEADLOCK => "deadlocks: every task waits for a lock".into(),
            Ended::Crash(6, _) => "aborts".into(),
            Ended::Crash(11, _) => "overflows the stack or crashes (SIGSEGV)".into(),
            Ended::Crash(s, c) => format!("ends abnormally (signal {s}, status {c})"),
            Ended::Infra(e) => e.clone(),
        }
    }
}

pub fn exit_now(code: i32) -> ! {
    unsafe { _exit(code) }
}

/// A worker process; returns its pid.
pub fn spawn(f: impl FnOnce() -> i32) -> i32 {
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let c = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(3);
            _exit(c);
        }
        pid
    }
}
pub fn wait(pid: i32) -> i32 {
    let mut status = 0;
    unsafe { waitpid(pid, &mut status, 0) };
    if status & 0x7f != 0 {
        128 + (status & 0x7f)
    } else {
        (status >> 8) & 0xff
    }
}

/// Starts this program again without address space randomisation: addresses are an input too.
pub fn fix_addresses() {
    const ADDR_NO_RANDOMIZE: u64 = 0x0040000;
    unsafe {
        let p = personality(0xffffffff);
        if p >= 0 && (p as u64) & ADDR_NO_RANDOMIZE == 0 && std::env::var("SIM_EXEC").is_err() && personality(p as u64 | ADDR_NO_RANDOMIZE) >= 0 {
            std::env::set_var("SIM_EXEC", "1");
            // malloc's caches hide M_PERTURB.
            std::env::set_var("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0");
            let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
            let mut ptrs: Vec<*const i8> = args.iter().map(|a| a.as_ptr()).collect();
            ptrs.push(std::ptr::null());
            execv(c"/proc/self/exe".as_ptr(), ptrs.as_ptr());
        }
    }
}
