//! Deterministic scheduler: tasks are OS threads, but exactly one of them runs at any time, and the one that runs next
//! is decided at yield points by the simulator (seeded, or from a recorded schedule). Simulated time only moves when
//! every task sleeps. Code under test reaches yield points through the seams it is given (sinks, sources, formats,
//! random words, storage formatting).
use crate::{Fnv, Rng};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

#[derive(Clone, Debug)]
pub enum Mode {
    /// At each yield point, switch with probability p to a random ready task. At the first accesses to anything that is
    /// shared, with probability `stall`, the task does not go on for long while others can.
    Random { rng: Rng, p: f64, stall: f64 },
    /// Switch exactly at these steps to these tasks (and when the running task cannot go on).
    Fixed(BTreeMap<u64, usize>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    Sleeping(u64),
    Blocked(u64),
    Done,
}

impl Mode {
    pub fn random(seed: u64, p: f64) -> Mode {
        let stall = *Rng::derive(seed, "stall", 0).pick(&[0.0, 0.0, 0.1, 0.3, 0.7]);
        Mode::Random { rng: Rng::new(seed), p, stall }
    }
}

struct State {
    mode: Mode,
    current: usize,
    status: Vec<Status>,
    now: u64,
    step: u64,
    cap: u64,
    switches: BTreeMap<u64, usize>,
    log: Fnv,
    abort: bool,
    deadlock: bool,
    nswitch: u64,
    /// Accesses to shared memory, and those of the running task since it was switched to.
    accesses: u64,
    spin: u64,
    /// Up to which step each task is stalled, and how often everything shared was accessed.
    stalled: Vec<u64>,
    touched: BTreeMap<u64, u32>,
}

struct Shared {
    state: Mutex<State>,
    cv: Vec<Condvar>,
}

/// Hands over when the thread is as good as gone: destructors of thread locals are part of the simulation.
struct Leaving(Arc<Shared>, usize);
impl Drop for Leaving {
    fn drop(&mut self) {
        INSIDE.with(|c| c.set(c.get() + 1));
        let mut st = self.0.lock();
        st.status[self.1] = Status::Done;
        st.log.u64(0xd0e + self.1 as u64);
        self.0.reschedule(st, self.1, true);
    }
}
thread_local! {
    // Destroyed in the reverse order of their first uses.
    static LEAVING: RefCell<Option<Leaving>> = const { RefCell::new(None) };
    static CUR: RefCell<Option<(Arc<Shared>, usize)>> = const { RefCell::new(None) };
    static INSIDE: Cell<u32> = const { Cell::new(0) };
}

/// Payload of the panic that ends the tasks of a run that exceeded its step cap or deadlocked.
pub struct SimAbort;

pub struct Outcome<T> {
    /// Result of each task; Err holds the panic message.
    pub results: Vec<Result<T, String>>,
    pub switches: BTreeMap<u64, usize>,
    pub steps: u64,
    pub context_switches: u64,
    pub accesses: u64,
    pub simulated_time: u64,
    pub log: u64,
    pub stuck: bool,
}

impl Shared {
    fn lock(&self) -> MutexGuard<'_, State> {
        self.state.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Chooses who runs next; `me` has already updated its own status.
    fn pick(&self, st: &mut State, me: usize) -> Option<usize> {
        loop {
            let ready: Vec<usize> = (0..st.status.len()).filter(|i| st.status[*i] == Status::Ready).collect();
            if !ready.is_empty() {
                let default = if st.status[me] != Status::Ready {
                    ready[0]
                } else if st.spin >= SPIN {
                    // It may be waiting for somebody else to change what it looks at.
                    ready.iter().copied().find(|t| *t > me).unwrap_or(ready[0])
                } else {
                    me
                };
                if st.spin >= SPIN {
                    st.spin = 0;
                }
                let step = st.step;
                let next = match &mut st.mode {
                    Mode::Random { rng, p, .. } => {
                        let awake: Vec<usize> = ready.iter().copied().filter(|t| st.stalled[*t] <= step).collect();
                        let from = if awake.is_empty() { &ready } else { &awake };
                        let must = st.status[me] != Status::Ready || !from.contains(&default);
                        if ready.len() > 1 && (must || rng.chance(*p)) {
                            from[rng.below(from.len())]
                        } else {
                            default
                        }
                    }
                    Mode::Fixed(m) => match m.get(&step) {
                        Some(t) if ready.contains(t) => *t,
                        _ => default,
                    },
                };
                if next != default {
                    st.switches.insert(step, next);
                }
                return Some(next);
            }
            let wake = st.status.iter().filter_map(|s| if let Status::Sleeping(t) = s { Some(*t) } else { None }).min();
            if let Some(t) = wake {
                st.now = st.now.max(t);
                for s in st.status.iter_mut() {
                    if matches!(s, Status::Sleeping(u) if *u <= t) {
                        *s = Status::Ready;
                    }
                }
                continue;
            }
            if st.status.iter().any(|s| matches!(s, Status::Blocked(_))) {
                st.deadlock = true;
                st.abort = true;
                for s in st.status.iter_mut() {
                    if matches!(s, Status::Blocked(_)) {
                        *s = Status::Ready;
                    }
                }
                continue;
            }
            return None;
        }
    }

    fn reschedule(&self, mut st: MutexGuard<'_, State>, me: usize, done: bool) {
        st.step += 1;
        if st.step > st.cap + st.accesses {
            st.abort = true;
        }
        let abort = self.switch(st, me, done);
        if abort {
            let exit = *EXIT.lock().unwrap();
            if let Some(exit) = exit {
                exit();
            }
        }
        if abort && !done && !std::thread::panicking() {
            std::panic::resume_unwind(Box::new(SimAbort));
        }
    }

    fn switch(&self, mut st: MutexGuard<'_, State>, me: usize, done: bool) -> bool {
        let next = self.pick(&mut st, me);
        if let Some(next) = next {
            if next != me {
                st.nswitch += 1;
                st.spin = 0;
                st.current = next;
                self.cv[next].notify_one();
            }
        } else {
            st.current = usize::MAX;
        }
        if !done {
            while st.current != me {
                st = self.cv[me].wait(st).unwrap_or_else(|e| e.into_inner());
            }
        }
        st.abort
    }
}

fn with<R>(f: impl FnOnce(&Arc<Shared>, usize) -> R) -> Option<R> {
    struct Leave;
    impl Drop for Leave {
        fn drop(&mut self) {
            INSIDE.with(|c| c.set(c.get() - 1));
        }
    }
    INSIDE.with(|c| c.set(c.get() + 1));
    let _leave = Leave;
    let cur = CUR.try_with(|c| c.borrow().clone()).ok().flatten();
    cur.map(|(s, i)| f(&s, i))
}

/// Exit status of a process whose tasks are blocked on each other's (or their own) locks for ever.
pub const DEADLOCK: i32 = 77;
/// Set where nobody else could ever end a wait.
pub static ALONE: AtomicBool = AtomicBool::new(false);
/// Set where a run that is stuck cannot be unwound: called to end the process.
pub static EXIT: Mutex<Option<fn() -> !>> = Mutex::new(None);
pub static FUTEX_WAITS: AtomicU64 = AtomicU64::new(0);

/// The futex system call of the tasks: what std's locks are made of. None: not a task's.
pub fn futex(addr: *const u32, op: i32, val: u32) -> Option<Result<i64, i32>> {
    let task = CUR.try_with(|c| c.try_borrow().map(|c| c.is_some()).unwrap_or(false)).unwrap_or(false);
    let inside = INSIDE.try_with(|c| c.get() > 0).unwrap_or(true);
    let alone = ALONE.load(SeqCst);
    if inside || !task && !alone {
        return None;
    }
    match op & 0x7f {
        0 | 9 => {
            if unsafe { (*(addr as *const AtomicU32)).load(SeqCst) } != val {
                return Some(Err(11));
            }
            FUTEX_WAITS.fetch_add(1, SeqCst);
            if !task || catch_unwind(|| wait_for(addr as u64 | 1 << 63, 0xf0)).is_err() {
                crate::proc::exit_now(DEADLOCK);
            }
            Some(Ok(0))
        }
        1 | 10 if task => {
            notify(addr as u64 | 1 << 63);
            Some(Ok(1))
        }
        _ => None,
    }
}

/// A yield point. `tag` goes to the event log. Outside a simulation this does nothing.
pub fn yield_point(tag: u64) {
    with(|s, me| {
        let mut st = s.lock();
        let now = st.now;
        st.log.u64(me as u64).u64(tag).u64(now);
        s.reschedule(st, me, false);
    });
}
const SPIN: u64 = 500;
const LIVELOCK: u64 = 300_000;
/// Before an access of the code under test to memory the tasks share. Does not unwind.
pub fn access(tag: u64) {
    if INSIDE.try_with(|c| c.get() > 0).unwrap_or(true) {
        return;
    }
    with(|s, me| {
        let mut st = s.lock();
        if st.abort {
            return;
        }
        st.step += 1;
        st.accesses += 1;
        st.spin += 1;
        if st.accesses > LIVELOCK {
            crate::proc::exit_now(DEADLOCK);
        }
        st.log.u64(me as u64).u64(tag);
        let State { mode, touched, stalled, step, .. } = &mut *st;
        if let Mode::Random { rng, stall, .. } = mode {
            if *stall > 0.0 {
                let n = touched.entry(tag >> 2).or_default();
                *n += 1;
                if *n <= 4 && rng.chance(*stall) {
                    stalled[me] = *step + *rng.pick(&[20, 200, 2000, 20_000]);
                }
            }
        }
        s.switch(st, me, false);
    });
}
/// Adds to the event log without yielding.
pub fn log(tag: u64) {
    with(|s, me| {
        let mut st = s.lock();
        st.log.u64(0x10c ^ ((me as u64) << 32)).u64(tag);
    });
}
pub fn sleep(ticks: u64) {
    with(|s, me| {
        let mut st = s.lock();
        let t = st.now + ticks;
        st.status[me] = Status::Sleeping(t);
        st.log.u64(me as u64).u64(t);
        s.reschedule(st, me, false);
    });
}
/// Blocks until `notify(key)`.
pub fn block(key: u64) {
    wait_for(key, key);
}
/// `tag` goes to the event log: an address, which is not an event, may be the key.
fn wait_for(key: u64, tag: u64) {
    with(|s, me| {
        let mut st = s.lock();
        st.status[me] = Status::Blocked(key);
        st.log.u64(me as u64).u64(tag);
        s.reschedule(st, me, false);
    });
}
pub fn notify(key: u64) {
    with(|s, _| {
        let mut st = s.lock();
        for x in st.status.iter_mut() {
            if *x == Status::Blocked(key) {
                *x = Status::Ready;
            }
        }
    });
}
pub fn now() -> u64 {
    with(|s, _| s.lock().now).unwrap_or(0)
}
pub fn task_id() -> usize {
    with(|_, i| i).unwrap_or(0)
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if p.is::<SimAbort>() {
        "simulation aborted".into()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub type Body<'a, T> = Box<dyn FnOnce() -> T + Send + 'a>;

/// Stack size of the simulated tasks.
const STACK: usize = 512 * 1024;

pub fn run<'a, T: Send + 'a>(mode: Mode, cap: u64, tasks: Vec<Body<'a, T>>) -> Outcome<T> {
    let n = tasks.len();
    assert!(n > 0);
    let mut mode = mode;
    let first = match &mut mode {
        Mode::Random { rng, .. } => rng.below(n),
        Mode::Fixed(m) => m.get(&0).copied().filter(|t| *t < n).unwrap_or(0),
    };
    let mut switches = BTreeMap::new();
    if first != 0 {
        switches.insert(0, first);
    }
    let shared = Arc::new(Shared {
        state: Mutex::new(State {
            mode,
            current: first,
            status: vec![Status::Ready; n],
            now: 0,
            step: 0,
            cap,
            switches,
            log: Fnv::default(),
            abort: false,
            deadlock: false,
            nswitch: 0,
            accesses: 0,
            spin: 0,
            stalled: vec![0; n],
            touched: BTreeMap::new(),
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
    });
    let results: Vec<Result<T, String>> = std::thread::scope(|scope| {
        let handles: Vec<_> = tasks
            .into_iter()
            .enumerate()
            .map(|(i, body)| {
                let shared = shared.clone();
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(scope, move || {
                        {
                            let mut st = shared.lock();
                            while st.current != i {
                                st = shared.cv[i].wait(st).unwrap_or_else(|e| e.into_inner());
                            }
                        }
                        LEAVING.with(|l| *l.borrow_mut() = Some(Leaving(shared.clone(), i)));
                        CUR.with(|c| *c.borrow_mut() = Some((shared.clone(), i)));
                        catch_unwind(AssertUnwindSafe(body)).map_err(panic_text)
                    })
                    .unwrap()
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap_or_else(|p| Err(panic_text(p)))).collect()
    });
    let st = shared.lock();
    Outcome {
        results,
        switches: st.switches.clone(),
        steps: st.step,
        context_switches: st.nswitch,
        accesses: st.accesses,
        simulated_time: st.now,
        log: st.log.0,
        stuck: st.abort || st.deadlock,
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    fn go(mode: Mode) -> Outcome<u64> {
        let tasks: Vec<Body<u64>> = (0..4)
            .map(|i| {
                Box::new(move || {
                    for k in 0..20 {
                        if k % 7 == 3 {
                            sleep(i + 1);
                        }
                        yield_point(k);
                    }
                    i
                }) as Body<u64>
            })
            .collect();
        run(mode, 10000, tasks)
    }
    #[test]
    fn replays() {
        for seed in 0..200 {
            let m = Mode::Random { rng: Rng::new(seed), p: 0.3, stall: 0.0 };
            let a = go(m.clone());
            let b = go(m);
            assert_eq!(a.log, b.log);
            let c = go(Mode::Fixed(a.switches.clone()));
            assert_eq!(a.log, c.log);
        }
    }
}
