//! One simulated execution: sessions of a program on the same files, each in a process of its own. It runs twice, with
//! quantities and with what they are stored as; both must see and report the same.
use crate::disk::{self, Disk, Plan};
use crate::elem::{entry, plain};
use crate::ops::{selected, Conv, How, Layout, New};
use serde::{Deserialize, Serialize};
use simcore::proc::{self, Ended, Limits};
use simcore::sched::{self, Mode};
use simcore::{Fnv, Rng};
use simdrive::{bump, verdict, Report, Verdict};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Place {
    pub ds: Option<u8>,
    pub attr: Option<u8>,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Open {
    Create,
    Exclusive,
    Write,
    Read,
    Append,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Open { file: usize, mode: Open },
    Close { file: usize },
    Flush { file: usize },
    New { file: usize, at: Place, ty: String, stored: Option<String>, new: New },
    Write { file: usize, at: Place, ty: String, shape: Vec<usize>, how: How, conv: Conv, seed: u64 },
    Read { file: usize, at: Place, ty: String, how: How, conv: Conv },
    Resize { file: usize, ds: u8, shape: Vec<usize> },
    Unlink { file: usize, ds: u8 },
    Describe { file: usize, at: Place, ty: String },
    Fill { file: usize, ds: u8, ty: String },
    Names { file: usize },
}
impl Op {
    pub fn types(&self) -> Vec<&String> {
        match self {
            Op::New { ty, stored, .. } => std::iter::once(ty).chain(stored).collect(),
            Op::Write { ty, .. } | Op::Read { ty, .. } | Op::Describe { ty, .. } | Op::Fill { ty, .. } => vec![ty],
            _ => vec![],
        }
    }
    pub fn file(&self) -> usize {
        match self {
            Op::Open { file, .. } | Op::Close { file } | Op::Flush { file } | Op::New { file, .. } | Op::Write { file, .. } | Op::Read { file, .. } => *file,
            Op::Resize { file, .. } | Op::Unlink { file, .. } | Op::Describe { file, .. } | Op::Fill { file, .. } | Op::Names { file } => *file,
        }
    }
    pub fn with_file(&self, to: usize) -> Op {
        let mut o = self.clone();
        match &mut o {
            Op::Open { file, .. } | Op::Close { file } | Op::Flush { file } | Op::New { file, .. } | Op::Write { file, .. } | Op::Read { file, .. } => *file = to,
            Op::Resize { file, .. } | Op::Unlink { file, .. } | Op::Describe { file, .. } | Op::Fill { file, .. } | Op::Names { file } => *file = to,
        }
        o
    }
    fn name(&self) -> String {
        let s = format!("{self:?}");
        s.split([' ', '{']).next().unwrap().to_string()
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum End {
    /// Files are closed.
    Close,
    /// The process is gone before they are.
    Killed,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Session {
    pub tasks: Vec<Vec<Op>>,
    pub plan: Plan,
    pub end: End,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Schedule {
    Random { seed: u64, p: f64 },
    Fixed(Vec<(u64, usize)>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub sessions: Vec<Session>,
    pub schedule: Schedule,
}
pub fn values(seed: u64, n: usize, shape: &[bool]) -> Vec<u64> {
    let mut rng = Rng::new(seed);
    (0..n * shape.len())
        .map(|i| {
            let d = shape[i % shape.len()];
            let mut x = rng.next();
            match rng.below(10) {
                0..=2 => {
                    const SPECIAL: [f64; 8] = [0.0, -0.0, 1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, 1.5];
                    let s = *rng.pick(&SPECIAL);
                    x = if d { s.to_bits() } else { (s as f32).to_bits() as u64 };
                }
                3..=5 => {
                    let s = rng.range(-1000, 1000) as f64 / 8.0;
                    x = if d { s.to_bits() } else { (s as f32).to_bits() as u64 };
                }
                _ => {}
            }
            if d {
                x
            } else {
                x & 0xffff_ffff
            }
        })
        .collect()
}
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
struct Outcome {
    task: usize,
    op: usize,
    text: String,
    floats: Vec<u64>,
    /// Not part of the comparison.
    note: String,
}
#[derive(Clone, Default, Serialize, Deserialize)]
struct Result_ {
    outcomes: Vec<Outcome>,
    ended: String,
    log: u64,
    switches: Vec<(u64, usize)>,
    time: u64,
    counts: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    files: Vec<(String, u64, i64, usize)>,
}
static OUT: Mutex<Vec<Outcome>> = Mutex::new(vec![]);

fn path(file: usize) -> String {
    format!("/sim/f{file}")
}
fn ds(k: u8) -> String {
    format!("d{k}")
}
fn attr(k: u8) -> String {
    format!("a{k}")
}
type Slots = BTreeMap<usize, hdf5::File>;
type Got = (String, Vec<u64>);
fn place(f: &hdf5::File, at: Place) -> hdf5::Result<hdf5::Container> {
    // Dataset and attribute are containers.
    let d = at.ds.map(|d| f.dataset(&ds(d))).transpose()?;
    Ok(match (d, at.attr) {
        (Some(d), None) => (*d).clone(),
        (Some(d), Some(a)) => (*d.attr(&attr(a))?).clone(),
        (None, Some(a)) => (*f.attr(&attr(a))?).clone(),
        (None, None) => return Err("no place".into()),
    })
}
fn perform(op: &Op, slots: &mut Slots, quantities: bool) -> hdf5::Result<Got> {
    let t = |s: &str| entry(if quantities { s } else { plain(s) });
    let ok = |_: ()| ("ok".to_string(), vec![]);
    let open = |slots: &Slots| slots.get(&op.file()).cloned().ok_or(hdf5::Error::from("file is not open"));
    match op {
        Op::Open { file, mode } => {
            slots.remove(file);
            let p = path(*file);
            let f = match mode {
                Open::Create => hdf5::File::create(p)?,
                Open::Exclusive => hdf5::File::create_excl(p)?,
                Open::Write => hdf5::File::open_rw(p)?,
                Open::Read => hdf5::File::open(p)?,
                Open::Append => hdf5::File::append(p)?,
            };
            slots.insert(*file, f);
            Ok(ok(()))
        }
        Op::Close { file } => {
            let f = slots.remove(file).ok_or(hdf5::Error::from("file is not open"))?;
            f.close().map(ok)
        }
        Op::Flush { .. } => open(slots)?.flush().map(ok),
        Op::New { at, ty, stored, new, .. } => {
            let f = open(slots)?;
            let n: usize = new.shape.iter().product();
            let seed = new.data.unwrap_or(new.fill.unwrap_or(0));
            let data = values(seed, n.max(1), &t(ty).shape);
            // As many as there are elements, but at least one for the fill value.
            let data = if new.fill.is_some() || new.data.is_none() { &data[..] } else { &data[..n * t(ty).shape.len()] };
            let stored = stored.as_ref().map(|s| if quantities { s.as_str() } else { plain(s) });
            match *at {
                Place { ds: Some(d), attr: None } => t(ty).ops.create(&f, &ds(d), new, stored, data).map(ok),
                Place { ds: Some(d), attr: Some(a) } => t(ty).ops.create_attr(&*f.dataset(&ds(d))?, &attr(a), new, stored, data).map(ok),
                Place { ds: None, attr: Some(a) } => t(ty).ops.create_attr(&f, &attr(a), new, stored, data).map(ok),
                _ => Err("no place".into()),
            }
        }
        Op::Write { at, ty, shape, how, conv, seed, .. } => {
            let f = open(slots)?;
            let n: usize = selected(how, shape).iter().product();
            let data = values(*seed, n, &t(ty).shape);
            t(ty).ops.write(&place(&f, *at)?, shape, how, *conv, &data).map(ok)
        }
        Op::Read { at, ty, how, conv, .. } => {
            let f = open(slots)?;
            t(ty).ops.read(&place(&f, *at)?, how, *conv).map(|(s, v)| (format!("shape {s:?}"), v))
        }
        Op::Resize { ds: d, shape, .. } => open(slots)?.dataset(&ds(*d))?.resize(shape.clone()).map(ok),
        Op::Unlink { ds: d, .. } => open(slots)?.unlink(&ds(*d)).map(ok),
        Op::Describe { at, ty, .. } => {
            let f = open(slots)?;
            let c = place(&f, *at)?;
            let mut s = t(ty).ops.describe(&c)?;
            if let Place { ds: Some(d), attr: None } = at {
                let d = f.dataset(&ds(*d))?;
                let size = if DEFLATES.load(SeqCst) { 0 } else { d.storage_size() };
                s += &format!(" {:?} {:?} {:?} {size}", d.layout(), d.chunk(), d.filters());
            }
            Ok((s, vec![]))
        }
        Op::Fill { ds: d, ty, .. } => {
            let f = open(slots)?;
            Ok(match t(ty).ops.fill(&f.dataset(&ds(*d))?)? {
                None => ("no fill value".into(), vec![]),
                Some(v) => ("fill value".into(), v),
            })
        }
        Op::Names { .. } => {
            let f = open(slots)?;
            let mut m = f.member_names()?;
            m.sort();
            let mut a = f.attr_names()?;
            a.sort();
            let size = if DEFLATES.load(SeqCst) { 0 } else { f.size() };
            Ok((format!("{m:?} {a:?} {size}"), vec![]))
        }
    }
}
/// Something in the case is compressed. How well may depend on what is between the fields of structures.
static DEFLATES: AtomicBool = AtomicBool::new(false);
fn record(o: Outcome) {
    OUT.lock().unwrap_or_else(|e| e.into_inner()).push(o);
}
fn task(me: usize, ops: &[Op], end: End, quantities: bool) {
    let mut slots = Slots::new();
    for (i, op) in ops.iter().enumerate() {
        let r = {
            let _o = crate::access::under_test(true);
            catch_unwind(AssertUnwindSafe(|| perform(op, &mut slots, quantities)))
        };
        let (text, floats, note) = match r {
            Ok(Ok((t, v))) => (t, v, String::new()),
            Ok(Err(e)) => ("error".into(), vec![], e.to_string()),
            Err(p) => ("panic".into(), vec![], sched::panic_text(p)),
        };
        record(Outcome { task: me, op: i, text, floats, note });
        sched::yield_point(i as u64);
    }
    let _o = crate::access::under_test(true);
    match end {
        End::Close => drop(slots),
        End::Killed => std::mem::forget(slots),
    }
}
fn finish(mut r: Result_, crashed: bool) -> Vec<u8> {
    let e = disk::end(crashed);
    r.outcomes = std::mem::take(&mut *OUT.lock().unwrap_or_else(|e| e.into_inner()));
    // Tasks' operations are independent of each other's.
    r.outcomes.sort_by_key(|o| (o.task, o.op));
    r.faults = e.faults;
    bump(&mut r.counts, "system calls on simulated files", e.calls);
    r.files = e.disk.files.iter().map(|(n, i)| (n.clone(), i.ino, i.mtime, i.data.len())).collect();
    let mut b = serde_json::to_vec(&r).unwrap();
    let mut out = (b.len() as u32).to_le_bytes().to_vec();
    out.append(&mut b);
    e.disk.files.values().for_each(|i| out.extend(&i.data));
    out
}
/// The process ends here and now.
pub fn crash() -> ! {
    let b = finish(Result_ { ended: "crash".into(), ..Default::default() }, true);
    proc::answer(b)
}
pub fn stuck() -> ! {
    let b = finish(Result_ { ended: "stuck".into(), ..Default::default() }, true);
    proc::answer(b)
}
fn session(c: &Case, k: usize, start: &Disk, quantities: bool) -> Vec<u8> {
    let s = &c.sessions[k];
    let deflates = |o: &Op| matches!(o, Op::New { new, .. } if new.filters.1.is_some());
    DEFLATES.store(c.sessions.iter().any(|s| s.tasks.iter().flatten().any(deflates)), SeqCst);
    disk::start(start.clone(), s.plan.clone(), 1_000_000_000 + 1000 * k as i64);
    let mode = match &c.schedule {
        Schedule::Random { seed, p } => Mode::random(*seed ^ k as u64, *p),
        Schedule::Fixed(m) => Mode::Fixed(m.iter().filter(|x| x.0 >> 40 == k as u64).map(|x| (x.0 & ((1 << 40) - 1), x.1)).collect()),
    };
    let waits = sched::FUTEX_WAITS.load(SeqCst);
    let tasks: Vec<sched::Body<()>> = s.tasks.iter().enumerate().map(|(t, ops)| Box::new(move || task(t, ops, s.end, quantities)) as sched::Body<()>).collect();
    let o = sched::run(mode, 1_000_000, tasks);
    let mut r = Result_ { ended: "done".into(), log: o.log, time: o.simulated_time, ..Default::default() };
    r.switches = o.switches.iter().map(|(a, b)| (*a | (k as u64) << 40, *b)).collect();
    if let Some(e) = o.results.iter().find_map(|x| x.as_ref().err()) {
        r.ended = format!("panic: {e}");
    }
    bump(&mut r.counts, "scheduler steps", o.steps);
    bump(&mut r.counts, "context switches", o.context_switches);
    bump(&mut r.counts, "accesses to shared memory of the code under test", o.accesses);
    bump(&mut r.counts, "waits for locks of the code under test", sched::FUTEX_WAITS.load(SeqCst) - waits);
    finish(r, s.end == End::Killed)
}
extern "C" {
    fn mallopt(p: i32, v: i32) -> i32;
}
struct Run {
    sessions: Vec<Result_>,
    disks: Vec<Disk>,
    /// The process of the last session did not answer.
    ended: Option<Ended>,
}
/// `dirt` is what fresh memory contains: nothing that is observed may depend on it.
fn run(c: &Case, quantities: bool, dirt: i32) -> Result<Run, String> {
    let mut disk = Disk::default();
    let mut out = Run { sessions: vec![], disks: vec![], ended: None };
    for k in 0..c.sessions.len() {
        let limits = Limits { cpu_s: 3, wall_s: 60, memory: 2 << 30 };
        let b = proc::forked(&limits, || {
            unsafe { mallopt(-6, dirt) };
            session(c, k, &disk, quantities)
        });
        match b {
            Err(Ended::Infra(e)) => return Err(e),
            Err(e) => {
                out.ended = Some(e);
                break;
            }
            Ok(b) => {
                let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
                let r: Result_ = serde_json::from_slice(&b[4..4 + n]).map_err(|e| e.to_string())?;
                let mut at = 4 + n;
                disk = disk.with(r.files.iter().map(|(name, ino, mtime, len)| {
                    at += len;
                    (name.clone(), *ino, *mtime, b[at - len..at].to_vec())
                }));
                out.sessions.push(r);
                out.disks.push(disk.clone());
            }
        }
    }
    Ok(out)
}
impl Run {
    fn digest(&self) -> u64 {
        let mut f = Fnv::default();
        for s in &self.sessions {
            for o in &s.outcomes {
                f.u64(o.task as u64).u64(o.op as u64).bytes(o.text.as_bytes());
                o.floats.iter().for_each(|x| _ = f.u64(*x));
            }
            f.bytes(s.ended.as_bytes());
        }
        f.bytes(format!("{:?}", self.ended).as_bytes());
        f.0
    }
}
/// Reads fields of structures that what is stored may not have: they get what happens to be in memory.
fn undefined(c: &Case, op: &Op) -> bool {
    let Op::Read { file, at, ty, .. } = op else { return false };
    let fields = |t: &String| &crate::elem::entry(t).fields;
    c.sessions.iter().flat_map(|s| s.tasks.iter().flatten()).any(|o| match o {
        Op::New { file: f, at: a, ty: t, stored, .. } => f == file && a == at && fields(ty).iter().any(|x| !fields(stored.as_ref().unwrap_or(t)).contains(x)),
        _ => false,
    })
}
fn differ(c: &Case, q: &Run, p: &Run) -> Option<Verdict> {
    for k in 0..c.sessions.len() {
        let (a, b) = (q.sessions.get(k), p.sessions.get(k));
        let (Some(a), Some(b)) = (a, b) else {
            let Some(b) = b else { return None };
            let e = q.ended.as_ref().map(|e| e.text()).unwrap_or_default();
            let key = if matches!(q.ended, Some(Ended::Hang)) { "hang" } else { "crash" };
            return Some(verdict(key, format!("Session {k} with quantities {e}; with plain values it goes through ({})", b.ended)));
        };
        for i in 0..a.outcomes.len().max(b.outcomes.len()) {
            let (x, y) = (a.outcomes.get(i), b.outcomes.get(i));
            let (Some(x), Some(y)) = (x, y) else {
                return Some(verdict("ended", format!("Session {k} ends elsewhere with quantities ({}) than with plain values ({})", a.ended, b.ended)));
            };
            if x.text == y.text && x.floats == y.floats {
                continue;
            }
            let op = &c.sessions[k].tasks[x.task][x.op];
            if x.text == y.text && undefined(c, op) {
                continue;
            }
            let show = |o: &Outcome| {
                let t: String = o.text.chars().take(600).collect();
                let n: String = o.note.chars().take(300).collect();
                format!("{t} {} {:x?}", if n.is_empty() { n } else { format!("({n})") }, o.floats.iter().take(12).collect::<Vec<_>>())
            };
            let key = match op {
                _ if x.text == "panic" => "panics",
                Op::Describe { .. } | Op::Names { .. } => "stored-type",
                _ if x.text == "error" && y.text != "error" => "refused",
                _ if y.text == "error" && x.text != "error" => "not-reported",
                Op::Read { .. } => "values",
                _ => "outcome",
            };
            return Some(verdict(
                key,
                format!("Session {k}, task {}, operation {}: {op:?}\n  with quantities: {}\n  with plain values: {}", x.task, x.op, show(x), show(y)),
            ));
        }
        if a.ended != b.ended {
            return Some(verdict("ended", format!("Session {k} ends with quantities as '{}', with plain values as '{}'", a.ended, b.ended)));
        }
    }
    None
}
/// What is known of a place: its type, whether all of it is known, the values.
#[derive(Clone, Default)]
struct Known {
    places: BTreeMap<(usize, Place), (String, Vec<u64>)>,
}
/// Whether what was written and what is read agree, where no fault can be the reason that they do not.
fn model(c: &Case, r: &Run, report: &mut Report) -> Option<String> {
    let mut now = Known::default();
    let mut durable = Known::default();
    let mut bad = None;
    for (k, s) in r.sessions.iter().enumerate() {
        let sess = &c.sessions[k];
        let mut clean = s.faults.is_empty();
        clean &= s.ended == "done" || s.ended == "crash";
        for o in &s.outcomes {
            let op = &sess.tasks[o.task][o.op];
            let file = op.file();
            let forget = |m: &mut Known, file: usize| m.places.retain(|(f, _), _| *f != file);
            let failed = o.text == "error" || o.text == "panic";
            match op {
                Op::Open { mode, .. } => {
                    if matches!(mode, Open::Create) {
                        forget(&mut now, file);
                        forget(&mut durable, file);
                    }
                }
                Op::Flush { .. } | Op::Close { .. } => {
                    if !failed {
                        forget(&mut durable, file);
                        durable.places.extend(now.places.iter().filter(|((f, _), _)| *f == file).map(|(a, b)| (*a, b.clone())));
                    }
                }
                Op::New { at, ty, new, stored, .. } => {
                    durable.places.retain(|(f, p), _| !(*f == file && p.ds == at.ds));
                    now.places.remove(&(file, *at));
                    if at.attr.is_none() {
                        now.places.retain(|(f, p), _| !(*f == file && p.ds == at.ds));
                    }
                    if let (false, Some(seed), None, None) = (failed, new.data, stored, new.fill) {
                        let e = entry(ty);
                        let v = values(seed, new.shape.iter().product(), &e.shape);
                        now.places.insert((file, *at), (plain(ty).into(), e.ops.normal(&v)));
                    }
                }
                Op::Write { at, ty, how, shape, seed, .. } => {
                    durable.places.remove(&(file, *at));
                    let old = now.places.remove(&(file, *at));
                    if let (false, Some((t, old)), true) = (failed, old, matches!(how, How::Raw | How::Whole | How::Fixed | How::Scalar)) {
                        if t == plain(ty) {
                            let e = entry(ty);
                            let v = e.ops.normal(&values(*seed, shape.iter().product(), &e.shape));
                            if v.len() == old.len() {
                                now.places.insert((file, *at), (t, v));
                            }
                        }
                    }
                }
                Op::Resize { ds, .. } | Op::Unlink { ds, .. } => {
                    let ds = Some(*ds);
                    now.places.retain(|(f, p), _| !(*f == file && p.ds == ds));
                    durable.places.retain(|(f, p), _| !(*f == file && p.ds == ds));
                }
                Op::Read { at, ty, how: How::Raw | How::Whole | How::Fixed | How::Scalar, .. } => {
                    if let (Some((t, v)), true) = (now.places.get(&(file, *at)), clean) {
                        if t == plain(ty) && !failed {
                            bump(&mut report.counts, "reads of known values", 1);
                            if *v != o.floats {
                                bad.get_or_insert(format!("session {k} operation {} of task {}: {op:?}: {:x?} instead of {v:x?}", o.op, o.task, o.floats));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        // What is still in the cache is lost.
        let closed = s.ended == "done" && sess.end == End::Close;
        if !s.faults.keys().all(|f| f == "slow disk" || f == "crash in a system call") {
            now = Known::default();

        } else if !closed || s.ended == "crash" {
            now = durable.clone();
        }
        durable = now.clone();
    }
    bad
}
pub fn execute(c: &Case) -> Report {
    let mut rep = Report::default();
    let (q, p) = match (run(c, true, 0xa5), run(c, false, 0x3c)) {
        (Ok(q), Ok(p)) => (q, p),
        (Err(e), _) | (_, Err(e)) => {
            bump(&mut rep.counts, format!("runs lost: {e}"), 1);
            return rep;
        }
    };
    let mut log = Fnv::default();
    log.u64(q.digest()).u64(p.digest());
    rep.log = log.0;
    rep.unsteady = damaged(c) || c.sessions.iter().flat_map(|s| s.tasks.iter().flatten()).any(|o| undefined(c, o));
    let mut v = differ(c, &q, &p);
    if v.is_some() {
        // A file that is damaged may make HDF5 show what happens to be in memory.
        let again = |quantities| -> bool {
            let old = if quantities { q.digest() } else { p.digest() };
            [0x5a, 0x11].iter().all(|d| run(c, quantities, *d).is_ok_and(|r| r.digest() == old))
        };
        if !again(false) || !again(true) {
            // A difference with plain values alone is HDF5's. Uninitialised memory of the code under test shows in the other.
            if again(false) && !damaged(c) {
                bump(&mut rep.counts, "differences that depend on uninitialised memory", 1);
            } else {
                bump(&mut rep.counts, "damaged files that show uninitialised memory", 1);
                v = None;
            }
        }
    }
    rep.verdict = v;
    if p.ended.is_some() {
        bump(&mut rep.counts, "damaged files on which HDF5 itself crashes or hangs", 1);
    }
    if rep.verdict.is_none() {
        if let Some(m) = model(c, &p, &mut rep) {
            bump(&mut rep.counts, "known values read differently with and without quantities", 1);
            if std::env::var("VERIF_VERBOSE").is_ok() {
                eprintln!("model: {m}");
            }
        }
        let same = q.disks.iter().zip(&p.disks).all(|(a, b)| a.files.iter().map(|(n, i)| (n, &i.data)).eq(b.files.iter().map(|(n, i)| (n, &i.data))));
        bump(&mut rep.probes, "files byte for byte those of plain values", same as u64);
    }
    for s in &q.sessions {
        rep.switches.extend(&s.switches);
        rep.time += s.time;
        for (k, n) in &s.counts {
            bump(&mut rep.counts, k.clone(), *n);
        }
        for (k, n) in &s.faults {
            bump(&mut rep.faults, k.clone(), *n);
        }
        for o in &s.outcomes {
            bump(&mut rep.counts, if o.text == "error" { "operations that report an error" } else { "operations that succeed" }, 1);
        }
        bump(&mut rep.counts, "sessions", 1);
    }
    for (k, s) in c.sessions.iter().enumerate() {
        if s.end == End::Killed {
            bump(&mut rep.faults, "process killed between operations", 1);
        }
        if let Some(r) = q.sessions.get(k) {
            for o in &r.outcomes {
                let op = &s.tasks[o.task][o.op];
                let ok = if o.text == "error" { "fails" } else { "succeeds" };
                bump(&mut rep.probes, format!("{} {ok}", op.name()), 1);
                if o.text != "error" {
                    for t in op.types() {
                        bump(&mut rep.probes, if t.contains('/') { format!("quantities as {}", plain(t)) } else { format!("plain {t}") }, 1);
                    }
                    if let Op::New { new, stored, .. } = op {
                        bump(&mut rep.probes, "empty dataset or attribute", (new.shape.contains(&0)) as u64);
                        bump(&mut rep.probes, "scalar dataset or attribute", new.shape.is_empty() as u64);
                        bump(&mut rep.probes, "chunked", matches!(new.layout, Layout::Chunked(_)) as u64);
                        bump(&mut rep.probes, "compressed or checksummed", (new.filters.1.is_some() || new.filters.2) as u64);
                        bump(&mut rep.probes, "stored as another type", stored.is_some() as u64);
                        bump(&mut rep.probes, "fill value", new.fill.is_some() as u64);
                    }
                }
            }
        }
    }
    rep
}
/// Whether something may have damaged the files.
fn damaged(c: &Case) -> bool {
    c.sessions.iter().any(|s| !s.plan.faults.is_empty() || s.plan.capacity.is_some() || s.end == End::Killed)
}
pub fn smaller(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    let mut with = |f: &mut dyn FnMut(&mut Case)| {
        let mut d = c.clone();
        f(&mut d);
        out.push(d);
    };
    for k in 0..c.sessions.len() {
        if c.sessions.len() > 1 {
            with(&mut |d| drop(d.sessions.remove(k)));
        }
        for t in 0..c.sessions[k].tasks.len() {
            if c.sessions[k].tasks.len() > 1 {
                with(&mut |d| drop(d.sessions[k].tasks.remove(t)));
            }
            let n = c.sessions[k].tasks[t].len();
            if n > 3 {
                with(&mut |d| d.sessions[k].tasks[t].truncate(n / 2));
                with(&mut |d| drop(d.sessions[k].tasks[t].drain(1..n / 2)));
            }
            for i in 0..n {
                with(&mut |d| drop(d.sessions[k].tasks[t].remove(i)));
            }
        }
        for i in 0..c.sessions[k].plan.faults.len() {
            with(&mut |d| {
                d.sessions[k].plan.faults.remove(i);
            });
        }
        with(&mut |d| d.sessions[k].plan.capacity = None);
        with(&mut |d| d.sessions[k].plan.power = None);
        with(&mut |d| d.sessions[k].plan.locked = false);
        with(&mut |d| d.sessions[k].end = End::Close);
        for t in 0..c.sessions[k].tasks.len() {
            for i in 0..c.sessions[k].tasks[t].len() {
                let op = &c.sessions[k].tasks[t][i];
                with(&mut |d| {
                    if let Op::New { new, stored, .. } = &mut d.sessions[k].tasks[t][i] {
                        *stored = None;
                        new.fill = None;
                    }
                });
                with(&mut |d| {
                    if let Op::New { new, .. } = &mut d.sessions[k].tasks[t][i] {
                        new.filters = (false, None, false);
                        new.packed = false;
                        if !new.resizable {
                            new.layout = Layout::Default;
                        }
                    }
                });
                if let Op::New { new, .. } = op {
                    if !new.shape.is_empty() && new.shape != [1] {
                        with(&mut |d| {
                            if let Op::New { new, .. } = &mut d.sessions[k].tasks[t][i] {
                                new.shape = vec![1];
                                if matches!(new.layout, Layout::Chunked(_)) {
                                    new.layout = Layout::Chunked(vec![1]);
                                }
                            }
                        });
                    }
                }
                with(&mut |d| {
                    if let Op::Read { how, .. } = &mut d.sessions[k].tasks[t][i] {
                        *how = How::Raw;
                    }
                });
                with(&mut |d| match &mut d.sessions[k].tasks[t][i] {
                    Op::Read { conv, .. } | Op::Write { conv, .. } | Op::New { new: New { conv, .. }, .. } => *conv = Conv::Soft,
                    _ => {}
                });
            }
        }
    }
    out
}
