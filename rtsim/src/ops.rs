//! What tasks do: each step calls the code under test, through seams.
use crate::probe::Registry;
use crate::seams::{self, enter, Ctl, Dst, File, IoPlan, MachineStopped, SharedFile, SharedPipe, SimReader, SimRng, SimSink, SimWriter, SinkLog, Src};
use crate::val::Val;
use crate::weird::Weird;
use serde::{Deserialize, Serialize};
use simcore::sched::{self, SimAbort};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fm {
    Json,
    JsonPretty,
    Yaml,
    Tlv(u8),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum RandHow {
    Range,
    RangeInclusive,
    New,
    NewInclusive,
    FromRange,
    FromRangeInclusive,
    Sampler,
    SamplerInclusive,
    Single,
    SingleInclusive,
}
pub const HOWS: [RandHow; 10] = [
    RandHow::Range,
    RandHow::RangeInclusive,
    RandHow::New,
    RandHow::NewInclusive,
    RandHow::FromRange,
    RandHow::FromRangeInclusive,
    RandHow::Sampler,
    RandHow::SamplerInclusive,
    RandHow::Single,
    RandHow::SingleInclusive,
];
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Loc {
    Own,
    Pipe(usize),
    File(usize),
    /// Through a string or slice instead of a stream.
    Text,
    /// What this task serialised last.
    Last,
    LastText,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Fmt { probe: String, val: Val, spec: usize, room: Option<usize>, torn: bool },
    WeirdFmt { probe: String, w: Weird, spec: usize, room: Option<usize>, torn: bool },
    Ser { items: Vec<(String, Val)>, fm: Fm, io: IoPlan, to: Loc },
    De { targets: Vec<String>, fm: Fm, io: IoPlan, from: Loc, bytes: Vec<u8> },
    Rand { probe: String, lo: Val, hi: Val, how: RandHow, n: u32, seed: u64, style: u8, fail_at: Option<u64> },
    Conv { which: u32, x: u64 },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step {
    pub op: Op,
    /// The n-th callback of this step panics.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub panic_at: Option<u64>,
    /// Done from within callbacks of this step.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub nested: Vec<(u64, Step)>,
}
impl Step {
    pub fn new(op: Op) -> Step {
        Step { op, panic_at: None, nested: vec![] }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Res {
    Fmt { text: String, err: bool, failed: bool, late: bool },
    Ser { done: usize, err: Option<String>, sink_failed: bool, bytes: Vec<u8> },
    De { items: Vec<Result<Val, String>>, src_failed: bool },
    Rand { out: Vec<Option<Val>>, drawn: u64, bytes: u64 },
    Conv(Vec<u64>),
    Abandoned,
    Stopped,
    Panic(String),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Done {
    pub res: Res,
    /// Callbacks this step made.
    pub calls: u64,
    pub nested: Vec<(u64, Done)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FilePlan {
    pub crash_at: Option<u64>,
}
#[derive(Default)]
pub struct World {
    pub pipes: Vec<SharedPipe>,
    pub files: Vec<SharedFile>,
}
impl World {
    pub fn new(pipes: &[usize], files: &[FilePlan]) -> World {
        World {
            pipes: pipes
                .iter()
                .enumerate()
                .map(|(i, c)| {
                    Arc::new(Mutex::new(seams::Pipe {
                        key: 1000 + i as u64,
                        buf: Default::default(),
                        cap: *c,
                        writer_gone: false,
                        reader_gone: false,
                        transferred: 0,
                    }))
                })
                .collect(),
            files: files.iter().map(|f| Arc::new(Mutex::new(File { crash_at: f.crash_at, ..Default::default() }))).collect(),
        }
    }
}
thread_local! {
    pub static WORLD: RefCell<Option<Arc<World>>> = const { RefCell::new(None) };
    static LAST: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
}
pub fn registry() -> &'static Registry {
    static R: OnceLock<Registry> = OnceLock::new();
    R.get_or_init(|| {
        let mut r = Registry::default();
        crate::systems::register(&mut r);
        r
    })
}

pub fn exec(step: &Step) -> Done {
    let nested: BTreeMap<u64, Step> = step.nested.iter().cloned().collect();
    let ctl = Rc::new(RefCell::new(Ctl { calls: 0, panic_at: step.panic_at, nested, results: vec![] }));
    let old = enter(Some(ctl.clone()));
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _simulator = crate::access::under_test(false);
        run(&step.op)
    }));
    enter(old);
    let mut c = ctl.borrow_mut();
    let res = match r {
        Ok(r) => r,
        Err(p) if p.is::<SimAbort>() => resume_unwind(p),
        Err(p) if p.is::<seams::Abandoned>() => Res::Abandoned,
        Err(p) if p.is::<MachineStopped>() => Res::Stopped,
        Err(p) => Res::Panic(sched::panic_text(p)),
    };
    Done { res, calls: c.calls, nested: std::mem::take(&mut c.results) }
}

fn source(from: &Loc, bytes: &[u8]) -> Src {
    let own = |b: &[u8]| Src::Bytes(b.to_vec(), 0);
    if let Loc::Last = from {
        return own(&LAST.with(|l| l.borrow().clone()));
    }
    WORLD.with(|w| match (from, w.borrow().as_ref()) {
        (Loc::Pipe(i), Some(w)) if *i < w.pipes.len() => Src::Pipe(w.pipes[*i].clone()),
        (Loc::File(i), Some(w)) if *i < w.files.len() => own(&w.files[*i].lock().unwrap().data),
        _ => own(bytes),
    })
}
fn sink(to: &Loc, own: &Arc<Mutex<Vec<u8>>>) -> Dst {
    WORLD.with(|w| match (to, w.borrow().as_ref()) {
        (Loc::Pipe(i), Some(w)) if *i < w.pipes.len() => Dst::Pipe(w.pipes[*i].clone()),
        (Loc::File(i), Some(w)) if *i < w.files.len() => Dst::File(w.files[*i].clone()),
        _ => Dst::Bytes(own.clone()),
    })
}

pub fn sep(fm: Fm) -> &'static [u8] {
    match fm {
        Fm::Json | Fm::JsonPretty => b"\n",
        _ => b"",
    }
}
pub fn start(fm: Fm) -> &'static [u8] {
    match fm {
        Fm::Yaml => b"---\n",
        _ => b"",
    }
}

fn sut<R>(f: impl FnOnce() -> R) -> R {
    let _on = crate::access::under_test(true);
    f()
}
pub fn run(op: &Op) -> Res {
    let reg = registry();
    let table = |n: &String| &reg.tables[reg.by[n]];
    match op {
        Op::Fmt { probe, val, spec, room, torn } => {
            let log = Arc::new(Mutex::new(SinkLog::default()));
            let mut s = SimSink { log: log.clone(), room: *room, torn: *torn };
            let r = sut(|| (table(probe).fmt)(val, *spec, &mut s));
            let l = log.lock().unwrap();
            Res::Fmt { text: l.text.clone(), err: r.is_err(), failed: l.failed, late: l.late }
        }
        Op::WeirdFmt { probe, w, spec, room, torn } => {
            let log = Arc::new(Mutex::new(SinkLog::default()));
            let mut s = SimSink { log: log.clone(), room: *room, torn: *torn };
            let r = sut(|| (reg.weird[reg.weird_by[probe]].fmt)(w.clone(), *spec, &mut s));
            let l = log.lock().unwrap();
            Res::Fmt { text: l.text.clone(), err: r.is_err(), failed: l.failed, late: l.late }
        }
        Op::Ser { items, fm, to: Loc::Text, .. } => {
            seams::seam(9);
            let mut bytes = vec![];
            for (done, (p, v)) in items.iter().enumerate() {
                match sut(|| (table(p).to_text)(v, *fm)) {
                    Ok(t) => {
                        bytes.extend(start(*fm));
                        bytes.extend(t.as_bytes());
                        bytes.extend(b"\n");
                    }
                    Err(e) => return Res::Ser { done, err: Some(e), sink_failed: false, bytes },
                }
            }
            LAST.with(|l| *l.borrow_mut() = bytes.clone());
            Res::Ser { done: items.len(), err: None, sink_failed: false, bytes }
        }
        Op::Ser { items, fm, io, to } => {
            let own = Arc::new(Mutex::new(vec![]));
            let failed = Arc::new(Mutex::new(false));
            let mut w = SimWriter::new(sink(to, &own), io, failed.clone());
            let mut done = 0;
            let mut go = |w: &mut dyn Write| -> Result<(), String> {
                for (p, v) in items {
                    w.write_all(start(*fm)).map_err(|e| e.to_string())?;
                    sut(|| (table(p).ser)(v, *fm, w))?;
                    w.write_all(sep(*fm)).map_err(|e| e.to_string())?;
                    done += 1;
                }
                w.flush().map_err(|e| e.to_string())
            };
            let r = if io.buffered {
                // BufWriter flushes again when dropped, after the error was reported.
                let mut b = std::io::BufWriter::with_capacity(1 + (io.seed % 50) as usize, &mut w);
                let r = go(&mut b);
                let _ = b.into_parts();
                r
            } else {
                go(&mut w)
            };
            let bytes = own.lock().unwrap().clone();
            LAST.with(|l| *l.borrow_mut() = bytes.clone());
            let sink_failed = *failed.lock().unwrap();
            Res::Ser { done, err: r.err(), sink_failed, bytes }
        }
        Op::De { targets, fm, from: from @ (Loc::Text | Loc::LastText), bytes, .. } => {
            seams::seam(8);
            let last = LAST.with(|l| l.borrow().clone());
            let bytes = if let Loc::LastText = from { &last } else { bytes };
            let mut items = vec![];
            for t in targets {
                let r = sut(|| (table(t).from_text)(bytes, *fm));
                let e = r.is_err();
                items.push(r);
                if e {
                    break;
                }
            }
            Res::De { items, src_failed: false }
        }
        Op::De { targets, fm, io, from, bytes } => {
            let failed = Arc::new(Mutex::new(false));
            let mut r = SimReader::new(source(from, bytes), io, failed.clone());
            let mut buffered;
            let mut r: &mut dyn Read = if io.buffered {
                buffered = std::io::BufReader::with_capacity(1 + (io.seed % 50) as usize, &mut r);
                &mut buffered
            } else {
                &mut r
            };
            let mut items = vec![];
            let mut push = |x: Result<Val, String>| {
                let ok = x.is_ok();
                items.push(x);
                ok
            };
            match fm {
                Fm::Json | Fm::JsonPretty => {
                    let mut d = serde_json::Deserializer::from_reader(&mut r as &mut dyn Read);
                    targets.iter().all(|t| push(sut(|| (table(t).json)(&mut d))));
                }
                Fm::Yaml => {
                    let mut docs = serde_yaml::Deserializer::from_reader(&mut r);
                    targets.iter().all(|t| match docs.next() {
                        Some(d) => push(sut(|| (table(t).yaml)(d))),
                        None => push(Err("no more documents".into())),
                    });
                }
                Fm::Tlv(m) => {
                    let mut s = crate::tlv::Source { r: &mut r, mode: *m };
                    targets.iter().all(|t| push(sut(|| (table(t).tlv)(&mut s))));
                }
            }
            let src_failed = *failed.lock().unwrap();
            if matches!(from, Loc::Pipe(_)) && items.len() == targets.len() && items.iter().all(|i| i.is_ok()) {
                // Whoever leaves too early breaks the pipe.
                let _ = std::io::copy(&mut r, &mut std::io::sink());
            }
            Res::De { items, src_failed }
        }
        Op::Rand { probe, lo, hi, how, n, seed, style, fail_at } => {
            let mut r = SimRng::new(*seed, *style, *fail_at);
            let out = sut(|| (table(probe).rand.expect("a float"))(*how, lo, hi, *n, &mut r));
            Res::Rand { out, drawn: r.drawn, bytes: r.bytes }
        }
        Op::Conv { which, x } => Res::Conv(sut(|| crate::conv::conv(*which, *x))),
    }
}
