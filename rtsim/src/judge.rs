//! Decides whether what happened is what the property allows.
use crate::case::{Case, Ran};
use crate::info::{denote, matches, probe, same_dims, units, Denoted, Probe, Units};
use crate::ops::{Done, Fm, Loc, Op, RandHow, Res, Step};
use crate::probe::spec_display;
use crate::seams::{Abandoned, SimReader, SimRng, SimSink, SinkLog, Src};
use crate::tlv::Content;
use crate::val::{Storage, Val};
use rand::distributions::uniform::SampleUniform;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Verdict {
    pub key: String,
    pub what: String,
}
fn bad(key: &str, what: String) -> Option<Verdict> {
    Some(Verdict { key: key.into(), what })
}
pub fn show(s: &str) -> String {
    format!("{:?}", if s.len() > 300 { s.chars().take(300).collect::<String>() + "..." } else { s.to_string() })
}

pub fn judge(c: &Case, r: &Ran, alone: &[Vec<Alone>]) -> Option<Verdict> {
    if r.stuck {
        return bad("stuck", format!("the tasks stop making progress after {} steps though nothing holds them up", r.steps));
    }
    if let Some(e) = &r.lost {
        return bad("lost", format!("a task ended by a panic: {e}"));
    }
    match c.property.as_str() {
        "C05" => c05(c, r),
        "C06" => each(c, r, c06),
        "C07" => each(c, r, c07),
        "C08" => each(c, r, c08),
        "C11" => c11(c, r, alone),
        _ => None,
    }
}
fn each(c: &Case, r: &Ran, f: fn(&Step, &Done) -> Option<Verdict>) -> Option<Verdict> {
    c.tasks.iter().zip(&r.done).flat_map(|(t, d)| t.iter().zip(d)).find_map(|(s, d)| f(s, d))
}

// C05

fn disturbed(s: &Step, io: &crate::seams::IoPlan) -> bool {
    s.panic_at.is_some() || io.fail.is_some() || io.flush_fails
}
fn c05(c: &Case, r: &Ran) -> Option<Verdict> {
    // The writer of every place, as (items, format, done, complete).
    let mut writers: Vec<(Loc, Option<usize>, &Vec<(String, Val)>, bool)> = vec![];
    for (t, (steps, done)) in c.tasks.iter().zip(&r.done).enumerate() {
        for (s, d) in steps.iter().zip(done) {
            if let Op::Ser { items, fm, io, to } = &s.op {
                let mut hard = disturbed(s, io);
                if let Loc::File(i) = to {
                    hard |= c.files.get(*i).is_some_and(|f| f.crash_at.is_some());
                }
                if let Loc::Pipe(_) = to {
                    // A reader that gives up breaks the pipe.
                    hard |= c.tasks.iter().flatten().any(|x| match &x.op {
                        Op::De { from, io, targets, .. } if from == to => {
                            disturbed(x, io) || targets.len() < items.len() || targets.iter().zip(items).any(|(a, b)| *a != b.0)
                        }
                        _ => false,
                    });
                }
                match &d.res {
                    Res::Ser { err, sink_failed, .. } => {
                        if err.is_some() && !sink_failed {
                            return bad("refuses-to-serialise", format!("serialising {items:?} as {fm:?} fails without an I/O error: {err:?}"));
                        }
                        if err.is_none() && *sink_failed {
                            return bad("write-error-lost", format!("serialising {items:?} as {fm:?}: an I/O error of the sink is not reported"));
                        }
                        if err.is_some() && !hard {
                            return bad("write-fails", format!("serialising {items:?} as {fm:?} fails though no fault was injected: {err:?}"));
                        }
                    }
                    Res::Abandoned | Res::Stopped if hard => {}
                    x => return bad("serialise-panics", format!("serialising {items:?} as {fm:?}: {x:?}")),
                }
                let complete = !hard;
                let own = matches!(to, Loc::Own | Loc::Text);
                writers.push((to.clone(), own.then_some(t), items, complete));
            }
            let Op::De { targets, fm, io, from, .. } = &s.op else { continue };
            let Some(w) = (match from {
                // The writer may come later in the list of tasks.
                Loc::Pipe(_) | Loc::File(_) => find_writer(c, from),
                _ => writers.iter().rev().find(|w| w.1 == Some(t)).map(|w| (w.2, w.3)),
            }) else {
                continue;
            };
            let (items, complete) = w;
            let (got, src_failed) = match &d.res {
                Res::De { items, src_failed } => (items, *src_failed),
                Res::Abandoned if s.panic_at.is_some() => continue,
                x => return bad("deserialise-panics", format!("reading {targets:?} as {fm:?}: {x:?}")),
            };
            let whole = complete && !disturbed(s, io);
            for (i, g) in got.iter().enumerate() {
                let Some((p, v)) = items.get(i) else {
                    if g.is_ok() {
                        return bad("invented", format!("reading {targets:?} as {fm:?}: element {i} was never written, but is read as {g:?}"));
                    }
                    continue;
                };
                let same = *p == targets[i];
                match g {
                    // Half of a plain YAML scalar may be a whole quantity.
                    Ok(_) if *fm == Fm::Yaml && !complete => {}
                    Ok(g) if same && !g.same(v) => {
                        return bad("changed", format!("{} written as {p} ({fm:?}, element {i} of {}) is read back as {}", v.show(), items.len(), g.show()));
                    }
                    Ok(g) if !same => {
                        return bad("wrong-dimension", format!("{} written as {p} ({fm:?}) is accepted as {} and becomes {}", v.show(), targets[i], g.show()));
                    }
                    Err(e) if same && whole => {
                        return bad("refused", format!("{} written as {p} ({fm:?}, element {i} of {}) cannot be read back: {e}", v.show(), items.len()));
                    }
                    _ => {}
                }
            }
            if src_failed && got.iter().all(|g| g.is_ok()) {
                return bad("read-error-lost", format!("reading {targets:?} as {fm:?}: an I/O error of the source is not reported"));
            }
        }
    }
    None
}
type Writer<'a> = (&'a Vec<(String, Val)>, bool);
fn find_writer<'a>(c: &'a Case, from: &Loc) -> Option<Writer<'a>> {
    for steps in &c.tasks {
        for s in steps {
            if let Op::Ser { items, io, to, .. } = &s.op {
                if to == from {
                    let crash = matches!(to, Loc::File(i) if c.files.get(*i).is_some_and(|f| f.crash_at.is_some()));
                    return Some((items, !disturbed(s, io) && !crash));
                }
            }
        }
    }
    None
}

// C06

/// What a format delivers for one item, by the format's own decoder.
enum Delivered {
    Text(String),
    /// The number, and the closest f32.
    Number(f64, f32),
    Other,
    /// Only the right value or an error.
    Maybe(Box<Delivered>),
}
fn from_json(v: serde_json::Value) -> Delivered {
    match v {
        serde_json::Value::String(s) => Delivered::Text(s),
        serde_json::Value::Number(n) => Delivered::Maybe(Box::new(match (n.as_i64(), n.as_u64(), n.as_f64()) {
            (Some(x), ..) => Delivered::Number(x as f64, x as f32),
            (_, Some(x), _) => Delivered::Number(x as f64, x as f32),
            (.., Some(x)) => Delivered::Number(x, x as f32),
            _ => Delivered::Other,
        })),
        _ => Delivered::Other,
    }
}
fn from_yaml(s: String) -> Delivered {
    Delivered::Text(s)
}
fn from_tlv(c: Content) -> Delivered {
    match c {
        Content::Str(s) => Delivered::Text(s),
        Content::Char(c) => Delivered::Maybe(Box::new(Delivered::Text(c.to_string()))),
        Content::I(x) => Delivered::Number(x as f64, x as f32),
        Content::U(x) => Delivered::Number(x as f64, x as f32),
        Content::D(x) => Delivered::Number(x, x as f32),
        Content::F(x) => Delivered::Number(x as f64, x as f32),
        Content::Bytes(b) => match String::from_utf8(b) {
            Ok(s) => Delivered::Maybe(Box::new(Delivered::Text(s))),
            Err(_) => Delivered::Other,
        },
        Content::Some(c) => Delivered::Maybe(Box::new(from_tlv(*c))),
        Content::Seq(_) | Content::Map(_) | Content::Bool(_) | Content::Unit | Content::None => Delivered::Other,
    }
}
fn twin(fm: Fm, io: &crate::seams::IoPlan, from: &Loc, bytes: &[u8], n: usize) -> Vec<Result<Delivered, String>> {
    let mut out = vec![];
    if *from == Loc::Text {
        out.push(match fm {
            Fm::Json => serde_json::from_slice(bytes).map(from_json).map_err(|e| e.to_string()),
            Fm::JsonPretty => std::str::from_utf8(bytes)
                .map_err(|e| e.to_string())
                .and_then(|s| serde_json::from_str(s).map(from_json).map_err(|e| e.to_string())),
            Fm::Yaml => serde_yaml::from_slice::<String>(bytes).map(from_yaml).map_err(|e| e.to_string()),
            Fm::Tlv(_) => serde_json::from_slice::<serde_json::Value>(bytes).map(from_json).map_err(|e| e.to_string()),
        });
        while out.len() < n {
            let again = twin(fm, io, from, bytes, 1).pop().unwrap();
            out.push(again);
        }
        return out;
    }
    let mut r = SimReader::new(Src::Bytes(bytes.to_vec(), 0), io, Arc::new(Mutex::new(false)));
    let r: &mut dyn std::io::Read = &mut r;
    match fm {
        Fm::Json | Fm::JsonPretty => {
            let mut d = serde_json::Deserializer::from_reader(r);
            for _ in 0..n {
                out.push(serde_json::Value::deserialize(&mut d).map(from_json).map_err(|e| e.to_string()));
            }
        }
        Fm::Yaml => {
            let mut docs = serde_yaml::Deserializer::from_reader(r);
            for _ in 0..n {
                out.push(match docs.next() {
                    Some(d) => String::deserialize(d).map(from_yaml).map_err(|e| e.to_string()),
                    None => Err("no more documents".into()),
                });
            }
        }
        Fm::Tlv(_) => {
            for _ in 0..n {
                out.push(Content::get(r, 0).map(from_tlv).map_err(|e| e.to_string()));
            }
        }
    }
    out
}
fn allowed(d: &Delivered, p: &Probe, fm: Fm, got: &Result<Val, String>, maybe: bool) -> Option<Verdict> {
    match d {
        Delivered::Maybe(d) => allowed(d, p, fm, got, true),
        Delivered::Other => match got {
            Ok(v) => bad("accepts-nonsense", format!("something that is neither text nor a number is read as {}", v.show())),
            Err(_) => None,
        },
        Delivered::Number(x, single) => match got {
            Ok(v) if !p.st.scalar() || !p.dims.is_empty() => {
                bad("number-without-units", format!("the bare number {x} is read as {} of dimension {:?}", v.show(), p.dims))
            }
            Ok(v) => {
                // Rounding twice, by way of f64, is as good.
                let right: &[f64] = if p.st.single() { &[*single as f64, *x as f32 as f64] } else { &[*x] };
                (!right.iter().any(|e| v.f64(0).to_bits() == e.to_bits() || (e.is_nan() && v.f64(0).is_nan())))
                    .then(|| Verdict { key: "wrong-number".into(), what: format!("the number {x} is read as {}", v.show()) })
            }
            Err(e) if p.st.scalar() && p.dims.is_empty() && !maybe => bad("number-refused", format!("the number {x} is refused for a dimensionless scalar: {e}")),
            Err(_) => None,
        },
        Delivered::Text(t) => match (denote(t, p), got) {
            (Denoted::Unknown, _) => None,
            (Denoted::Not(w), Ok(v)) => {
                if fm == Fm::Yaml && p.st.scalar() && p.dims.is_empty() {
                    // What YAML calls a number.
                    if let Ok(serde_yaml::Value::Number(n)) = serde_yaml::from_str::<serde_yaml::Value>(t) {
                        let x = n.as_f64().unwrap_or(f64::NAN);
                        let single = n.as_i64().map(|x| x as f32).or(n.as_u64().map(|x| x as f32)).unwrap_or(x as f32);
                        return allowed(&Delivered::Number(x, single), p, fm, got, true);
                    }
                }
                bad("accepts-wrong-text", format!("{} denotes no quantity of dimension {:?} ({w}), but is read as {}", show(t), p.dims, v.show()))
            }
            (Denoted::Not(_), Err(_)) => None,
            (Denoted::Value { xs, factor, tol, exact, .. }, Ok(v)) => (!matches(v, &xs, factor, tol, exact)).then(|| Verdict {
                key: "wrong-value".into(),
                what: format!("{} denotes {xs:?} times {factor:e}, but is read as {}", show(t), v.show()),
            }),
            (Denoted::Value { strict, .. }, Err(e)) => {
                (strict && !maybe).then(|| Verdict { key: "refuses-right-text".into(), what: format!("{} is refused: {e}", show(t)) })
            }
        },
    }
}
fn c06(s: &Step, d: &Done) -> Option<Verdict> {
    let Op::De { targets, fm, io, from, bytes } = &s.op else { return None };
    let ctx = |v: Verdict| Verdict {
        key: v.key,
        what: format!("{fm:?} input {} for {targets:?}, {io:?}:\n{}", show(&String::from_utf8_lossy(bytes)), v.what),
    };
    let (items, src_failed) = match &d.res {
        Res::De { items, src_failed } => (items, *src_failed),
        x => return bad("panics", format!("reading {targets:?} from {fm:?} input {} with {io:?}: {x:?}", show(&String::from_utf8_lossy(bytes)))),
    };
    let t = twin(*fm, io, from, bytes, items.len());
    for (i, got) in items.iter().enumerate() {
        let p = probe(&targets[i]);
        let v = match &t[i] {
            Err(e) => match got {
                Ok(v) => bad("format-error-lost", format!("element {i} is read as {} though the input fails there: {e}", v.show())),
                Err(_) => None,
            },
            Ok(d) => allowed(d, &p, *fm, got, false),
        };
        if let Some(v) = v {
            return Some(ctx(Verdict { key: v.key, what: format!("element {i} ({}): {}", targets[i], v.what) }));
        }
    }
    if src_failed && items.iter().all(|x| x.is_ok()) {
        return Some(ctx(Verdict { key: "read-error-lost".into(), what: "an I/O error is not reported".into() }));
    }
    None
}

// C07

/// What the storage type itself writes: Err(true): it panicked.
fn bare(st: &dyn Fn(&mut SimSink) -> std::fmt::Result) -> (String, Result<(), bool>) {
    let log = Arc::new(Mutex::new(SinkLog::default()));
    let mut s = SimSink { log: log.clone(), room: None, torn: false };
    let r = match catch_unwind(AssertUnwindSafe(|| st(&mut s))) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(_)) => Err(false),
        Err(p) if p.is::<Abandoned>() => Err(true),
        Err(p) => std::panic::resume_unwind(p),
    };
    let t = log.lock().unwrap().text.clone();
    (t, r)
}
pub fn bare_text(v: &Val, spec: usize, s: &mut SimSink) -> std::fmt::Result {
    match v.st {
        Storage::F64 => spec_display(&v.raw(0), spec, s),
        Storage::F32 => spec_display(&v.f32(0), spec, s),
        Storage::Vec2 => spec_display(&glam::Vec2::new(v.f32(0), v.f32(1)), spec, s),
        Storage::DVec2 => spec_display(&glam::DVec2::new(v.raw(0), v.raw(1)), spec, s),
        Storage::Vec3 => spec_display(&glam::Vec3::new(v.f32(0), v.f32(1), v.f32(2)), spec, s),
        Storage::DVec3 => spec_display(&glam::DVec3::new(v.raw(0), v.raw(1), v.raw(2)), spec, s),
    }
}
fn right_suffix(p: &Probe, suffix: &str) -> Result<(), String> {
    if suffix.is_empty() {
        return if p.dims.is_empty() { Ok(()) } else { Err("no unit".into()) };
    }
    let Some(u) = suffix.strip_prefix(' ') else { return Err("no space before the unit".into()) };
    if u.is_empty() || u.trim() != u {
        return Err("stray space".into());
    }
    match units(p.system, u) {
        Units::Unknown => Ok(()),
        Units::Not(w) => Err(w),
        Units::Product { dims, factor, tol, .. } => {
            if !same_dims(&dims, p.dims) {
                Err(format!("denotes dimension {dims:?}, but the quantity's is {:?}", p.dims))
            } else if (factor - 1.0).abs() > 2.0 * tol {
                Err(format!("denotes a factor of {factor:e}"))
            } else {
                Ok(())
            }
        }
    }
}
fn c07(s: &Step, d: &Done) -> Option<Verdict> {
    let (name, spec, room, number, ended) = match &s.op {
        Op::Fmt { probe, val, spec, room, .. } => {
            let (t, r) = bare(&|k| bare_text(val, *spec, k));
            (probe, *spec, *room, t, r)
        }
        Op::WeirdFmt { probe, w, spec, room, .. } => {
            let (t, r) = bare(&|k| spec_display(w, *spec, k));
            (probe, *spec, *room, t, r)
        }
        _ => return None,
    };
    let p = probe(name);
    let about = format!("{name} formatted with {} into a sink with room for {room:?} bytes", crate::probe::SPECS[spec]);
    let (text, err, failed, late) = match &d.res {
        Res::Fmt { text, err, failed, late } => (text, *err, *failed, *late),
        Res::Abandoned if ended == Err(true) => return None,
        x => return bad("panics", format!("{about}: {x:?}")),
    };
    if late {
        return bad("writes-after-failure", format!("{about}: writes after the sink has failed (wrote {})", show(text)));
    }
    if failed && !err {
        return bad("failure-lost", format!("{about}: the sink's failure is not returned (wrote {})", show(text)));
    }
    if ended == Err(true) && !err {
        return bad("panic-lost", format!("{about}: the storage's panic is swallowed (wrote {})", show(text)));
    }
    if ended == Err(false) && !err {
        return bad("failure-lost", format!("{about}: the storage's failure is not returned (wrote {})", show(text)));
    }
    if err && !failed && ended.is_ok() {
        return bad("fails-for-no-reason", format!("{about}: fails though neither sink nor storage does (wrote {})", show(text)));
    }
    if !number.starts_with(text.as_str()) && !text.starts_with(&number) {
        return bad("wrong-number", format!("{about}: writes {}, but the storage's own text is {}", show(text), show(&number)));
    }
    if ended.is_err() && text.len() > number.len() {
        return bad("goes-on-after-failure", format!("{about}: the storage failed after {}, but {} was written", show(&number), show(text)));
    }
    if !p.system.complete || ended.is_err() {
        return None;
    }
    if !err {
        let Some(suffix) = text.strip_prefix(&number) else {
            return bad("wrong-number", format!("{about}: writes {}, but the storage's own text is {}", show(text), show(&number)));
        };
        return right_suffix(&p, suffix).err().and_then(|w| bad("wrong-unit", format!("{about}: writes {}: {w}", show(text))));
    }
    // Cut off by the sink: what was written has to be the beginning of the full text.
    let mut op = s.op.clone();
    if let Op::Fmt { room, .. } | Op::WeirdFmt { room, .. } = &mut op {
        *room = None;
    }
    match crate::ops::run(&op) {
        Res::Fmt { text: full, .. } if full.starts_with(text) => None,
        x => bad("not-a-prefix", format!("{about}: writes {}, but without limit {x:?}", show(text))),
    }
}

// C08

type Outcome = Result<(Vec<Option<Val>>, u64, u64), ()>;
fn bare_sample<T>(h: RandHow, lo: T, hi: T, n: u32, mut r: SimRng, f: impl Fn(&T) -> Val) -> Outcome
where
    T: SampleUniform + PartialOrd + Copy,
    T::Sampler: Clone,
{
    catch_unwind(AssertUnwindSafe(|| {
        let out = crate::probe::sample(h, lo, hi, n, &mut r, f);
        (out, r.drawn, r.bytes)
    }))
    .map_err(|_| ())
}
fn c08(s: &Step, d: &Done) -> Option<Verdict> {
    let Op::Rand { probe: name, lo, hi, how, n, seed, style, fail_at } = &s.op else { return None };
    use RandHow::*;
    let ways: &[RandHow] = match how {
        Range | Single => &[Range, Single, New],
        RangeInclusive | SingleInclusive => &[RangeInclusive, SingleInclusive, NewInclusive],
        h => std::slice::from_ref(h),
    };
    let got: Outcome = match &d.res {
        Res::Rand { out, drawn, bytes } => Ok((out.clone(), *drawn, *bytes)),
        Res::Panic(_) => Err(()),
        x => return bad("abandoned", format!("sampling {name}: {x:?}")),
    };
    let mut expected = vec![];
    for w in ways {
        let r = SimRng::new(*seed, *style, *fail_at);
        let e = if lo.st == Storage::F32 {
            bare_sample(*w, lo.f32(0), hi.f32(0), *n, r, |x| Val::new(Storage::F32, &[*x as f64]))
        } else {
            bare_sample(*w, lo.raw(0), hi.raw(0), *n, r, |x| Val::new(Storage::F64, &[*x]))
        };
        let same = match (&e, &got) {
            (Err(()), Err(())) => true,
            (Ok(a), Ok(b)) => {
                a.1 == b.1 && a.2 == b.2 && a.0.len() == b.0.len() && a.0.iter().zip(&b.0).all(|(x, y)| match (x, y) {
                    (Some(x), Some(y)) => x.same(y),
                    (None, None) => true,
                    _ => false,
                })
            }
            _ => false,
        };
        if same {
            return None;
        }
        expected.push(e);
    }
    let text = |o: &Outcome| match o {
        Err(()) => "a panic".to_string(),
        Ok((v, w, b)) => format!(
            "[{}] from {w} words, {b} bytes",
            v.iter().map(|x| x.map(|v| v.show()).unwrap_or("(source failed)".into())).collect::<Vec<_>>().join(", ")
        ),
    };
    let key = match (&expected[0], &got) {
        (Ok(_), Err(())) => "bounds-refused",
        (Err(()), Ok(_)) => "bounds-accepted",
        (Ok(a), Ok(b)) if a.1 != b.1 || a.2 != b.2 => "words-consumed",
        _ => "sample-differs",
    };
    bad(
        key,
        format!(
            "{name} by {how:?} between {} and {} ({n} draws, source failing at {fail_at:?}): got {}, the bare float gives {}",
            lo.show(),
            hi.show(),
            text(&got),
            text(&expected[0])
        ),
    )
}

// C11

/// A step as it comes out alone, in a process of its own.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Alone {
    pub done: Result<Done, String>,
    pub nested: Vec<(u64, Alone)>,
}
fn equal(a: &Res, b: &Res) -> bool {
    match (a, b) {
        (Res::De { items: x, src_failed: f }, Res::De { items: y, src_failed: g }) => {
            f == g
                && x.len() == y.len()
                && x.iter().zip(y).all(|(a, b)| match (a, b) {
                    (Ok(a), Ok(b)) => a.same(b),
                    (Err(a), Err(b)) => a == b,
                    _ => false,
                })
        }
        (Res::Rand { out: x, drawn: a, bytes: c }, Res::Rand { out: y, drawn: b, bytes: d }) => {
            a == b && c == d && x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.zip(*b).map(|(a, b)| a.same(&b)).unwrap_or(a.is_none() == b.is_none()))
        }
        _ => a == b,
    }
}
fn compare(s: &Step, d: &Done, a: &Alone, at: &str) -> Option<Verdict> {
    let alone = match &a.done {
        Ok(x) => x,
        // Crashes alone: nothing to compare with, and no business of this property.
        Err(_) => return None,
    };
    let abandoned = s.panic_at.is_some_and(|n| n < alone.calls);
    if abandoned {
        if d.res != Res::Abandoned {
            return bad("not-abandoned", format!("{at} {:?} should have been abandoned at callback {:?}, but gives {:?}", s.op, s.panic_at, d.res));
        }
    } else if !equal(&d.res, &alone.res) {
        return bad("disturbed", format!("{at} {:?}\ngives {}\nalone it gives {}", s.op, short(&d.res), short(&alone.res)));
    }
    for (n, x) in &d.nested {
        let (Some(t), Some(a)) = (s.nested.iter().find(|y| y.0 == *n), a.nested.iter().find(|y| y.0 == *n)) else { continue };
        if let Some(v) = compare(&t.1, x, &a.1, &format!("{at} within callback {n}:")) {
            return Some(v);
        }
    }
    None
}
fn short(r: &Res) -> String {
    match r {
        Res::Ser { done, err, bytes, .. } => format!("{done} items, error {err:?}, bytes {}", show(&String::from_utf8_lossy(bytes))),
        r => show(&format!("{r:?}")),
    }
}
fn c11(c: &Case, r: &Ran, alone: &[Vec<Alone>]) -> Option<Verdict> {
    for (t, (steps, done)) in c.tasks.iter().zip(&r.done).enumerate() {
        for (i, (s, d)) in steps.iter().zip(done).enumerate() {
            if let Some(v) = compare(s, d, &alone[t][i], &format!("task {t}, step {i}:")) {
                return Some(v);
            }
        }
    }
    None
}
