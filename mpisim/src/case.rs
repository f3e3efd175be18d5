//! One simulated execution: ranks, their threads, and what they send to each other.
use crate::elem::{entry, plain};
use crate::net::{self, blame, Plan};
use crate::ops::{Call, Coll, CollJob, Combine, Get, Into, Out};
use serde::{Deserialize, Serialize};
use simcore::sched::{self, Mode};
use simcore::{Fnv, Rng};
use simdrive::{bump, verdict, Report};
use std::sync::atomic::Ordering::SeqCst;

/// Values by seed, or by their bits once minimised.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Values {
    pub seed: u64,
    pub n: usize,
}
impl Values {
    pub fn floats(&self, shape: &[bool]) -> Vec<u64> {
        let mut rng = Rng::new(self.seed);
        (0..self.n * shape.len())
            .map(|i| {
                let d = shape[i % shape.len()];
                let mut x = rng.next();
                if rng.chance(0.3) {
                    const SPECIAL: [f64; 8] = [0.0, -0.0, 1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, 1.5];
                    let s = *rng.pick(&SPECIAL);
                    x = if d { s.to_bits() } else { (s as f32).to_bits() as u64 };
                }
                if d {
                    x
                } else {
                    x & 0xffff_ffff
                }
            })
            .collect()
    }
}
/// Rank and thread.
pub type Who = (usize, usize);
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    /// The number of elements is that of the sender's type.
    Send { from: Who, to: Who, values: Values, sent: String, call: Call, out: Out, received: String, get: Get, into: Into, any: bool },
    Exchange { a: Who, b: Who, at: String, bt: String, av: Values, bv: Values },
    Collective { kind: Coll, root: usize, types: Vec<String>, values: Vec<Values> },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Schedule {
    Random { seed: u64, p: f64 },
    Fixed(Vec<(u64, usize)>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    /// Threads of each rank.
    pub ranks: Vec<usize>,
    pub net: Plan,
    pub ops: Vec<Op>,
    pub schedule: Schedule,
}
impl Op {
    fn involves(&self, w: Who) -> bool {
        match self {
            Op::Send { from, to, .. } => *from == w || *to == w,
            Op::Exchange { a, b, .. } => *a == w || *b == w,
            Op::Collective { .. } => w.1 == 0,
        }
    }
    pub fn plain(&self) -> Op {
        let mut o = self.clone();
        let with = |t: &mut String, v: &mut Values| {
            let (old, new) = (entry(t).shape.len(), plain(t));
            v.n = v.n * old / entry(new).shape.len();
            *t = new.into();
        };
        match &mut o {
            Op::Send { sent, received, values, .. } => {
                with(sent, values);
                *received = plain(received).into();
            }
            Op::Exchange { at, bt, av, bv, .. } => {
                with(at, av);
                with(bt, bv);
            }
            Op::Collective { types, values, .. } => types.iter_mut().zip(values).for_each(|(t, v)| with(t, v)),
        }
        o
    }
    pub fn types(&self) -> Vec<&String> {
        match self {
            Op::Send { sent, received, .. } => vec![sent, received],
            Op::Exchange { at, bt, .. } => vec![at, bt],
            Op::Collective { types, .. } => types.iter().collect(),
        }
    }
}
fn compare(what: &str, got: Result<Vec<u64>, String>, want: &[u64], log: &mut Fnv) {
    match got {
        Err(e) => blame(verdict("received", format!("{what}: {e}"))),
        Ok(g) => {
            g.iter().for_each(|x| _ = log.u64(*x));
            if g != want {
                let i = g.iter().zip(want).position(|(a, b)| a != b).unwrap_or(g.len().min(want.len()));
                blame(verdict(
                    "values",
                    format!("{what}: {} floats arrive instead of {}, and differ from float {i} on: {:x?} instead of {:x?}", g.len(), want.len(), g.get(i), want.get(i)),
                ))
            }
        }
    }
}
fn reduced(c: Combine, all: &[Vec<u64>], double: bool) -> Vec<u64> {
    let mut acc = all[0].clone();
    for v in &all[1..] {
        acc.iter_mut().zip(v).for_each(|(a, b)| *a = c.floats(*a, *b, double));
    }
    acc
}
fn perform(op: &Op, i: usize, w: Who, ranks: usize, log: &mut Fnv) {
    let tag = 10 * i as i32;
    match op {
        Op::Send { from, to, values, sent, call, out, received, get, into, any } => {
            let s = entry(sent);
            let f = values.floats(s.shape);
            if *from == w {
                s.ops.send(*call, *out, to.0 as i32, tag, &f);
            } else {
                let what = format!("{} elements of {sent} sent by rank {} ({call:?}, {out:?}) and received by rank {} as {received} ({get:?}, {into:?})", values.n, from.0, to.0);
                let got = entry(received).ops.recv(*get, *into, (!any).then_some(from.0 as i32), tag, f.len());
                compare(&what, got, &f, log);
            }
        }
        Op::Exchange { a, b, at, bt, av, bv } => {
            let (fa, fb) = (av.floats(entry(at).shape), bv.floats(entry(bt).shape));
            let what = format!("{} elements of {at} of rank {} exchanged with {} elements of {bt} of rank {}", av.n, a.0, bv.n, b.0);
            if *a == w {
                compare(&what, entry(at).ops.exchange(b.0 as i32, tag, tag + 1, &fa, fb.len()), &fb, log);
            } else {
                compare(&what, entry(bt).ops.exchange(a.0 as i32, tag + 1, tag, &fb, fa.len()), &fa, log);
            }
        }
        Op::Collective { kind, root, types, values } => {
            let all: Vec<Vec<u64>> = values.iter().zip(types).map(|(v, t)| v.floats(entry(t).shape)).collect();
            let counts: Vec<usize> = all.iter().map(|f| f.len()).collect();
            let j = CollJob { kind: *kind, root: *root as i32, rank: w.0, size: ranks, mine: &all[w.0], counts: &counts };
            let d = entry(&types[0]).shape[0];
            let part = |f: &Vec<u64>, k: usize| {
                let n = f.len() / ranks;
                f[k * n..(k + 1) * n].to_vec()
            };
            let want: Vec<u64> = match kind {
                Coll::Bcast => all[*root].clone(),
                Coll::Gather | Coll::Gatherv if w.0 == *root => all.concat(),
                Coll::Gather | Coll::Gatherv => vec![],
                Coll::Allgather => all.concat(),
                Coll::Alltoall => all.iter().flat_map(|f| part(f, w.0)).collect(),
                Coll::Scatter => part(&all[*root], w.0),
                Coll::Reduce(_) if w.0 != *root => vec![],
                Coll::Reduce(c) | Coll::AllReduce(c) => reduced(*c, &all, d),
                Coll::Scan(c) => reduced(*c, &all[..=w.0], d),
            };
            let what = format!("{kind:?} with root {root}, elements {types:?}, rank {} of {ranks}", w.0);
            let mut got = entry(&types[w.0]).ops.coll(&j);
            if let (Coll::Reduce(c) | Coll::AllReduce(c) | Coll::Scan(c), Ok(g)) = (kind, &mut got) {
                // Which of the zeros, or which NaN, is up to the library.
                for (i, x) in g.iter_mut().enumerate() {
                    let y = want.get(i).copied().unwrap_or(0);
                    let f = |x: u64| if d { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                    let nan = all.iter().any(|v| f(v[i]).is_nan());
                    if f(*x) == f(y) || f(*x).is_nan() && f(y).is_nan() || nan && matches!(c, Combine::Max | Combine::Min) {
                        *x = y;
                    }
                }
            }
            compare(&what, got, &want, log);
        }
    }
}
/// Ranks stop at the first violation, which may leave others waiting.
pub fn stuck() -> ! {
    let (blamed, _, _) = net::end();
    let v = blamed.unwrap_or(verdict("stuck", "The ranks wait for each other for ever"));
    simdrive::end_with(Report { verdict: Some(v), ..Default::default() })
}
pub fn execute(c: &Case) -> Report {
    net::start(&c.net, c.ranks.len());
    let mode = match &c.schedule {
        Schedule::Random { seed, p } => Mode::random(*seed, *p),
        Schedule::Fixed(m) => Mode::Fixed(m.iter().copied().collect()),
    };
    let whos: Vec<Who> = c.ranks.iter().enumerate().flat_map(|(r, n)| (0..*n).map(move |t| (r, t))).collect();
    let waits = sched::FUTEX_WAITS.load(SeqCst);
    let tasks: Vec<sched::Body<u64>> = whos
        .iter()
        .map(|w| {
            let w = *w;
            Box::new(move || {
                net::enter(w.0);
                let mut log = Fnv::default();
                // Everybody goes through the same list in the same order, so that nobody waits for ever.
                for (i, op) in c.ops.iter().enumerate() {
                    if op.involves(w) && !net::blamed() {
                        perform(op, i, w, c.ranks.len(), &mut log);
                    }
                }
                log.0
            }) as sched::Body<u64>
        })
        .collect();
    let o = sched::run(mode, 1_000_000, tasks);
    let (blamed, counts, faults) = net::end();
    let mut r = Report { counts, faults, time: o.simulated_time, ..Default::default() };
    let mut log = Fnv(o.log);
    for x in &o.results {
        match x {
            Ok(h) => drop(log.u64(*h)),
            Err(e) => drop(log.bytes(e.as_bytes())),
        }
    }
    r.log = log.0;
    r.switches = o.switches.iter().map(|(a, b)| (*a, *b)).collect();
    let lost = o.results.iter().position(|x| x.is_err());
    r.verdict = blamed.or_else(|| {
        if o.stuck {
            Some(verdict("stuck", "The ranks wait for each other for ever"))
        } else {
            lost.map(|i| verdict("panic", format!("Rank {} panics: {}", whos[i].0, o.results[i].as_ref().err().unwrap())))
        }
    });
    bump(&mut r.counts, "scheduler steps", o.steps);
    bump(&mut r.counts, "context switches", o.context_switches);
    bump(&mut r.counts, "accesses to shared memory of the code under test", o.accesses);
    bump(&mut r.counts, "waits for locks of the code under test", sched::FUTEX_WAITS.load(SeqCst) - waits);
    for op in &c.ops {
        let k = match op {
            Op::Send { .. } => "messages of one element type to another".to_string(),
            Op::Exchange { .. } => "exchanges".into(),
            Op::Collective { kind, .. } => format!("collective operations: {kind:?}"),
        };
        bump(&mut r.counts, k, 1);
        for t in op.types() {
            let s = t.rsplit('/').next().unwrap();
            bump(&mut r.probes, if t.contains('/') { format!("quantities of {s}") } else { format!("plain {s}") }, 1);
        }
        if let Op::Send { sent, received, out, into, values, .. } = op {
            bump(&mut r.probes, format!("sent as {}", format!("{out:?}").split('(').next().unwrap()), 1);
            bump(&mut r.probes, format!("received into {}", format!("{into:?}").split('(').next().unwrap()), 1);
            bump(&mut r.probes, "empty messages", (values.n == 0) as u64);
            bump(&mut r.probes, "quantities received as storage or the reverse", (sent.contains('/') != received.contains('/')) as u64);
        }
    }
    if c.net.unlike {
        bump(&mut r.faults, "runs on nodes of unlike architecture", 1);
    }
    r
}
pub fn smaller(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    for i in 0..c.ops.len() {
        let mut d = c.clone();
        d.ops.remove(i);
        out.push(d);
    }
    let last = c.ranks.len() - 1;
    for r in 0..c.ranks.len() {
        for t in 0..c.ranks[r] {
            if t + 1 == c.ranks[r] && t > 0 && !c.ops.iter().any(|o| o.involves((r, t))) {
                let mut d = c.clone();
                d.ranks[r] -= 1;
                out.push(d);
            }
        }
    }
    if last > 0 && !c.ops.iter().any(|o| matches!(o, Op::Collective { .. }) || (0..c.ranks[last]).any(|t| o.involves((last, t)))) {
        let mut d = c.clone();
        d.ranks.pop();
        out.push(d);
    }
    let mut with = |f: &mut dyn FnMut(&mut Case)| {
        let mut d = c.clone();
        f(&mut d);
        out.push(d);
    };
    with(&mut |d| d.net.delay = 0);
    with(&mut |d| d.net.rendezvous = 0.0);
    with(&mut |d| d.net.fragment = 0);
    with(&mut |d| d.net.unlike = false);
    for i in 0..c.ops.len() {
        with(&mut |d| {
            if let Op::Send { call, .. } = &mut d.ops[i] {
                *call = Call::Send
            }
        });
        with(&mut |d| {
            if let Op::Send { get, .. } = &mut d.ops[i] {
                *get = Get::Recv
            }
        });
        with(&mut |d| {
            if let Op::Send { out, into, any, .. } = &mut d.ops[i] {
                if *out != Out::Packed {
                    *out = Out::Slice;
                    *into = Into::Slice(0);
                }
                *any = false;
            }
        });
        for k in [0, 1, 2] {
            with(&mut |d| {
                if let Op::Send { values, sent, received, .. } = &mut d.ops[i] {
                    if k < values.n && (k * entry(sent).shape.len()) % entry(received).shape.len() == 0 {
                        values.n = k
                    }
                }
            });
        }
    }
    out
}
