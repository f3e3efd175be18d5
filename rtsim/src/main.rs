//! Simulates programs that format, serialise, deserialise, sample and convert quantities: C05-C08, C11.
//!   rtsim check <property>     rtsim replay <file>
#![feature(generic_const_exprs, adt_const_params)]
#![allow(incomplete_features, dead_code)]
mod access;
mod case;
mod conv;
mod gen;
mod info;
mod interpose;
mod judge;
mod ops;
mod probe;
mod seams;
mod tlv;
mod val;
mod weird;
mod systems {
    #![allow(unused)]
    use crate::probe::quant_impls;
    include!(concat!(env!("OUT_DIR"), "/systems.rs"));
}
use case::{Case, Schedule};
use judge::{Alone, Verdict};
use ops::{Op, Step};
use serde::{Deserialize, Serialize};
use simcore::evidence::{wall, Ctx, Json, Violation};
use simcore::proc::{self, Ended, Limits};
use simcore::{fnv, sched, Rng};
use std::collections::{BTreeMap, BTreeSet};

const FEATURES: &str = if cfg!(feature = "rational") { "rational" } else { "int" };

#[derive(Default, Serialize, Deserialize)]
struct Tally {
    runs: u64,
    counts: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    distinct: BTreeSet<u64>,
    interleavings: BTreeSet<u64>,
    simulated_time: u64,
    samples: Vec<String>,
    /// key, what, replay
    violations: Vec<(String, String, String)>,
    broken: Vec<String>,
}
fn bump(m: &mut BTreeMap<String, u64>, k: impl Into<String>, n: u64) {
    if n > 0 {
        *m.entry(k.into()).or_default() += n;
    }
}
impl Tally {
    fn merge(&mut self, o: Tally) {
        self.runs += o.runs;
        for (a, b) in [(&mut self.counts, o.counts), (&mut self.faults, o.faults), (&mut self.probes, o.probes)] {
            for (k, v) in b {
                bump(a, k, v);
            }
        }
        self.distinct.extend(o.distinct);
        self.interleavings.extend(o.interleavings);
        self.simulated_time += o.simulated_time;
        self.samples.extend(o.samples);
        self.violations.extend(o.violations);
        self.broken.extend(o.broken);
    }
}

/// What a child reports about one case.
#[derive(Serialize, Deserialize)]
struct Report {
    verdict: Option<Verdict>,
    log: u64,
    switches: Vec<(u64, usize)>,
    steps: u64,
    context_switches: u64,
    accesses: u64,
    time: u64,
    io: seams::IoStats,
    futex_waits: u64,
    calls: u64,
    abandoned: u64,
    stopped: u64,
    failed_sinks: u64,
    failed_sources: u64,
    refused: u64,
    delivered: u64,
}
fn limits() -> Limits {
    Limits { cpu_s: 30, wall_s: 120, memory: 8 << 30 }
}

fn alone_step(s: &Step) -> Alone {
    let mut t = s.clone();
    t.panic_at = None;
    t.nested.clear();
    let done = proc::forked(&limits(), || {
        sched::ALONE.store(true, std::sync::atomic::Ordering::SeqCst);
        serde_json::to_vec(&ops::exec(&t)).unwrap()
    });
    let done = match done {
        Ok(b) => serde_json::from_slice(&b).map_err(|e| e.to_string()),
        Err(e) => Err(e.text()),
    };
    Alone { done, nested: s.nested.iter().map(|(n, s)| (*n, alone_step(s))).collect() }
}
fn alone(c: &Case) -> Vec<Vec<Alone>> {
    if c.property != "C11" {
        return vec![];
    }
    c.tasks.iter().map(|t| t.iter().map(alone_step).collect()).collect()
}
fn count_done(d: &ops::Done, r: &mut Report) {
    use ops::Res;
    r.calls += d.calls;
    match &d.res {
        Res::Abandoned => r.abandoned += 1,
        Res::Stopped => r.stopped += 1,
        Res::Fmt { failed: true, .. } | Res::Ser { sink_failed: true, .. } => r.failed_sinks += 1,
        Res::De { items, src_failed } => {
            r.failed_sources += *src_failed as u64;
            r.refused += items.iter().filter(|x| x.is_err()).count() as u64;
            r.delivered += items.iter().filter(|x| x.is_ok()).count() as u64;
        }
        Res::Rand { out, .. } => {
            r.failed_sources += out.iter().filter(|x| x.is_none()).count() as u64;
            r.delivered += out.iter().filter(|x| x.is_some()).count() as u64;
        }
        _ => r.delivered += 1,
    }
    d.nested.iter().for_each(|n| count_done(&n.1, r));
}
/// Runs the cases one after another in one new process: each is the history of the next.
fn run_all(cases: &[Case], alone: &[Vec<Vec<Alone>>]) -> Result<Vec<Report>, Ended> {
    let b = proc::forked(&limits(), || {
        let mut out = vec![];
        for (c, a) in cases.iter().zip(alone) {
            *seams::STATS.lock().unwrap() = Default::default();
            let f = sched::FUTEX_WAITS.load(std::sync::atomic::Ordering::SeqCst);
            let r = case::run(c);
            let io = seams::STATS.lock().unwrap().clone();
            let verdict = judge::judge(c, &r, a);
            let mut rep = Report {
                verdict,
                log: r.log,
                switches: r.switches.iter().map(|(a, b)| (*a, *b)).collect(),
                steps: r.steps,
                context_switches: r.context_switches,
                accesses: r.accesses,
                time: r.time,
                io,
                futex_waits: sched::FUTEX_WAITS.load(std::sync::atomic::Ordering::SeqCst) - f,
                calls: 0,
                abandoned: 0,
                stopped: 0,
                failed_sinks: 0,
                failed_sources: 0,
                refused: 0,
                delivered: 0,
            };
            r.done.iter().flatten().for_each(|d| count_done(d, &mut rep));
            let stop = rep.verdict.is_some();
            out.push(rep);
            if stop {
                break;
            }
        }
        serde_json::to_vec(&out).unwrap()
    })?;
    serde_json::from_slice(&b).map_err(|e| Ended::Infra(e.to_string()))
}
/// The violation a list of cases ends in, and the schedule of its last one.
fn fails(cases: &[Case]) -> Option<(Verdict, Vec<(u64, usize)>)> {
    let alone: Vec<_> = cases.iter().map(alone).collect();
    match run_all(cases, &alone) {
        Ok(r) => r.last().and_then(|r| r.verdict.clone().map(|v| (v, r.switches.clone()))),
        Err(Ended::Infra(_)) => None,
        Err(e) => Some((Verdict { key: "crash".into(), what: format!("The process {}", e.text()) }, vec![])),
    }
}

/// Smaller variants of a step.
fn smaller(s: &Step) -> Vec<Step> {
    let mut out = vec![];
    let mut with = |f: &mut dyn FnMut(&mut Step)| {
        let mut t = s.clone();
        f(&mut t);
        if t != *s {
            out.push(t);
        }
    };
    with(&mut |t| t.nested.clear());
    for i in 0..s.nested.len() {
        with(&mut |t| drop(t.nested.remove(i)));
        for x in smaller(&s.nested[i].1) {
            with(&mut |t| t.nested[i].1 = x.clone());
        }
    }
    with(&mut |t| t.panic_at = None);
    match &s.op {
        Op::Ser { items, .. } => {
            for i in (0..items.len()).filter(|_| items.len() > 1) {
                with(&mut |t| {
                    if let Op::Ser { items, .. } = &mut t.op {
                        items.remove(i);
                    }
                });
            }
        }
        Op::De { targets, bytes, .. } => {
            for i in (0..targets.len()).filter(|_| targets.len() > 1) {
                with(&mut |t| {
                    if let Op::De { targets, .. } = &mut t.op {
                        targets.remove(i);
                    }
                });
            }
            let n = bytes.len();
            let mut k = n / 2;
            while k > 0 {
                for i in (0..n).step_by(k) {
                    with(&mut |t| {
                        if let Op::De { bytes, .. } = &mut t.op {
                            bytes.drain(i..(i + k).min(n));
                        }
                    });
                }
                k /= 2;
            }
        }
        Op::Rand { n, .. } if *n > 1 => {
            with(&mut |t| {
                if let Op::Rand { n, .. } = &mut t.op {
                    *n -= 1
                }
            });
        }
        _ => {}
    }
    with(&mut |t| match &mut t.op {
        Op::Ser { io, .. } | Op::De { io, .. } => *io = seams::IoPlan { fail: io.fail, flush_fails: io.flush_fails, ..Default::default() },
        Op::Fmt { room, .. } | Op::WeirdFmt { room, .. } => *room = None,
        Op::Rand { fail_at, .. } => *fail_at = None,
        Op::Conv { .. } => {}
    });
    with(&mut |t| match &mut t.op {
        Op::Ser { io, .. } | Op::De { io, .. } => *io = Default::default(),
        Op::Rand { style, .. } => *style = 0,
        _ => {}
    });
    out
}
fn minimise(mut cases: Vec<Case>, key: &str, end: f64) -> (Vec<Case>, Verdict) {
    let mut best = fails(&cases).map(|x| x.0).unwrap_or(Verdict { key: key.into(), what: "not reproduced".into() });
    let mut keep = |c: &[Case]| -> bool {
        if wall() > end {
            return false;
        }
        match fails(c) {
            Some((v, _)) if v.key == key => {
                best = v;
                true
            }
            _ => false,
        }
    };
    if cases.len() > 1 {
        let last = cases.pop().unwrap();
        let head = simcore::minimise::list(&cases, 60, |h| {
            let mut c = h.to_vec();
            c.push(last.clone());
            keep(&c)
        });
        let mut alone = vec![last.clone()];
        if keep(&alone) {
            cases = std::mem::take(&mut alone);
        } else {
            cases = head;
            cases.push(last);
        }
    }
    for k in 0..cases.len() {
        // Without a scheduler, if it fails without one.
        let mut progress = true;
        while progress && wall() < end {
            progress = false;
            let mut t = 0;
            while t < cases[k].tasks.len() {
                if cases[k].tasks.len() > 1 && cases[k].property == "C11" {
                    let mut c = cases.clone();
                    c[k].tasks.remove(t);
                    if keep(&c) {
                        cases = c;
                        progress = true;
                        continue;
                    }
                }
                let mut i = 0;
                while i < cases[k].tasks[t].len() {
                    if cases[k].tasks[t].len() > 1 || cases[k].tasks.len() > 1 {
                        let mut c = cases.clone();
                        c[k].tasks[t].remove(i);
                        if keep(&c) {
                            cases = c;
                            progress = true;
                            continue;
                        }
                    }
                    'again: loop {
                        for s in smaller(&cases[k].tasks[t][i]) {
                            let mut c = cases.clone();
                            c[k].tasks[t][i] = s;
                            if keep(&c) {
                                cases = c;
                                progress = true;
                                continue 'again;
                            }
                        }
                        break;
                    }
                    i += 1;
                }
                t += 1;
            }
        }
    }
    // The schedule, as the list of its switches.
    for k in 0..cases.len() {
        if cases[k].schedule == Schedule::Inline {
            continue;
        }
        let alone: Vec<_> = cases[..=k].iter().map(alone).collect();
        let Ok(r) = run_all(&cases[..=k], &alone) else { continue };
        let Some(sw) = r.get(k).map(|r| r.switches.clone()) else { continue };
        let mut c = cases.clone();
        c[k].schedule = Schedule::Fixed(sw.clone());
        if !keep(&c) {
            continue;
        }
        let min = simcore::minimise::list(&sw, 120, |s| {
            let mut d = c.clone();
            d[k].schedule = Schedule::Fixed(s.to_vec());
            keep(&d)
        });
        c[k].schedule = Schedule::Fixed(min);
        if keep(&c) {
            cases = c;
        }
    }
    (cases, best)
}
fn replay_text(cases: &[Case], v: &Verdict) -> String {
    let mut o = String::new();
    for l in v.what.lines() {
        o += &format!("# {l}\n");
    }
    o += &format!("property {}\nfeatures {FEATURES}\nsystems_seed {}\nkey {}\n", cases[0].property, systems::SEED, v.key);
    for c in cases {
        o += &format!("case {}\n", serde_json::to_string(c).unwrap());
    }
    o
}

fn note(t: &mut Tally, c: &Case, r: &Report) {
    t.runs += 1;
    t.simulated_time += r.time;
    let canonical = serde_json::to_vec(&c.tasks).unwrap();
    t.distinct.insert(fnv(&canonical));
    if c.schedule != Schedule::Inline {
        t.interleavings.insert(r.log);
    }
    bump(&mut t.faults, "short read or write", r.io.short);
    bump(&mut t.faults, "interrupted call", r.io.eintr);
    bump(&mut t.faults, "I/O error", r.io.errors);
    bump(&mut t.faults, "delayed call", r.io.delays);
    bump(&mut t.faults, "call on a full or empty pipe", r.io.blocked);
    bump(&mut t.faults, "step abandoned by a panic in a callback", r.abandoned);
    bump(&mut t.faults, "machine stopped while writing a file", r.stopped);
    bump(&mut t.faults, "failing sink", r.failed_sinks);
    bump(&mut t.faults, "failing source", r.failed_sources);
    bump(&mut t.counts, "callbacks into the simulator", r.calls);
    bump(&mut t.counts, "scheduler steps", r.steps);
    bump(&mut t.counts, "context switches", r.context_switches);
    bump(&mut t.counts, "accesses to shared memory of the code under test", r.accesses);
    bump(&mut t.counts, "waits for locks of the code under test", r.futex_waits);
    bump(&mut t.counts, "results delivered", r.delivered);
    bump(&mut t.counts, "inputs refused", r.refused);
    fn steps(t: &mut Tally, s: &Step) {
        let k = match &s.op {
            Op::Fmt { .. } => "format",
            Op::WeirdFmt { .. } => "format with the user's own storage",
            Op::Ser { .. } => "serialise",
            Op::De { .. } => "deserialise",
            Op::Rand { .. } => "sample",
            Op::Conv { .. } => "convert",
        };
        bump(&mut t.counts, format!("steps: {k}"), 1);
        let names: Vec<&String> = match &s.op {
            Op::Fmt { probe, .. } | Op::WeirdFmt { probe, .. } | Op::Rand { probe, .. } => vec![probe],
            Op::Ser { items, .. } => items.iter().map(|i| &i.0).collect(),
            Op::De { targets, .. } => targets.iter().collect(),
            Op::Conv { .. } => vec![],
        };
        for n in names {
            bump(&mut t.probes, format!("{FEATURES} {}", n.rsplit_once('/').unwrap().0), 1);
        }
        for (_, n) in &s.nested {
            bump(&mut t.faults, "nested call from a callback", 1);
            steps(t, n);
        }
    }
    c.tasks.iter().flatten().for_each(|s| steps(t, s));
}

fn worker(property: &str, seed: u64, me: u64, of: u64, budget: f64, dir: &str) -> Tally {
    let mut t = Tally::default();
    let end = wall() + budget;
    let stop = format!("{dir}/stop");
    let max: u64 = std::env::var("VERIF_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let per = match property {
        "C05" => 24,
        "C11" => 6,
        _ => 60,
    };
    let mut batch = me;
    while wall() < end && batch < max && !std::path::Path::new(&stop).exists() {
        let mut rng = Rng::derive(seed, &format!("{property}-{FEATURES}"), batch);
        // Histories of different lengths.
        let long = rng.chance(0.1);
        let n = 1 + rng.below(per * if long { 4 } else { 1 });
        let cases: Vec<Case> = (0..n).map(|_| gen::generate(property, &mut rng)).collect();
        let alones: Vec<_> = cases.iter().map(alone).collect();
        match run_all(&cases, &alones) {
            Ok(reports) => {
                for (c, r) in cases.iter().zip(&reports) {
                    note(&mut t, c, r);
                    if t.samples.len() < 2 && t.runs % 37 == 1 {
                        t.samples.push(serde_json::to_string(c).unwrap());
                    }
                }
                // One in so many histories is repeated, which must give the same events.
                if batch / of % 23 == 3 {
                    if let Ok(again) = run_all(&cases, &alones) {
                        bump(&mut t.counts, "histories repeated to see that they are deterministic", 1);
                        if again.iter().map(|r| (r.log, r.calls)).ne(reports.iter().map(|r| (r.log, r.calls))) {
                            t.broken.push(format!("batch {batch} of seed {seed} is not deterministic"));
                        }
                    }
                }
                let Some(v) = reports.last().and_then(|r| r.verdict.clone()) else {
                    batch += of;
                    continue;
                };
                std::fs::write(&stop, "").ok();
                let (min, v) = minimise(cases[..reports.len()].to_vec(), &v.key, wall() + 60.0);
                t.violations.push((v.key.clone(), v.what.clone(), replay_text(&min, &v)));
                return t;
            }
            Err(Ended::Infra(e)) => bump(&mut t.counts, format!("batches lost: {e}"), 1),
            Err(_) => {
                // The first prefix that ends like this.
                let mut lo = 1;
                let mut hi = cases.len();
                while lo < hi {
                    let mid = (lo + hi) / 2;
                    if fails(&cases[..mid]).is_some() {
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                }
                if let Some((v, _)) = fails(&cases[..lo]) {
                    std::fs::write(&stop, "").ok();
                    let (min, v) = minimise(cases[..lo].to_vec(), &v.key, wall() + 60.0);
                    t.violations.push((v.key.clone(), v.what.clone(), replay_text(&min, &v)));
                    return t;
                }
                bump(&mut t.counts, "batches that failed only once", 1);
            }
        }
        batch += of;
    }
    t
}

fn main() {
    if std::env::var("VERIF_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args: Vec<String> = std::env::args().collect();
    proc::fix_addresses();
    ops::registry();
    info::infos();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check(&args[2])),
        Some("worker") => {
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            let t = worker(&args[2], n(3), n(4), n(5), args[6].parse().unwrap(), &args[7]);
            std::fs::write(format!("{}/{FEATURES}-{}.json", args[7], args[4]), serde_json::to_vec(&t).unwrap()).unwrap();
        }
        Some("replay") => std::process::exit(replay(&args[2])),
        Some("dump") => {
            let mut rng = Rng::derive(args[3].parse().unwrap(), &format!("{}-{FEATURES}", args[2]), args[4].parse().unwrap());
            println!("{}", serde_json::to_string_pretty(&gen::generate(&args[2], &mut rng)).unwrap());
        }
        _ => std::process::exit(2),
    }
}

fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let cases: Vec<Case> = text.lines().filter_map(|l| l.strip_prefix("case ")).map(|l| serde_json::from_str(l).expect("a case")).collect();
    match fails(&cases) {
        Some((v, _)) => {
            println!("{}", v.what);
            println!("VIOLATION property={} replay={path}", cases[0].property);
            1
        }
        None => {
            println!("{}: the recorded execution no longer violates the property", cases[0].property);
            0
        }
    }
}

fn check(property: &str) -> i32 {
    let mut ctx = Ctx::new(property, 60.0, 1800.0);
    let scratch = format!("{}/rtsim-{}-{}", std::env::temp_dir().display(), property, std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    let me = std::env::current_exe().unwrap();
    let other = std::env::var("RTSIM_RATIONAL").ok();
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16) as u64;
    let bins: Vec<std::path::PathBuf> = std::iter::once(me).chain(other.map(|o| o.into())).collect();
    let each = (cores / bins.len() as u64).max(1);
    let mut children = vec![];
    for b in &bins {
        for i in 0..each {
            let c = std::process::Command::new(b)
                .args(["worker", property, &ctx.seed.to_string(), &i.to_string(), &each.to_string(), &ctx.budget_s.to_string(), &scratch])
                .spawn()
                .expect("worker");
            children.push(c);
        }
    }
    let mut lost = 0;
    for mut c in children {
        lost += !c.wait().map(|s| s.success()).unwrap_or(false) as u64;
    }
    let mut t = Tally::default();
    for f in std::fs::read_dir(&scratch).unwrap().flatten() {
        if f.path().extension().is_some_and(|e| e == "json") {
            match serde_json::from_slice(&std::fs::read(f.path()).unwrap()) {
                Ok(x) => t.merge(x),
                Err(_) => lost += 1,
            }
        }
    }
    std::fs::remove_dir_all(&scratch).ok();
    ctx.evaluations = t.runs;
    ctx.distinct = std::mem::take(&mut t.distinct);
    ctx.counters = t.counts;
    ctx.faults = t.faults;
    ctx.probes = t.probes;
    for s in t.samples.iter().take(4) {
        ctx.sample(Json::str(s.chars().take(1500).collect::<String>()));
    }
    for (key, what, replay) in t.violations {
        ctx.violation(Violation { key, what, replay });
    }
    ctx.rule = "distinct scripts (who does what with which values and faults), by their text".into();
    ctx.extra.push(("distinct_interleavings".into(), Json::Int(t.interleavings.len() as i64)));
    ctx.extra.push(("simulated_time_ticks".into(), Json::Int(t.simulated_time as i64)));
    ctx.extra.push(("systems_seed".into(), Json::Int(systems::SEED as i64)));
    ctx.extra.push(("unit_systems".into(), Json::Arr(info::infos().iter().map(|i| Json::str(format!("{}: {} symbols", i.name, i.symbols.len()))).collect())));
    ctx.extra.push((
        "real_code".into(),
        Json::str("diman's macro output for the SI system and seeded unit systems, serde, serde_json, serde_yaml, rand, glam, core::fmt, std's locks"),
    ));
    ctx.extra.push(("simulated".into(), Json::str("scheduler, time, pipes, files, sinks, readers and writers, source of random words, a binary serde format, the user's storage type")));
    ctx.assumptions = vec![
        "tasks switch at callbacks (reads, writes, sinks, random words, storage formatting), at locks and, for C11, at accesses to statics".into(),
        "the reference interpreter (sysgen) and the bare float paths of core and rand are right".into(),
    ];
    let runs = ctx.evaluations;
    let code = ctx.finish();
    if code == 0 {
        for b in &t.broken {
            eprintln!("{property}: {b}");
        }
        if !t.broken.is_empty() || lost > 0 || runs == 0 {
            eprintln!("{property}: no answer ({lost} workers lost, {runs} runs)");
            return 2;
        }
    }
    code
}
