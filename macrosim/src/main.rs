//! Simulates compilers that expand unit systems: C01-C04.
//!   macrosim check <property>     macrosim replay <file>     macrosim dump <property> <seed> <index>
#![feature(proc_macro_internals, proc_macro_diagnostic, proc_macro_span)]
#![allow(internal_features)]
extern crate proc_macro;
mod case;
mod child;
mod confirm;
mod exec;
mod gen_runs;
mod interpose;
mod items;
mod judge;
mod lex;
mod server;

use case::{Case, Thread};
use confirm::{Answer, Sut};
use gen_runs::{Run, What};
use judge::{Confirm, Verdict};
use simcore::evidence::{wall, Ctx, Json, Violation};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::CString;

extern "C" {
    fn dlopen(p: *const i8, flags: i32) -> *mut u8;
    fn dlsym(h: *mut u8, s: *const i8) -> *mut u8;
}

fn load(path: &str) -> server::Decls {
    let bytes = std::fs::read(path).expect("the macro's library");
    let pat = b"__rustc_proc_macro_decls_";
    let p = bytes.windows(pat.len()).position(|w| w == pat).expect("a proc macro");
    let e = bytes[p..].iter().position(|b| *b == 0).unwrap();
    let sym = CString::new(&bytes[p..p + e]).unwrap();
    let file = CString::new(path).unwrap();
    unsafe {
        let h = dlopen(file.as_ptr(), 2);
        assert!(!h.is_null(), "cannot load {path}");
        let d = dlsym(h, sym.as_ptr());
        assert!(!d.is_null());
        *(d as *const server::Decls)
    }
}

struct World {
    decls: BTreeMap<String, server::Decls>,
    info: BTreeMap<String, BTreeMap<String, String>>,
    target: String,
}
impl World {
    fn new(property: &str) -> World {
        let target = std::env::var("CARGO_TARGET_DIR").unwrap_or("/verif/target".into());
        let sizes: &[&str] = if property == "C01" { &["full", "min"] } else { &["min"] };
        let mut w = World { decls: BTreeMap::new(), info: BTreeMap::new(), target };
        for (size, kind) in sizes.iter().flat_map(|s| ["int", "rational"].map(|k| (s, k))) {
            let name = format!("{size}-{kind}");
            let text = std::fs::read_to_string(format!("{}/sut-{name}.info", w.target)).expect("run tools/build_sut.py first");
            let info: BTreeMap<String, String> = text.lines().filter_map(|l| l.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
            w.decls.insert(name.clone(), load(&info["so"]));
            w.info.insert(name, info);
        }
        w
    }
    fn run(&self, case: &Case, want_text: bool) -> child::Report {
        child::run(self.decls[&case.features], case, want_text)
    }
    fn sut(&self, features: &str, scratch: &str) -> Sut {
        let i = &self.info[features];
        Sut { so: i["so"].clone(), diman: i["rlib.diman"].clone(), deps: i["deps"].clone(), scratch: scratch.into() }
    }
    /// None: the real compiler does not agree that this is a violation.
    fn confirm(&self, case: &Case, v: &Verdict, scratch: &str, asked: &mut BTreeMap<String, u64>) -> Option<Verdict> {
        let Some((step, c)) = &v.confirm else { return Some(v.clone()) };
        let r = self.run(case, true);
        let Some(o) = r.outs.get(*step) else { return None };
        let sut = self.sut(&case.features, scratch);
        *asked.entry("questions put to the real compiler".into()).or_default() += 1;
        let a = match c {
            Confirm::Values(n) => confirm::values(&sut, case, o, n, case.property == "C02"),
            Confirm::Reported(k) => confirm::reported(&sut, case, o, *k),
        };
        match a {
            Answer::Violated(w) => Some(Verdict { key: v.key.clone(), what: format!("{}\nThe real compiler: {w}", v.what), confirm: None }),
            Answer::Fine => {
                *asked.entry("suspicions the real compiler refuted".into()).or_default() += 1;
                None
            }
            Answer::Unknown(w) => {
                *asked.entry("suspicions the real compiler could not settle".into()).or_default() += 1;
                if std::env::var("VERIF_VERBOSE").is_ok() {
                    eprintln!("unsettled: {} / {w}", v.what);
                }
                None
            }
        }
    }
}

/// What makes two verdicts the same violation while minimising.
fn class(property: &str, key: &str) -> String {
    if property == "C04" {
        key.to_string()
    } else {
        key.split('-').next().unwrap_or(key).to_string()
    }
}

#[derive(Default)]
struct Tally {
    n: u64,
    counts: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    distinct: BTreeSet<u64>,
    outputs: BTreeSet<u64>,
    samples: Vec<String>,
    violations: Vec<Violation>,
}

fn note(t: &mut Tally, run: &Run, case: &Case) {
    let mut f = |k: &str| *t.faults.entry(k.to_string()).or_default() += 1;
    for (s, p) in case.steps.iter().zip(&run.steps) {
        f("new hash key");
        match s.thread {
            Thread::Fresh => f("fresh thread"),
            Thread::Cross => f("macro on its own thread"),
            Thread::Same => {}
        }
        if matches!(p.what, What::Other(_)) {
            f("disturbing expansion");
        }
        if p.panic_at_diag.is_some() {
            f("compiler failure planned while reporting");
        }
        if p.panic_at_request.is_some() {
            f("compiler failure planned at a request");
        }
    }
    for x in &case.faults {
        f(&format!("faulty definition: {}", x.kind));
    }
}

fn worker(w: &World, property: &str, seed: u64, me: u64, of: u64, budget: f64, dir: &str, scratch: &str) -> Tally {
    let mut t = Tally::default();
    let end = wall() + budget;
    let stop = format!("{dir}/stop");
    let max: u64 = std::env::var("VERIF_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let mut asked = BTreeMap::new();
    let mut i = me;
    while wall() < end && i < max && !std::path::Path::new(&stop).exists() {
        let run = gen_runs::generate(property, seed, i);
        let case = run.case();
        let deep = property == "C02" && i % 160 == me * 21 % 160;
        let r = w.run(&case, deep);
        t.n += 1;
        note(&mut t, &run, &case);
        for (k, v) in &r.counts {
            *t.probes.entry(k.clone()).or_default() += v;
        }
        let text = case.to_text("");
        if case.steps[0].source.lines().count() > 4 {
            t.distinct.insert(simcore::fnv(text.as_bytes()));
        }
        t.outputs.insert(r.digest);
        if t.samples.is_empty() && i < 2 * of {
            t.samples.push(format!("seed {seed} run {i}\n{text}"));
        }
        if let Some(e) = &r.infra {
            *t.probes.entry(format!("runs without an answer: {e}")).or_default() += 1;
        }
        let mut verdict = r.verdict.clone();
        if deep && verdict.is_none() && r.infra.is_none() {
            // The real compiler on everything, whether or not the reader is content.
            let step = case.steps.iter().rposition(|s| s.role == "target").unwrap();
            *asked.entry("systems compiled and run completely".into()).or_insert(0) += 1;
            let sut = w.sut(&case.features, scratch);
            match confirm::values(&sut, &case, &r.outs[step], &[], true) {
                Answer::Violated(what) => {
                    verdict = Some(Verdict { key: "compiled-value".into(), what, confirm: Some((step, Confirm::Values(vec![]))) });
                }
                Answer::Fine => *asked.entry("systems compiled and found right".into()).or_insert(0) += 1,
                Answer::Unknown(e) => {
                    *asked.entry("systems that could not be compiled and run".into()).or_insert(0) += 1;
                    if std::env::var("VERIF_VERBOSE").is_ok() {
                        eprintln!("unknown: run {i}: {e}");
                    }
                }
            }
        }
        if let Some(v) = verdict {
            *t.probes.entry("suspicions".into()).or_default() += 1;
            if let Some(v) = w.confirm(&case, &v, scratch, &mut asked) {
                let cl = class(property, &v.key);
                let mut best = (run.clone(), v.clone());
                let limit = wall() + 60.0;
                if v.key != "compiled-value" {
                    let small = run.minimise(|r| wall() < limit && w.run(&r.case(), false).verdict.is_some_and(|x| class(property, &x.key) == cl));
                    let c = small.case();
                    if let Some(x) = w.run(&c, false).verdict.and_then(|x| w.confirm(&c, &x, scratch, &mut asked)) {
                        best = (small, x);
                    }
                }
                let (r, v) = best;
                let c = r.case();
                let head = format!(
                    "property {property} violated; VERIF_SEED {seed}, run {i}\n{}\nreplay: /verif/check.sh replay <this file>",
                    v.what
                );
                t.violations.push(Violation { key: v.key, what: v.what, replay: c.to_text(&head) });
                let _ = std::fs::write(&stop, "");
                break;
            }
        }
        i += of;
    }
    t.probes.extend(asked);
    t
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut c = s.chars();
    while let Some(x) = c.next() {
        if x == '\\' {
            match c.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(y) => o.push(y),
                None => {}
            }
        } else {
            o.push(x);
        }
    }
    o
}
fn save(t: &Tally, path: &str) {
    let mut o = format!("n\t{}\n", t.n);
    for (tag, m) in [("c", &t.counts), ("f", &t.faults), ("p", &t.probes)] {
        for (k, v) in m {
            o += &format!("{tag}\t{}\t{v}\n", esc(k));
        }
    }
    for d in &t.distinct {
        o += &format!("d\t{d}\n");
    }
    for d in &t.outputs {
        o += &format!("o\t{d}\n");
    }
    for s in &t.samples {
        o += &format!("s\t{}\n", esc(s));
    }
    for v in &t.violations {
        o += &format!("v\t{}\t{}\t{}\n", esc(&v.key), esc(&v.what), esc(&v.replay));
    }
    std::fs::write(path, o + "end\n").unwrap();
}

fn check(property: &str) -> i32 {
    let mut ctx = Ctx::new(property, 90.0, 1800.0);
    let w = World::new(property);
    let dir = format!("{}/macrosim-{property}", w.target);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    // The simulation itself must be repeatable: the same runs in two processes.
    let mut same = 0;
    for i in 0..6 {
        let c = gen_runs::generate(property, ctx.seed, i).case();
        let (a, b) = (w.run(&c, false), w.run(&c, false));
        if a.digest == b.digest {
            same += 1;
        }
    }
    ctx.count("self-test: runs repeated", 6);
    ctx.count("self-test: runs with identical output when repeated", same);
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 8) as u64;
    let budget = ctx.budget_s - ctx.elapsed();
    let pids: Vec<i32> = (0..n)
        .map(|k| {
            let (w, dir, seed) = (&w, &dir, ctx.seed);
            simcore::proc::spawn(move || {
                let scratch = format!("{dir}/w{k}");
                let t = worker(w, property, seed, k, n, budget, dir, &scratch);
                save(&t, &format!("{dir}/{k}.tally"));
                let _ = std::fs::remove_dir_all(&scratch);
                0
            })
        })
        .collect();
    let mut outputs = BTreeSet::new();
    let mut lost = 0;
    for (k, p) in pids.iter().enumerate() {
        let status = simcore::proc::wait(*p);
        let text = std::fs::read_to_string(format!("{dir}/{k}.tally")).unwrap_or_default();
        if status != 0 || !text.ends_with("end\n") {
            eprintln!("worker {k} failed with status {status}");
            lost += 1;
            continue;
        }
        for l in text.lines() {
            let f: Vec<String> = l.split('\t').map(unesc).collect();
            match (f[0].as_str(), &f[1..]) {
                ("n", [x]) => ctx.evaluations += x.parse::<u64>().unwrap(),
                ("c", [k, v]) => ctx.count(k, v.parse().unwrap()),
                ("f", [k, v]) => ctx.fault(k, v.parse().unwrap()),
                ("p", [k, v]) => ctx.probe(k, v.parse().unwrap()),
                ("d", [x]) => {
                    ctx.distinct.insert(x.parse().unwrap());
                }
                ("o", [x]) => {
                    outputs.insert(x.parse::<u64>().unwrap());
                }
                ("s", [x]) => ctx.sample(Json::str(x.clone())),
                ("v", [k, what, replay]) => ctx.violation(Violation { key: k.clone(), what: what.clone(), replay: replay.clone() }),
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    ctx.samples.truncate(3);
    ctx.rule = "each run: a random unit system (and random faulty statements for C03/C04, or none for C02), expanded several times by the simulated compiler under random statement orders, hash keys, threads, earlier and disturbing expansions and compiler failures; distinct: different sources or environments, non-trivial: more than four statements".into();
    ctx.extra.push(("distinct_outputs".into(), Json::Int(outputs.len() as i64)));
    ctx.extra.push(("real_components".into(), Json::str("diman_unit_system (the proc macro library as built by cargo from /repo), syn, quote, its own copy of std; rustc and diman_lib for the confirmations")));
    ctx.extra.push(("stub_components".into(), Json::str("the compiler behind the proc_macro bridge (tokens, spans, diagnostics, symbols), getrandom, clocks, process id")));
    ctx.extra.push(("simulated_time".into(), Json::str("the macro does not wait; every clock request advances a simulated clock by 12.345 us")));
    ctx.assumptions.push("the simulated proc_macro server answers like rustc's; suspected wrong values and unreported faults only count after the real rustc has judged the generated code".into());
    let failed = lost > 0 && ctx.violations.is_empty();
    let r = ctx.finish();
    if r == 0 && failed {
        2
    } else {
        r
    }
}

fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("the replay file");
    let case = Case::parse(&text).expect("a macrosim replay file");
    let w = World::new(&case.property);
    let dir = format!("{}/macrosim-replay", w.target);
    let r = w.run(&case, false);
    println!("digest of everything the macro put out: {:016x}", r.digest);
    let v = match (r.verdict, r.infra) {
        (Some(v), _) => w.confirm(&case, &v, &dir, &mut BTreeMap::new()),
        (None, Some(e)) => {
            eprintln!("no answer: {e}");
            return 2;
        }
        // Only the real compiler sees it.
        (None, None) if text.contains("compiled") => {
            let step = case.steps.iter().rposition(|s| s.role == "target").unwrap();
            w.confirm(&case, &Verdict { key: "compiled-value".into(), what: "wrong values in the compiled program".into(), confirm: Some((step, Confirm::Values(vec![]))) }, &dir, &mut BTreeMap::new())
        }
        _ => None,
    };
    let _ = std::fs::remove_dir_all(&dir);
    match v {
        Some(v) => {
            println!("  {}", v.what.replace('\n', "\n  "));
            println!("VIOLATION property={} replay={path}", case.property);
            1
        }
        None => {
            println!("{}: the recorded case holds", case.property);
            0
        }
    }
}

fn main() {
    simcore::proc::fix_addresses();
    let a: Vec<String> = std::env::args().collect();
    let c = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("replay") => replay(&a[2]),
        Some("dump") => {
            let r = gen_runs::generate(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            println!("{}", r.case().to_text("dump"));
            0
        }
        Some("text") => {
            let case = Case::parse(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let r = World::new(&case.property).run(&case, true);
            for o in &r.outs {
                println!("{:?}\n{}", o.errors, o.text.as_deref().unwrap_or("(no code)"));
            }
            println!("{:?} {:?}", r.verdict, r.counts);
            0
        }
        _ => {
            eprintln!("usage: macrosim check <property> | replay <file>");
            2
        }
    };
    std::process::exit(c);
}
