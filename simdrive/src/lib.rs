//! Drives a simulator: seeded histories of runs in processes of their own, on all cores, with minimisation, replay
//! files and evidence.
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use simcore::evidence::{wall, Ctx, Json, Violation};
use simcore::proc::{self, Ended, Limits};
use simcore::{fnv, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Verdict {
    /// What kind of violation it is; kept while minimising.
    pub key: String,
    pub what: String,
}
pub fn verdict(key: impl Into<String>, what: impl Into<String>) -> Verdict {
    Verdict { key: key.into(), what: what.into() }
}
pub fn bump(m: &mut BTreeMap<String, u64>, k: impl Into<String>, n: u64) {
    if n > 0 {
        *m.entry(k.into()).or_default() += n;
    }
}
#[derive(Clone, Default, Serialize, Deserialize)]
pub struct Report {
    pub verdict: Option<Verdict>,
    /// Fingerprint of everything that happened.
    pub log: u64,
    /// Libraries of others may behave differently when this is repeated.
    pub unsteady: bool,
    pub switches: Vec<(u64, usize)>,
    pub time: u64,
    pub counts: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
}
pub trait Sim: Sized {
    type Case: Clone + PartialEq + Serialize + DeserializeOwned;
    const PROPERTY: &'static str;
    /// The largest usual number of runs of one process.
    const PER: usize;
    fn generate(&self, rng: &mut Rng) -> Self::Case;
    /// In a process of its own, after the earlier cases of the history.
    fn execute(&self, c: &Self::Case) -> Report;
    /// In the parent of that process; what it returns fails alone, or by comparison.
    fn twin(&self, _c: &Self::Case) -> Option<Self::Case> {
        None
    }
    fn smaller(&self, c: &Self::Case) -> Vec<Self::Case>;
    /// The case with exactly this schedule.
    fn fixed(&self, _c: &Self::Case, _sw: Vec<(u64, usize)>) -> Option<Self::Case> {
        None
    }
    /// Lines of the replay file.
    fn header() -> Vec<(&'static str, String)>;
    fn evidence(ctx: &mut Ctx);
    fn crash_is(&self, e: &Ended) -> Verdict {
        verdict("crash", format!("The process {}", e.text()))
    }
}
#[derive(Default, Serialize, Deserialize)]
struct Tally {
    runs: u64,
    counts: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    distinct: BTreeSet<u64>,
    interleavings: BTreeSet<u64>,
    simulated_time: u64,
    samples: Vec<String>,
    violations: Vec<(String, String, String)>,
    broken: Vec<String>,
}
impl Tally {
    fn merge(&mut self, o: Tally) {
        self.runs += o.runs;
        for (a, b) in [(&mut self.counts, o.counts), (&mut self.faults, o.faults), (&mut self.probes, o.probes)] {
            for (k, v) in b {
                bump(a, k, v);
            }
        }
        self.distinct.extend(o.distinct);
        self.interleavings.extend(o.interleavings);
        self.simulated_time += o.simulated_time;
        self.samples.extend(o.samples);
        self.violations.extend(o.violations);
        self.broken.extend(o.broken);
    }
}
fn limits() -> Limits {
    Limits { cpu_s: 30, wall_s: 120, memory: 8 << 30 }
}
static REPORTS: Mutex<Vec<Report>> = Mutex::new(vec![]);
/// Ends the process of a history from within its last run.
pub fn end_with(r: Report) -> ! {
    let mut all = REPORTS.lock().unwrap();
    all.push(r);
    proc::answer(serde_json::to_vec(&*all).unwrap())
}
fn run_all<S: Sim>(s: &S, cases: &[S::Case]) -> Result<Vec<Report>, Ended> {
    let b = proc::forked(&limits(), || {
        for c in cases {
            let r = s.execute(c);
            let stop = r.verdict.is_some();
            REPORTS.lock().unwrap().push(r);
            if stop {
                break;
            }
        }
        serde_json::to_vec(&*REPORTS.lock().unwrap()).unwrap()
    })?;
    serde_json::from_slice(&b).map_err(|e| Ended::Infra(e.to_string()))
}
fn ends<S: Sim>(s: &S, cases: &[S::Case]) -> Option<Verdict> {
    match run_all(s, cases) {
        Ok(r) => r.last().and_then(|r| r.verdict.clone()),
        Err(Ended::Infra(_)) => None,
        Err(e) => Some(s.crash_is(&e)),
    }
}
/// The violation a history ends in. Not one if the same history without the code under test ends like that.
fn fails<S: Sim>(s: &S, cases: &[S::Case]) -> Option<Verdict> {
    let v = ends(s, cases)?;
    let twin: Option<Vec<S::Case>> = cases.iter().map(|c| s.twin(c)).collect();
    match twin {
        Some(t) if ends(s, &t).is_some() => None,
        _ => Some(v),
    }
}
fn minimise<S: Sim>(s: &S, mut cases: Vec<S::Case>, key: &str, end: f64) -> (Vec<S::Case>, Verdict) {
    let mut best = fails(s, &cases).unwrap_or(verdict(key, "not reproduced"));
    let mut keep = |c: &[S::Case]| -> bool {
        if wall() > end {
            return false;
        }
        match fails(s, c) {
            Some(v) if v.key == key => {
                best = v;
                true
            }
            _ => false,
        }
    };
    if cases.len() > 1 {
        let last = cases.pop().unwrap();
        if keep(&[last.clone()]) {
            cases = vec![last];
        } else {
            cases = simcore::minimise::list(&cases, 60, |h| {
                let mut c = h.to_vec();
                c.push(last.clone());
                keep(&c)
            });
            cases.push(last);
        }
    }
    for k in (0..cases.len()).rev() {
        'again: while wall() < end {
            for x in s.smaller(&cases[k]) {
                if x == cases[k] {
                    continue;
                }
                let mut c = cases.clone();
                c[k] = x;
                if keep(&c) {
                    cases = c;
                    continue 'again;
                }
            }
            break;
        }
    }
    for k in 0..cases.len() {
        let Ok(r) = run_all(s, &cases[..=k]) else { continue };
        let Some(sw) = r.get(k).map(|r| r.switches.clone()) else { continue };
        let with = |sw: &[(u64, usize)]| -> Option<Vec<S::Case>> {
            let mut c = cases.clone();
            c[k] = s.fixed(&cases[k], sw.to_vec())?;
            Some(c)
        };
        if !with(&sw).is_some_and(|c| keep(&c)) {
            continue;
        }
        let min = simcore::minimise::list(&sw, 120, |x| with(x).is_some_and(|c| keep(&c)));
        if let Some(c) = with(&min) {
            if keep(&c) {
                cases = c;
            } else if let Some(c) = with(&sw) {
                cases = c;
            }
        }
    }
    (cases, best)
}
fn replay_text<S: Sim>(_s: &S, cases: &[S::Case], v: &Verdict) -> String {
    let mut o = String::new();
    for l in v.what.lines() {
        o += &format!("# {l}\n");
    }
    o += &format!("property {}\n", S::PROPERTY);
    for (k, x) in S::header() {
        o += &format!("{k} {x}\n");
    }
    o += &format!("key {}\n", v.key);
    for c in cases {
        o += &format!("case {}\n", serde_json::to_string(c).unwrap());
    }
    o
}
fn note<S: Sim>(t: &mut Tally, c: &S::Case, r: &Report) {
    t.runs += 1;
    t.simulated_time += r.time;
    t.distinct.insert(fnv(serde_json::to_string(c).unwrap().as_bytes()));
    t.interleavings.insert(r.log);
    for (a, b) in [(&mut t.counts, &r.counts), (&mut t.faults, &r.faults), (&mut t.probes, &r.probes)] {
        for (k, v) in b {
            bump(a, k.clone(), *v);
        }
    }
}
fn worker<S: Sim>(s: &S, seed: u64, me: u64, of: u64, budget: f64, dir: &str) -> Tally {
    let mut t = Tally::default();
    let end = wall() + budget;
    let stop = format!("{dir}/stop");
    let max: u64 = std::env::var("VERIF_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let mut batch = me;
    while wall() < end && batch < max && !std::path::Path::new(&stop).exists() {
        let mut rng = Rng::derive(seed, S::PROPERTY, batch);
        // Histories of different lengths.
        let long = rng.chance(0.1);
        let n = 1 + rng.below(S::PER * if long { 4 } else { 1 });
        let cases: Vec<S::Case> = (0..n).map(|_| s.generate(&mut rng)).collect();
        let mut first = None;
        let bad = match run_all(s, &cases) {
            Ok(reports) => {
                first = reports.last().and_then(|r| r.verdict.clone());
                for (c, r) in cases.iter().zip(&reports) {
                    note::<S>(&mut t, c, r);
                    if t.samples.len() < 2 && t.runs % 37 == 1 {
                        t.samples.push(serde_json::to_string(c).unwrap());
                    }
                }
                // One in so many histories is repeated, which must give the same events.
                if batch / of % 23 == 3 {
                    if let Ok(again) = run_all(s, &cases) {
                        bump(&mut t.counts, "histories repeated to see that they are deterministic", 1);
                        let mut differ = again.len() != reports.len();
                        for (a, b) in again.iter().zip(&reports) {
                            if a.log != b.log && b.unsteady {
                                bump(&mut t.counts, "of these, cases in which a library shows what happens to be in memory", 1);
                            }
                            differ |= a.log != b.log && !b.unsteady;
                        }
                        if differ {
                            t.broken.push(format!("batch {batch} of seed {seed} is not deterministic"));
                        }
                    }
                }
                reports.last().is_some_and(|r| r.verdict.is_some()).then_some(reports.len())
            }
            Err(Ended::Infra(e)) => {
                bump(&mut t.counts, format!("batches lost: {e}"), 1);
                None
            }
            Err(_) => {
                // The first prefix that ends like this.
                let (mut lo, mut hi) = (1, cases.len());
                while lo < hi {
                    let mid = (lo + hi) / 2;
                    if ends(s, &cases[..mid]).is_some() {
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                }
                Some(lo)
            }
        };
        if let Some(n) = bad {
            let head = &cases[..n];
            match (fails(s, head), ends(s, head)) {
                (Some(v), _) => {
                    std::fs::write(&stop, "").ok();
                    let (min, v) = minimise(s, head.to_vec(), &v.key, wall() + 60.0);
                    t.violations.push((v.key.clone(), v.what.clone(), replay_text(s, &min, &v)));
                    return t;
                }
                (None, Some(v)) => t.broken.push(format!("batch {batch} of seed {seed} fails without the code under test: {}", v.what)),
                _ => {
                    eprintln!("{}: batch {batch} of seed {seed} failed only once: {}", S::PROPERTY, first.map(|v| v.what).unwrap_or_default());
                    bump(&mut t.counts, "batches that failed only once", 1)
                }
            }
        }
        batch += of;
    }
    t
}
/// `start` prepares a process that is going to run cases.
pub fn main<S: Sim>(start: impl Fn() -> S, quick_s: f64, thorough_s: f64) {
    if std::env::var("VERIF_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    proc::fix_addresses();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check::<S>(quick_s, thorough_s)),
        Some("worker") => {
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            let t = worker(&start(), n(2), n(3), n(4), args[5].parse().unwrap(), &args[6]);
            std::fs::write(format!("{}/{}.json", args[6], args[3]), serde_json::to_vec(&t).unwrap()).unwrap();
        }
        Some("replay") => {
            let s = start();
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let cases: Vec<S::Case> = text.lines().filter_map(|l| l.strip_prefix("case ")).map(|l| serde_json::from_str(l).expect("a case")).collect();
            match fails(&s, &cases) {
                Some(v) => {
                    println!("{}", v.what);
                    println!("VIOLATION property={} replay={}", S::PROPERTY, args[2]);
                    std::process::exit(1);
                }
                None => println!("{}: the recorded execution no longer violates the property", S::PROPERTY),
            }
        }
        // The digests of a batch's cases, twice.
        Some("batch") => {
            let s = start();
            let mut rng = Rng::derive(args[2].parse().unwrap(), S::PROPERTY, args[3].parse().unwrap());
            let long = rng.chance(0.1);
            let n = 1 + rng.below(S::PER * if long { 4 } else { 1 });
            let cases: Vec<S::Case> = (0..n).map(|_| s.generate(&mut rng)).collect();
            for _ in 0..4 {
                match run_all(&s, &cases) {
                    Ok(r) => println!("{:?}", r.iter().map(|r| r.log).collect::<Vec<_>>()),
                    Err(e) => println!("{e:?}"),
                }
            }
        }
        Some("dump") => {
            let s = start();
            let mut rng = Rng::derive(args[2].parse().unwrap(), S::PROPERTY, args[3].parse().unwrap());
            rng.chance(0.1);
            rng.below(1);
            println!("{}", serde_json::to_string_pretty(&s.generate(&mut rng)).unwrap());
        }
        _ => std::process::exit(2),
    }
}
fn check<S: Sim>(quick_s: f64, thorough_s: f64) -> i32 {
    let mut ctx = Ctx::new(S::PROPERTY, quick_s, thorough_s);
    let scratch = format!("{}/sim-{}-{}", std::env::temp_dir().display(), S::PROPERTY, std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    let me = std::env::current_exe().unwrap();
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16) as u64;
    let mut children = vec![];
    for i in 0..cores {
        let c = std::process::Command::new(&me)
            .args(["worker", &ctx.seed.to_string(), &i.to_string(), &cores.to_string(), &ctx.budget_s.to_string(), &scratch])
            .env("TMPDIR", &scratch)
            .spawn()
            .expect("worker");
        children.push(c);
    }
    let mut lost = 0;
    for mut c in children {
        lost += !c.wait().map(|s| s.success()).unwrap_or(false) as u64;
    }
    let mut t = Tally::default();
    for f in std::fs::read_dir(&scratch).unwrap().flatten() {
        if f.path().extension().is_some_and(|e| e == "json") {
            match serde_json::from_slice(&std::fs::read(f.path()).unwrap()) {
                Ok(x) => t.merge(x),
                Err(_) => lost += 1,
            }
        }
    }
    std::fs::remove_dir_all(&scratch).ok();
    ctx.evaluations = t.runs;
    ctx.distinct = std::mem::take(&mut t.distinct);
    ctx.counters = t.counts;
    ctx.faults = t.faults;
    ctx.probes = t.probes;
    for s in t.samples.iter().take(4) {
        ctx.sample(Json::str(s.chars().take(1500).collect::<String>()));
    }
    for (key, what, replay) in t.violations {
        ctx.violation(Violation { key, what, replay });
    }
    ctx.rule = "distinct scripts (who does what with which values and faults), by their text".into();
    ctx.extra.push(("distinct_event_histories".into(), Json::Int(t.interleavings.len() as i64)));
    ctx.extra.push(("simulated_time_ticks".into(), Json::Int(t.simulated_time as i64)));
    S::evidence(&mut ctx);
    let runs = ctx.evaluations;
    let code = ctx.finish();
    if code == 0 {
        for b in &t.broken {
            eprintln!("{}: {b}", S::PROPERTY);
        }
        if !t.broken.is_empty() || lost > 0 || runs == 0 {
            eprintln!("{}: no answer ({lost} workers lost, {runs} runs)", S::PROPERTY);
            return 2;
        }
    }
    code
}
