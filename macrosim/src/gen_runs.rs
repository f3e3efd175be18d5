//! Seeds to runs, runs to cases, smaller runs.
use crate::case::{Case, Expect, FaultX, Step, Thread};
use simcore::Rng;
use sysgen::faults::{self, Class, Fault};
use sysgen::reference::{meaning, names_of, snake, Kind};
use sysgen::{gen, Attr, Body, Stmt, System};

/// A run before it is turned into text: what the minimiser works on.
#[derive(Clone, Debug)]
pub struct Run {
    pub property: String,
    pub features: String,
    pub sys: System,
    pub healthy: System,
    pub faults: Vec<Fault>,
    pub steps: Vec<PStep>,
}
#[derive(Clone, Debug)]
pub enum What {
    /// The system, in the order given by this permutation key (None: as is).
    Target(Option<u64>),
    Healthy,
    Other(String),
    /// The healthy system and one fault; with or without the variants of the faulty unit.
    One(usize, bool),
}
#[derive(Clone, Debug)]
pub struct PStep {
    pub what: What,
    pub key: u64,
    pub thread: Thread,
    pub pad: u64,
    pub panic_at_diag: Option<usize>,
    pub panic_at_request: Option<u64>,
}

fn order(sys: &System, key: Option<u64>) -> System {
    match key {
        None => sys.clone(),
        Some(0) => sys.sorted(false),
        Some(1) => sys.sorted(true),
        Some(k) => sys.shuffled(&mut Rng::new(k)),
    }
}
fn env(rng: &mut Rng, what: What) -> PStep {
    PStep {
        what,
        key: rng.next() >> 1,
        thread: *rng.pick(&[Thread::Same, Thread::Same, Thread::Fresh, Thread::Cross]),
        pad: rng.next() >> 8,
        panic_at_diag: None,
        panic_at_request: None,
    }
}
fn other(rng: &mut Rng, rational: bool, near: &System) -> String {
    match rng.below(5) {
        0 => {
            let p = gen::Params::random(rng, rational);
            gen::system(rng, &p).text()
        }
        1 => {
            let p = gen::Params::random(rng, rational);
            let s = gen::system(rng, &p);
            faults::inject(rng, &s, Class::Any, 3).sys.text()
        }
        // The same names with other meanings.
        2 => {
            let mut s = near.clone();
            for st in &mut s.stmts {
                if let Body::Unit { rhs: Some(e), .. } | Body::Constant { rhs: e, .. } = &mut st.body {
                    *e = e.clone().mul(sysgen::Factor::Atom(sysgen::Atom::Num("2.5".into())));
                }
            }
            s.text()
        }
        3 => faults::inject(rng, near, Class::Any, 3).sys.text(),
        // Makes the macro itself panic.
        _ => "quantity_type Quantity; dimension_type Dimension; dimension L; dimension A = L^9223372036854775807; dimension B = A^2;".into(),
    }
}
pub fn disturb(rng: &mut Rng, rational: bool, near: &System) -> PStep {
    let o = other(rng, rational, near);
    let mut s = env(rng, What::Other(o));
    if rng.chance(0.3) {
        s.panic_at_diag = Some(rng.below(3));
    }
    if rng.chance(0.2) {
        s.panic_at_request = Some(1 + rng.below(3000) as u64);
    }
    s
}

pub fn generate(property: &str, seed: u64, index: u64) -> Run {
    let mut rng = Rng::derive(seed, property, index);
    let rational = rng.chance(0.4);
    let p = gen::Params::random(&mut rng, rational);
    let healthy = gen::system(&mut rng, &p);
    let kind = if rational { "rational" } else { "int" };
    let (class, faulty) = match property {
        "C01" => (Class::Any, rng.chance(0.5)),
        "C02" => (Class::Any, false),
        "C03" => (Class::Semantic, true),
        _ => (Class::Any, true),
    };
    let max = *rng.pick(if property == "C01" { &[1, 2, 3, 4, 5] } else { &[1, 1, 2, 3, 5] });
    let f = if faulty {
        faults::inject(&mut rng, &healthy, class, max)
    } else {
        faults::Faulty { healthy: healthy.clone(), sys: healthy.clone(), faults: vec![] }
    };
    let sys = f.sys.shuffled(&mut rng);
    let mut steps = vec![];
    let disturbances = |rng: &mut Rng, steps: &mut Vec<PStep>, prob: f64| {
        while rng.chance(prob) {
            steps.push(disturb(rng, rational, &sys));
        }
    };
    match property {
        "C01" => {
            for i in 0..rng.range(3, 5) {
                if i > 0 || rng.chance(0.2) {
                    disturbances(&mut rng, &mut steps, 0.4);
                }
                steps.push(env(&mut rng, What::Target(None)));
            }
        }
        "C02" => {
            for k in [0, 1, 2 + (rng.next() >> 8)] {
                disturbances(&mut rng, &mut steps, 0.1);
                steps.push(env(&mut rng, What::Target(Some(k))));
            }
        }
        "C03" => {
            steps.push(env(&mut rng, What::Healthy));
            for k in [0, 2 + (rng.next() >> 8)] {
                disturbances(&mut rng, &mut steps, 0.1);
                steps.push(env(&mut rng, What::Target(Some(k))));
            }
            if let Some(i) = f.faults.iter().position(|f| f.kind == "undefined-variants") {
                steps.push(env(&mut rng, What::One(i, true)));
                steps.push(env(&mut rng, What::One(i, false)));
            }
        }
        _ => {
            for k in [rng.next() % 2, 2 + (rng.next() >> 8)] {
                disturbances(&mut rng, &mut steps, 0.1);
                steps.push(env(&mut rng, What::Target(Some(k))));
            }
        }
    }
    let full = property == "C01" && rng.chance(0.35);
    Run { property: property.into(), features: format!("{}-{kind}", if full { "full" } else { "min" }), sys, healthy, faults: f.faults, steps }
}

impl Run {
    pub fn case(&self) -> Case {
        let tainted = faults::tainted(&self.sys, &self.faults);
        let m = meaning(&self.healthy);
        let (mut q, mut d) = ("Quantity".to_string(), "Dimension".to_string());
        for s in self.sys.stmts.iter().rev() {
            match &s.body {
                Body::QuantityType(n) => q = n.clone(),
                Body::DimensionType(n) => d = n.clone(),
                _ => {}
            }
        }
        let mut variants = vec![];
        let steps = self
            .steps
            .iter()
            .map(|s| {
                let (role, source) = match &s.what {
                    What::Target(k) => ("target", order(&self.sys, *k).text()),
                    What::Healthy => ("healthy", self.healthy.text()),
                    What::Other(t) => ("disturb", t.clone()),
                    What::One(i, full) => {
                        let mut st = self.faults[*i].stmts[0].clone();
                        if *full {
                            variants = names_of(&st).into_iter().filter(|n| Some(n.as_str()) != st.name()).collect();
                        } else {
                            st.attrs.retain(|a| matches!(a, Attr::Symbol(_)));
                        }
                        let mut sys = self.healthy.clone();
                        // Names the fault's expression refers to must be there.
                        sys.stmts.push(st);
                        for s in &self.sys.stmts {
                            if !self.healthy.stmts.contains(s) && !sys.stmts.iter().any(|t| t.name() == s.name()) && !self.faults.iter().any(|f| f.stmts.contains(s)) {
                                sys.stmts.push(s.clone());
                            }
                        }
                        (if *full { "one" } else { "stripped" }, sys.text())
                    }
                };
                Step {
                    role: role.into(),
                    key: s.key,
                    thread: s.thread,
                    pad: s.pad,
                    panic_at_diag: s.panic_at_diag,
                    panic_at_request: s.panic_at_request,
                    source,
                }
            })
            .collect();
        let expects = if self.property == "C02" || self.property == "C03" {
            let present: std::collections::BTreeSet<String> = self.sys.stmts.iter().flat_map(names_of).collect();
            m.values
                .iter()
                .filter(|(n, _)| !tainted.contains(*n) && present.contains(*n))
                .map(|(n, v)| Expect {
                    name: n.clone(),
                    kind: match v.kind {
                        Kind::Dimension => 'd',
                        Kind::Unit => 'u',
                        Kind::Constant => 'c',
                    },
                    dims: v.dims.clone(),
                    mag: v.mag,
                    tol: v.tol,
                })
                .collect()
        } else {
            vec![]
        };
        let text = |s: &Stmt| sysgen::stmt(s);
        Case {
            property: self.property.clone(),
            features: self.features.clone(),
            quantity: q,
            dimension: d,
            bases: m.bases.iter().filter(|b| !tainted.contains(*b)).map(|b| (b.clone(), snake(b))).collect(),
            steps,
            expects,
            faults: self
                .faults
                .iter()
                .map(|f| FaultX {
                    kind: f.kind.into(),
                    fatal: f.fatal,
                    names: f.names.clone(),
                    phrases: f.phrases.iter().map(|s| s.to_string()).collect(),
                    stmts: f.stmts.iter().map(text).collect(),
                    taints: {
                        // Everything that depends on it, too.
                        faults::tainted(&self.sys, std::slice::from_ref(f)).into_iter().collect()
                    },
                })
                .collect(),
            variants,
        }
    }

    /// Smaller runs that may still show the same violation.
    pub fn minimise(&self, mut fails: impl FnMut(&Run) -> bool) -> Run {
        let mut best = self.clone();
        let mut budget = 400usize;
        // Steps.
        let steps = simcore::minimise::list(&best.steps.clone(), 40, |s| {
            let mut r = best.clone();
            r.steps = s.to_vec();
            let targets = s.iter().filter(|s| matches!(s.what, What::Target(_))).count();
            targets >= if r.property == "C01" { 2 } else { 1 } && fails(&r)
        });
        best.steps = steps;
        // Simpler environments.
        for i in 0..best.steps.len() {
            for f in [
                |s: &mut PStep| s.pad = 0,
                |s: &mut PStep| s.thread = Thread::Same,
                |s: &mut PStep| s.panic_at_diag = None,
                |s: &mut PStep| s.panic_at_request = None,
            ] {
                let mut r = best.clone();
                f(&mut r.steps[i]);
                if fails(&r) {
                    best = r;
                }
            }
        }
        // Faults that are not needed, with their statements.
        let mut i = 0;
        while i < best.faults.len() {
            let mut r = best.clone();
            let f = r.faults.remove(i);
            r.sys.stmts.retain(|s| !f.stmts.contains(s));
            if r.steps.iter().any(|s| matches!(s.what, What::One(..))) {
                break;
            }
            if !r.faults.is_empty() && fails(&r) {
                best = r;
            } else {
                i += 1;
            }
        }
        // Statements nothing else needs, one by one, until nothing more goes.
        loop {
            let before = best.sys.stmts.len();
            let mut i = best.sys.stmts.len();
            while i > 0 && budget > 0 {
                i -= 1;
                let s = best.sys.stmts[i].clone();
                if matches!(s.body, Body::QuantityType(_) | Body::DimensionType(_) | Body::Raw(_)) || best.faults.iter().any(|f| f.stmts.contains(&s)) {
                    continue;
                }
                let own = names_of(&s);
                let needed = best.sys.stmts.iter().enumerate().any(|(j, t)| {
                    j != i && {
                        let ann = match &t.body {
                            Body::Unit { annotation, .. } | Body::Constant { annotation, .. } => annotation.clone(),
                            _ => None,
                        };
                        sysgen::reference::deps_of(t).iter().chain(ann.iter()).any(|d| own.contains(d))
                    }
                });
                let is_last_base = matches!(&s.body, Body::Dimension { rhs: None, .. })
                    && best.sys.stmts.iter().filter(|t| matches!(&t.body, Body::Dimension { rhs: None, .. })).count() == 1;
                if needed || is_last_base {
                    continue;
                }
                let mut r = best.clone();
                r.sys.stmts.remove(i);
                r.healthy.stmts.retain(|t| *t != s);
                budget -= 1;
                if fails(&r) {
                    best = r;
                }
            }
            if best.sys.stmts.len() == before || budget == 0 {
                break;
            }
        }
        best
    }
}
