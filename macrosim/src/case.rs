//! One simulated execution: what is expanded, where, after what; and what must come out. Also the replay file.
use std::fmt::Write as _;
use sysgen::reference::Dims;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Thread {
    /// On the thread that ran the previous steps.
    Same,
    /// On a new thread.
    Fresh,
    /// The macro on a thread of its own, talking to the server through a pipe.
    Cross,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    /// "target": compared / judged; "disturb": only happens; "healthy": the system without faults; "one"/"stripped": see C03.
    pub role: String,
    pub key: u64,
    pub thread: Thread,
    pub pad: u64,
    pub panic_at_diag: Option<usize>,
    pub panic_at_request: Option<u64>,
    pub source: String,
}
#[derive(Clone, Debug)]
pub struct Expect {
    pub name: String,
    pub kind: char,
    pub dims: Dims,
    pub mag: f64,
    pub tol: f64,
}
#[derive(Clone, Debug, Default)]
pub struct FaultX {
    pub kind: String,
    pub fatal: bool,
    pub names: Vec<String>,
    pub phrases: Vec<String>,
    pub stmts: Vec<String>,
    pub taints: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Case {
    pub property: String,
    pub features: String,
    pub quantity: String,
    pub dimension: String,
    /// name of a base dimension -> field name the reference uses
    pub bases: Vec<(String, String)>,
    pub steps: Vec<Step>,
    pub expects: Vec<Expect>,
    pub faults: Vec<FaultX>,
    /// C03: names that only exist as prefixed or aliased variants of the unit of step "one".
    pub variants: Vec<String>,
}

impl Case {
    pub fn to_text(&self, header: &str) -> String {
        let mut o = String::new();
        for l in header.lines() {
            let _ = writeln!(o, "# {l}");
        }
        let _ = writeln!(o, "property {}\nfeatures {}\ntypes {} {}", self.property, self.features, self.quantity, self.dimension);
        for (b, f) in &self.bases {
            let _ = writeln!(o, "base {b} {f}");
        }
        for s in &self.steps {
            let opt = |x: Option<u64>| x.map(|x| x.to_string()).unwrap_or("-".into());
            let _ = writeln!(
                o,
                "step {} key={} thread={} pad={} panic_at_diag={} panic_at_request={}",
                s.role,
                s.key,
                match s.thread {
                    Thread::Same => "same",
                    Thread::Fresh => "fresh",
                    Thread::Cross => "cross",
                },
                s.pad,
                opt(s.panic_at_diag.map(|x| x as u64)),
                opt(s.panic_at_request)
            );
            for l in s.source.lines() {
                let _ = writeln!(o, "| {l}");
            }
        }
        for e in &self.expects {
            let _ = write!(o, "expect {} {} {:016x} {:e}", e.kind, e.name, e.mag.to_bits(), e.tol);
            for (k, v) in &e.dims {
                let _ = write!(o, " {k}={}/{}", v.0, v.1);
            }
            o.push('\n');
        }
        for f in &self.faults {
            let _ = writeln!(o, "fault {} {}", f.kind, if f.fatal { "fatal" } else { "semantic" });
            for (k, v) in [("name", &f.names), ("phrase", &f.phrases), ("stmt", &f.stmts), ("taint", &f.taints)] {
                for x in v {
                    let _ = writeln!(o, "  {k} {x}");
                }
            }
        }
        for v in &self.variants {
            let _ = writeln!(o, "variant {v}");
        }
        o
    }
    pub fn parse(text: &str) -> Option<Case> {
        let mut c = Case {
            property: String::new(),
            features: String::new(),
            quantity: String::new(),
            dimension: String::new(),
            bases: vec![],
            steps: vec![],
            expects: vec![],
            faults: vec![],
            variants: vec![],
        };
        for l in text.lines() {
            if l.starts_with('#') || l.trim().is_empty() {
                continue;
            }
            if let Some(src) = l.strip_prefix("| ").or(l.strip_prefix("|")) {
                let s = c.steps.last_mut()?;
                s.source.push_str(src);
                s.source.push('\n');
                continue;
            }
            let w: Vec<&str> = l.split_whitespace().collect();
            match w[0] {
                "property" => c.property = w.get(1)?.to_string(),
                "features" => c.features = w.get(1)?.to_string(),
                "types" => {
                    c.quantity = w.get(1)?.to_string();
                    c.dimension = w.get(2)?.to_string();
                }
                "base" => c.bases.push((w.get(1)?.to_string(), w.get(2)?.to_string())),
                "step" => {
                    let get = |k: &str| w.iter().find_map(|x| x.strip_prefix(k)?.strip_prefix('='));
                    c.steps.push(Step {
                        role: w.get(1)?.to_string(),
                        key: get("key")?.parse().ok()?,
                        thread: match get("thread")? {
                            "same" => Thread::Same,
                            "fresh" => Thread::Fresh,
                            _ => Thread::Cross,
                        },
                        pad: get("pad")?.parse().ok()?,
                        panic_at_diag: get("panic_at_diag")?.parse().ok(),
                        panic_at_request: get("panic_at_request")?.parse().ok(),
                        source: String::new(),
                    });
                }
                "expect" => {
                    let mut dims = Dims::new();
                    for d in &w[5..] {
                        let (k, v) = d.split_once('=')?;
                        let (a, b) = v.split_once('/')?;
                        dims.insert(k.into(), (a.parse().ok()?, b.parse().ok()?));
                    }
                    c.expects.push(Expect {
                        kind: w.get(1)?.chars().next()?,
                        name: w.get(2)?.to_string(),
                        dims,
                        mag: f64::from_bits(u64::from_str_radix(w.get(3)?, 16).ok()?),
                        tol: w.get(4)?.parse().ok()?,
                    });
                }
                "fault" => c.faults.push(FaultX { kind: w.get(1)?.to_string(), fatal: *w.get(2)? == "fatal", ..Default::default() }),
                k @ ("name" | "phrase" | "stmt" | "taint") => {
                    let f = c.faults.last_mut()?;
                    let rest = l.trim_start()[k.len()..].trim_start().to_string();
                    match k {
                        "name" => f.names.push(rest),
                        "phrase" => f.phrases.push(rest),
                        "stmt" => f.stmts.push(rest),
                        _ => f.taints.push(rest),
                    }
                }
                "variant" => c.variants.push(w.get(1)?.to_string()),
                _ => return None,
            }
        }
        Some(c)
    }
}
