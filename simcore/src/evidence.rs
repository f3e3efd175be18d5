//! Command line, evidence file, violations and known findings.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

#[derive(Clone, Debug)]
pub enum Json {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<Json>),
    Obj(Vec<(String, Json)>),
}
impl Json {
    pub fn str(s: impl Into<String>) -> Json {
        Json::Str(s.into())
    }
    pub fn render(&self, out: &mut String) {
        match self {
            Json::Null => out.push_str("null"),
            Json::Bool(b) => write!(out, "{b}").unwrap(),
            Json::Int(i) => write!(out, "{i}").unwrap(),
            Json::Num(x) => {
                if x.is_finite() {
                    write!(out, "{x}").unwrap()
                } else {
                    out.push_str("null")
                }
            }
            Json::Str(s) => escape(s, out),
            Json::Arr(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push_str(", ");
                    }
                    x.render(out);
                }
                out.push(']');
            }
            Json::Obj(o) => {
                out.push('{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push_str(", ");
                    }
                    escape(k, out);
                    out.push_str(": ");
                    v.render(out);
                }
                out.push('}');
            }
        }
    }
}
fn escape(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(out, "\\u{:04x}", c as u32).unwrap(),
            c => out.push(c),
        }
    }
    out.push('"');
}

/// Wall clock by raw system call: the simulators replace `clock_gettime` for the code under test.
pub fn wall() -> f64 {
    let mut ts = [0i64; 2];
    unsafe {
        core::arch::asm!(
            "syscall",
            inlateout("rax") 228i64 => _,
            in("rdi") 1i64,
            in("rsi") ts.as_mut_ptr(),
            lateout("rcx") _,
            lateout("r11") _,
        );
    }
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// Identifies the failing input / site; compared with known findings.
    pub key: String,
    pub what: String,
    /// The content of the replay file.
    pub replay: String,
}

pub struct Ctx {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub level: &'static str,
    pub start: f64,
    pub budget_s: f64,
    pub verif: String,
    pub counters: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub distinct: BTreeSet<u64>,
    pub evaluations: u64,
    pub samples: Vec<Json>,
    pub rule: String,
    pub extra: Vec<(String, Json)>,
    pub assumptions: Vec<String>,
    pub violations: Vec<Violation>,
}

impl Ctx {
    pub fn new(property: &str, quick_s: f64, thorough_s: f64) -> Ctx {
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let tier = if tier == "thorough" { "thorough" } else { "quick" }.to_string();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
        let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let budget_s = std::env::var("VERIF_BUDGET_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if tier == "thorough" { thorough_s } else { quick_s });
        println!("{property}: VERIF_SEED={seed} tier={tier}");
        Ctx {
            property: property.into(),
            tier,
            seed,
            level: "exploration",
            start: wall(),
            budget_s,
            verif,
            counters: BTreeMap::new(),
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            distinct: BTreeSet::new(),
            evaluations: 0,
            samples: vec![],
            rule: String::new(),
            extra: vec![],
            assumptions: vec![],
            violations: vec![],
        }
    }
    pub fn elapsed(&self) -> f64 {
        wall() - self.start
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.into()).or_insert(0) += n;
    }
    pub fn fault(&mut self, k: &str, n: u64) {
        *self.faults.entry(k.into()).or_insert(0) += n;
    }
    pub fn probe(&mut self, k: &str, n: u64) {
        *self.probes.entry(k.into()).or_insert(0) += n;
    }
    pub fn sample(&mut self, j: Json) {
        if self.samples.len() < 6 {
            self.samples.push(j);
        }
    }
    pub fn violation(&mut self, v: Violation) {
        if !self.violations.iter().any(|w| w.key == v.key) {
            self.violations.push(v);
        }
    }

    fn known(&self) -> Vec<(String, String)> {
        // Lines "finding: property=<id> key=<key> <what fails>" suppress; "fixed: ..." lines do not.
        let text = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS", self.verif)).unwrap_or_default();
        text.lines()
            .filter_map(|l| {
                let rest = l.strip_prefix("finding: ")?.strip_prefix(&format!("property={} ", self.property))?;
                let rest = rest.strip_prefix("key=")?;
                let (key, what) = rest.split_once(' ').unwrap_or((rest, ""));
                Some((key.to_string(), what.to_string()))
            })
            .collect()
    }

    /// Writes the evidence, reports, and returns the exit status.
    pub fn finish(mut self) -> i32 {
        let wall_s = self.elapsed();
        let known = self.known();
        let mut unknown = vec![];
        for v in std::mem::take(&mut self.violations) {
            if let Some((k, what)) = known.iter().find(|(k, _)| *k == v.key) {
                println!("KNOWN-FINDING: property={} {} ({})", self.property, what, k);
            } else {
                unknown.push(v);
            }
        }
        let to_obj = |m: &BTreeMap<String, u64>| Json::Obj(m.iter().map(|(k, v)| (k.clone(), Json::Int(*v as i64))).collect());
        let mut coverage = vec![
            ("evaluations".into(), Json::Int(self.evaluations as i64)),
            ("distinct_nontrivial".into(), Json::Int(self.distinct.len() as i64)),
            ("rule".into(), Json::str(self.rule.clone())),
            ("samples".into(), Json::Arr(self.samples.clone())),
            (
                "simulated_runs_per_hour".into(),
                Json::Int((self.evaluations as f64 / wall_s.max(1e-3) * 3600.0) as i64),
            ),
            ("faults_injected".into(), to_obj(&self.faults)),
            ("counters".into(), to_obj(&self.counters)),
            ("probes_hit".into(), to_obj(&self.probes)),
        ];
        coverage.extend(self.extra.clone());
        let j = Json::Obj(vec![
            ("property".into(), Json::str(self.property.clone())),
            ("tier".into(), Json::str(self.tier.clone())),
            ("seed".into(), Json::Int(self.seed as i64)),
            ("level".into(), Json::str(self.level)),
            ("coverage".into(), Json::Obj(coverage)),
            ("assumptions".into(), Json::Arr(self.assumptions.iter().map(|s| Json::str(s.clone())).collect())),
            ("wall_s".into(), Json::Num((wall_s * 1000.0).round() / 1000.0)),
            ("violations".into(), Json::Int(unknown.len() as i64)),
        ]);
        let mut out = String::new();
        j.render(&mut out);
        out.push('\n');
        let dir = format!("{}/evidence", self.verif);
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(format!("{dir}/{}.json", self.property), out).unwrap();
        println!(
            "{}: {} runs, {} distinct, {:.1} s, {} violations",
            self.property,
            self.evaluations,
            self.distinct.len(),
            wall_s,
            unknown.len()
        );
        if unknown.is_empty() {
            return 0;
        }
        let dir = format!("{}/replay", self.verif);
        std::fs::create_dir_all(&dir).unwrap();
        for v in &unknown {
            let name: String = v.key.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).take(60).collect();
            let path = format!("{dir}/{}-{}.replay", self.property, name);
            std::fs::write(&path, &v.replay).unwrap();
            println!("  {}", v.what.replace('\n', "\n  "));
            println!("VIOLATION property={} replay={}", self.property, path);
        }
        1
    }
}
