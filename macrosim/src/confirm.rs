//! Asks the real compiler: compiles the code the macro generated in the simulation, runs it and reads the values.
use crate::case::{Case, Expect};
use crate::exec::Out;
use crate::judge::{mag_ok, show, words};
use std::collections::BTreeMap;
use std::process::Command;
use sysgen::reference::{norm, Dims};

pub struct Sut {
    pub so: String,
    pub diman: String,
    pub deps: String,
    pub scratch: String,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Answer {
    /// The real compiler agrees that the property is violated.
    Violated(String),
    Fine,
    /// The question could not be put to it.
    Unknown(String),
}

const HEAD: &str = "#![feature(generic_const_exprs, adt_const_params)]\n#![allow(warnings)]\n";

struct Built {
    ok: bool,
    stderr: String,
    exe: String,
}
fn rustc(sut: &Sut, text: &str, run: bool) -> Result<Built, String> {
    let dir = &sut.scratch;
    let _ = std::fs::create_dir_all(dir);
    let (src, exe) = (format!("{dir}/probe.rs"), format!("{dir}/probe"));
    std::fs::write(&src, text).map_err(|e| e.to_string())?;
    let out = Command::new("timeout")
        .args(["-k", "5", "240", "rustc", "--edition", "2021", "--crate-name", "probe", "-Cdebuginfo=0", "-Copt-level=0", "--color", "never"])
        .args(["-L", &format!("dependency={}", sut.deps), "--extern", &format!("diman={}", sut.diman)])
        .args(if run { ["--emit", "link"] } else { ["--emit", "metadata"] })
        .args(["-o", &exe, &src])
        .env_remove("LD_PRELOAD")
        .output()
        .map_err(|e| e.to_string())?;
    if out.status.code() == Some(124) || out.status.code().is_none() {
        return Err("the real compiler took too long".into());
    }
    Ok(Built { ok: out.status.success(), stderr: String::from_utf8_lossy(&out.stderr).into_owned(), exe })
}
fn real(source: &str) -> String {
    format!("{HEAD}diman::unit_system! {{\n{source}\n}}\nfn main() {{}}\n")
}

fn probe(case: &Case, expects: &[&Expect]) -> String {
    let mut o = format!(
        "trait Probe {{ fn probe(&self) -> (String, f64); }}
impl<const D: {d}> Probe for {q}<f64, D> {{ fn probe(&self) -> (String, f64) {{ (format!(\"{{:?}}\", D), *self.value_unchecked_ref()) }} }}
fn dims_of<T: Default + Probe>() -> String {{ T::default().probe().0 }}
fn main() {{
",
        q = case.quantity,
        d = case.dimension
    );
    for (b, _) in &case.bases {
        o += &format!("println!(\"base {b} {{}}\", dims_of::<dimensions::{b}<f64>>());\n");
    }
    for e in expects {
        let n = &e.name;
        o += &match e.kind {
            'd' => format!("println!(\"item {n} 3ff0000000000000 {{}}\", dims_of::<dimensions::{n}<f64>>());\n"),
            k => format!(
                "{{ let (d, v) = {}::{n}.new(1.0f64).probe(); println!(\"item {n} {{:016x}} {{}}\", v.to_bits(), d); }}\n",
                if k == 'u' { "units" } else { "constants" }
            ),
        };
    }
    o + "}\n"
}
/// `Dimension { length: 1, time: Ratio { num: 1, denom: 2 } }`
fn read_dims(s: &str) -> Option<Dims> {
    let body = s[s.find('{')? + 1..s.rfind('}')?].replace(' ', "");
    let mut d = Dims::new();
    let mut rest = &body[..];
    while !rest.is_empty() {
        let (k, r) = rest.split_once(':')?;
        let (v, next);
        if let Some(p) = r.find(|c| c == ',' || c == '{') {
            if r.as_bytes()[p] == b'{' {
                let end = r.find('}')?;
                let nums: Vec<i64> = r[p + 1..end].split(',').filter(|x| !x.is_empty()).map(|f| f.rsplit(':').next().unwrap_or("").parse().ok()).collect::<Option<_>>()?;
                v = match nums[..] {
                    [a, b] if b != 0 => (a, b),
                    [a] => (a, 1),
                    _ => return None,
                };
                next = r[end + 1..].trim_start_matches(',');
            } else {
                v = (r[..p].parse().ok()?, 1);
                next = &r[p + 1..];
            }
        } else {
            v = (r.parse().ok()?, 1);
            next = "";
        }
        if v.0 != 0 {
            d.insert(k.into(), norm(v));
        }
        rest = next;
    }
    Some(d)
}

fn first_error(s: &str) -> String {
    s.split("\n\n").find(|b| b.starts_with("error")).unwrap_or(s).lines().take(8).collect::<Vec<_>>().join("\n")
}

fn compare(case: &Case, expects: &[&Expect], stdout: &str) -> Answer {
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let mut got: BTreeMap<&str, (u64, Dims)> = BTreeMap::new();
    let fields: BTreeMap<&String, &String> = case.bases.iter().map(|(a, b)| (a, b)).collect();
    for l in stdout.lines() {
        let mut w = l.splitn(4, ' ');
        match w.next() {
            Some("base") => {
                let n = w.next().unwrap_or("").to_string();
                let d = l.splitn(3, ' ').nth(2).and_then(read_dims);
                match (fields.get(&n), d) {
                    (Some(f), Some(d)) if d.len() == 1 && d.values().all(|v| *v == (1, 1)) => {
                        map.insert(f.to_string(), d.keys().next().unwrap().clone());
                    }
                    (_, d) => return Answer::Violated(format!("base dimension {n} has dimension {:?}", d.map(|d| show(&d)))),
                }
            }
            Some("item") => {
                let (Some(n), Some(b), Some(Some(d))) = (w.next(), w.next().and_then(|x| u64::from_str_radix(x, 16).ok()), w.next().map(read_dims)) else {
                    return Answer::Unknown(format!("unreadable: {l}"));
                };
                got.insert(n, (b, d));
            }
            _ => {}
        }
    }
    for e in expects {
        let Some((b, d)) = got.get(e.name.as_str()) else { return Answer::Unknown(format!("no output for {}", e.name)) };
        let want: Dims = e.dims.iter().map(|(k, v)| (map.get(k).cloned().unwrap_or(k.clone()), *v)).collect();
        if *d != want {
            return Answer::Violated(format!("{} has dimension {}, not {}", e.name, show(d), show(&want)));
        }
        let m = f64::from_bits(*b);
        if !mag_ok(e, m) {
            return Answer::Violated(format!("{} has magnitude {m:e}, not {:e}", e.name, e.mag));
        }
    }
    Answer::Fine
}

/// `valid`: the system must compile.
pub fn values(sut: &Sut, case: &Case, out: &Out, names: &[String], valid: bool) -> Answer {
    let Some(text) = &out.text else { return Answer::Unknown("no code was generated".into()) };
    let expects: Vec<&Expect> = case.expects.iter().filter(|e| names.is_empty() || names.contains(&e.name)).collect();
    let b = match rustc(sut, &format!("{HEAD}{text}\n{}", probe(case, &expects)), true) {
        Ok(b) => b,
        Err(e) => return Answer::Unknown(e),
    };
    if b.ok {
        let r = Command::new("timeout").args(["20", &b.exe]).output();
        return match r {
            Ok(r) if r.status.success() => compare(case, &expects, &String::from_utf8_lossy(&r.stdout)),
            _ => Answer::Unknown("the probe does not run".into()),
        };
    }
    let probe_err = first_error(&b.stderr);
    let plain = match rustc(sut, &format!("{HEAD}{text}\nfn main() {{}}\n"), false) {
        Ok(b) => b,
        Err(e) => return Answer::Unknown(e),
    };
    if plain.ok {
        for e in &expects {
            if b.stderr.lines().any(|l| l.starts_with("error") && l.contains("cannot find") && words(l).contains(&e.name)) {
                return Answer::Violated(format!("{} is not generated: {probe_err}", e.name));
            }
        }
        return Answer::Unknown(format!("the probe does not compile: {probe_err}"));
    }
    if valid {
        match rustc(sut, &real(&out.source), false) {
            Ok(r) if !r.ok => return Answer::Violated(format!("a valid unit system does not compile: {}", first_error(&r.stderr))),
            Ok(_) => return Answer::Unknown("the generated code only compiles with the real compiler".into()),
            Err(e) => return Answer::Unknown(e),
        }
    }
    Answer::Unknown(format!("the generated code does not compile: {}", first_error(&plain.stderr)))
}

/// Whether the compiler of the generated code complains about the fault after all.
pub fn reported(sut: &Sut, case: &Case, out: &Out, fault: usize) -> Answer {
    let Some(text) = &out.text else { return Answer::Unknown("no code was generated".into()) };
    let f = &case.faults[fault];
    let mentions = |s: &str| {
        let w = words(s);
        f.names.iter().any(|n| w.contains(n)) || f.phrases.iter().any(|p| s.contains(p.as_str()))
    };
    match rustc(sut, &format!("{HEAD}{text}\nfn main() {{}}\n"), false) {
        Err(e) => Answer::Unknown(e),
        Ok(b) if b.ok && out.errors.is_empty() => Answer::Violated("compiles silently".into()),
        Ok(b) if b.ok => Answer::Violated("other errors only".into()),
        Ok(b) if mentions(&b.stderr) => Answer::Fine,
        Ok(_) => match rustc(sut, &real(&out.source), false) {
            Err(e) => Answer::Unknown(e),
            Ok(r) if r.ok => Answer::Violated("compiles silently".into()),
            Ok(r) if mentions(&r.stderr) => Answer::Fine,
            Ok(r) => Answer::Violated(format!("other errors only: {}", first_error(&r.stderr))),
        },
    }
}
