//! Decides from the recorded outputs of a case whether its property holds.
use crate::case::{Case, Expect};
use crate::exec::{ErrorMsg, Out};
use crate::items::Item;
use std::collections::{BTreeMap, BTreeSet};
use sysgen::reference::Dims;

#[derive(Clone, Debug)]
pub struct Verdict {
    pub key: String,
    pub what: String,
    /// Index of the step whose generated code a real compiler is to judge before this counts.
    pub confirm: Option<(usize, Confirm)>,
}
#[derive(Clone, Debug)]
pub enum Confirm {
    /// These items must have these values in the generated code.
    Values(Vec<String>),
    /// Some error of the real compiler must mention this fault.
    Reported(usize),
}

pub fn words(s: &str) -> BTreeSet<String> {
    s.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect()
}
/// Byte ranges of the statements of a source text (one per line), with the text.
fn statements(source: &str) -> Vec<(u32, u32, String)> {
    let mut out = vec![];
    let mut pos = 0u32;
    for l in source.split_inclusive('\n') {
        let n = l.len() as u32;
        out.push((pos, pos + n, l.trim_end().trim_end_matches(';').trim().to_string()));
        pos += n;
    }
    out
}
fn pointed<'a>(e: &ErrorMsg, st: &'a [(u32, u32, String)]) -> BTreeSet<&'a str> {
    let mut r = BTreeSet::new();
    for (lo, hi) in &e.points {
        for s in st {
            if *lo < s.1 && *hi > s.0 {
                r.insert(s.2.as_str());
            }
        }
    }
    r
}

/// Base dimension (as the reference calls its field) -> field of the generated type.
fn field_map(case: &Case, o: &Out) -> Option<BTreeMap<String, String>> {
    let mut m = BTreeMap::new();
    for (b, f) in &case.bases {
        let d = o.items.get(b)?.dims.as_ref()?;
        if d.len() != 1 {
            return None;
        }
        let (k, v) = d.iter().next().unwrap();
        if *v != (1, 1) || m.values().any(|x| x == k) {
            return None;
        }
        m.insert(f.clone(), k.clone());
    }
    Some(m)
}
pub fn show(d: &Dims) -> String {
    if d.is_empty() {
        return "1".into();
    }
    d.iter().map(|(k, v)| format!("{k}^{}", sysgen::exp_text(*v))).collect::<Vec<_>>().join(" ")
}
pub fn mag_ok(e: &Expect, got: f64) -> bool {
    got == e.mag || (got - e.mag).abs() <= e.mag.abs() * (4.0 * e.tol + 1e-15)
}
/// Compares by the fast reader; returns the description of the difference.
fn compare(e: &Expect, got: Option<&Item>, map: &Option<BTreeMap<String, String>>) -> Option<String> {
    let Some(i) = got else { return Some(format!("{} is not generated", e.name)) };
    if i.kind != e.kind {
        return Some(format!("{} is generated as another kind of item", e.name));
    }
    let (Some(d), Some(m), Some(map)) = (&i.dims, i.mag, map) else {
        return Some(format!("{}: the generated code has an unknown form", e.name));
    };
    let want: Dims = e.dims.iter().map(|(k, v)| (map.get(k).cloned().unwrap_or(k.clone()), *v)).collect();
    if *d != want {
        return Some(format!("{} has dimension {}, not {}", e.name, show(d), show(&want)));
    }
    let got = f64::from_bits(m);
    if !mag_ok(e, got) {
        return Some(format!("{} has magnitude {got:e}, not {:e}", e.name, e.mag));
    }
    None
}
fn mismatches(case: &Case, o: &Out) -> Vec<(String, String)> {
    let map = field_map(case, o);
    case.expects.iter().filter_map(|e| compare(e, o.items.get(&e.name), &map).map(|w| (e.name.clone(), w))).collect()
}

fn values(case: &Case, outs: &[Out]) -> Option<Verdict> {
    // If the reader understands the code generated for the healthy system, it is to be believed.
    let calibrated = case.steps.iter().zip(outs).any(|(s, o)| s.role == "healthy" && mismatches(case, o).is_empty());
    let mut first: Option<(usize, &Out)> = None;
    for (i, (s, o)) in case.steps.iter().zip(outs).enumerate() {
        if s.role != "target" {
            continue;
        }
        let bad = mismatches(case, o);
        if let Some((n, what)) = bad.first() {
            return Some(Verdict {
                key: format!("value-{n}"),
                what: format!("step {i}: {what}"),
                confirm: if calibrated { None } else { Some((i, Confirm::Values(bad.iter().map(|b| b.0.clone()).collect()))) },
            });
        }
        if let Some((j, f)) = first {
            for e in &case.expects {
                if f.items.get(&e.name).map(|x| x.mag) != o.items.get(&e.name).map(|x| x.mag) {
                    return Some(Verdict {
                        key: format!("order-{}", e.name),
                        what: format!("{} has different magnitudes in steps {j} and {i}: {:?} and {:?}", e.name, f.items.get(&e.name), o.items.get(&e.name)),
                        confirm: None,
                    });
                }
            }
        } else {
            first = Some((i, o));
        }
    }
    None
}

fn diff_at(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let mut lo = n.saturating_sub(60);
        while !s.is_char_boundary(lo) {
            lo -= 1;
        }
        let mut hi = (n + 60).min(s.len());
        while !s.is_char_boundary(hi) {
            hi -= 1;
        }
        s[lo..hi.max(lo)].replace('\n', " ")
    };
    format!("...{}... versus ...{}...", cut(a), cut(b))
}

pub fn judge(case: &Case, outs: &[Out]) -> Option<Verdict> {
    let targets: Vec<(usize, &Out)> = case.steps.iter().zip(outs).enumerate().filter(|(_, (s, _))| s.role == "target").map(|(i, (_, o))| (i, o)).collect();
    let plain = |key: &str, what: String| Some(Verdict { key: key.into(), what, confirm: None });
    match case.property.as_str() {
        "C01" => {
            let (i0, a) = targets[0];
            for (i, b) in &targets[1..] {
                if a.panic != b.panic {
                    return plain("panic-differs", format!("step {i0} {:?}, step {i} {:?}", a.panic, b.panic));
                }
                if a.diags != b.diags {
                    let f = |o: &Out| format!("{:?}", o.diags);
                    return plain("diagnostics-differ", format!("diagnostics of steps {i0} and {i}: {}", diff_at(&f(a), &f(b))));
                }
                if a.exact != b.exact {
                    return plain("code-differs", format!("generated code of steps {i0} and {i}: {}", diff_at(&a.exact, &b.exact)));
                }
                if a.oddities != b.oddities {
                    return plain("requests-differ", format!("requests to the compiler of steps {i0} and {i}: {:?} {:?}", a.oddities, b.oddities));
                }
            }
            None
        }
        "C02" => {
            for (i, o) in &targets {
                if let Some(p) = &o.panic {
                    return plain("panic", format!("step {i}: a valid unit system makes the macro panic: {p}"));
                }
                if let Some(e) = o.errors.first() {
                    return plain("refused", format!("step {i}: a valid unit system is refused: {}", e.message));
                }
            }
            values(case, outs)
        }
        "C03" => {
            for (i, o) in &targets {
                if let Some(p) = &o.panic {
                    return plain("panic", format!("step {i}: the macro panics: {p}"));
                }
                let st = statements(&o.source);
                for e in &o.errors {
                    let w = words(&e.message);
                    let p = pointed(e, &st);
                    let linked = case.faults.iter().any(|f| {
                        f.names.iter().chain(&f.taints).any(|n| w.contains(n)) || f.stmts.iter().any(|s| p.contains(s.as_str())) || f.phrases.iter().any(|p| e.message.contains(p.as_str()))
                    }) || p.iter().any(|s| case.faults.iter().flat_map(|f| &f.taints).any(|t| words(s).contains(t)));
                    // What an undefined or cyclic definition refers to besides is not to be blamed for it either.
                    let named = |n: &String| case.faults.iter().any(|f| f.names.contains(n) || f.taints.contains(n));
                    let unresolved = |s: &str| {
                        case.faults.iter().any(|f| (f.kind.starts_with("undefined") || f.kind.starts_with("cycle")) && f.stmts.iter().any(|x| x == s))
                    };
                    if !p.is_empty() && p.iter().all(|s| unresolved(s)) && !w.iter().any(named) {
                        let quoted = |n: &str| e.message.contains(&format!("\"{n}\"")) || e.message.contains(&format!("`{n}`"));
                        if let Some(x) = case.expects.iter().find(|x| quoted(&x.name)) {
                            return plain("blamed-for-another", format!("step {i}: an error against {}, which is only used by something faulty: {} {:?}", x.name, e.message, p));
                        }
                    }
                    if !linked && case.expects.iter().any(|x| w.contains(&x.name) || p.iter().any(|s| defines(s, &x.name))) {
                        return plain("blamed", format!("step {i}: an error against something that is not faulty: {} {:?}", e.message, p));
                    }
                }
            }
            for (s, o) in case.steps.iter().zip(outs) {
                if s.role == "one" {
                    for e in &o.errors {
                        if let Some(v) = case.variants.iter().find(|v| words(&e.message).contains(*v)) {
                            return plain("variant-blamed", format!("error for the generated variant {v}: {}", e.message));
                        }
                    }
                    if let Some((_, st)) = case.steps.iter().zip(outs).find(|(s, _)| s.role == "stripped") {
                        if o.errors.len() != st.errors.len() {
                            return plain(
                                "variants-multiply-errors",
                                format!("{} errors with prefixes and aliases, {} without: {:?}", o.errors.len(), st.errors.len(), o.errors.iter().map(|e| &e.message).collect::<Vec<_>>()),
                            );
                        }
                    }
                }
            }
            values(case, outs)
        }
        "C04" => {
            for (i, o) in &targets {
                let st = statements(&o.source);
                let reported = |f: &crate::case::FaultX| {
                    o.errors.iter().any(|e| {
                        let w = words(&e.message);
                        f.names.iter().any(|n| w.contains(n))
                            || f.phrases.iter().any(|p| e.message.contains(p.as_str()))
                            || pointed(e, &st).iter().any(|s| f.stmts.iter().any(|x| x == s))
                    })
                };
                let fatal: Vec<usize> = (0..case.faults.len()).filter(|k| case.faults[*k].fatal).collect();
                let missed = if fatal.is_empty() {
                    (0..case.faults.len()).find(|k| !reported(&case.faults[*k]))
                } else if fatal.iter().any(|k| reported(&case.faults[*k])) {
                    None
                } else {
                    Some(fatal[0])
                };
                if let Some(k) = missed {
                    let f = &case.faults[k];
                    let v = Verdict {
                        key: format!("unreported-{}", f.kind),
                        what: format!(
                            "step {i}: no error for the fault '{}' ({} / {}){}; errors: {:?}",
                            f.kind,
                            f.names.join(", "),
                            f.stmts.join(" ; "),
                            o.panic.as_ref().map(|p| format!("; the macro panicked: {p}")).unwrap_or_default(),
                            o.errors.iter().map(|e| &e.message).collect::<Vec<_>>()
                        ),
                        confirm: if o.panic.is_some() { None } else { Some((*i, Confirm::Reported(k))) },
                    };
                    return Some(v);
                }
            }
            None
        }
        p => panic!("unknown property {p}"),
    }
}

/// Whether a statement (as text) defines that name (under any of its names).
fn defines(stmt: &str, name: &str) -> bool {
    let body = stmt.rsplit(']').next().unwrap_or(stmt);
    let mut w = body.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty());
    matches!(w.next(), Some("unit" | "constant" | "dimension")) && w.next() == Some(name)
}
