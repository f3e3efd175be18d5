//! What the generated unit systems mean, by the reference interpreter, and what a text denotes in them.
use crate::ops::registry;
use crate::systems::SYSTEMS;
use crate::val::{Storage, Val};
use std::collections::BTreeMap;
use std::sync::OnceLock;
use sysgen::reference::{meaning, Dims, Kind};

pub struct Sym {
    pub dims: Dims,
    pub mag: f64,
    pub tol: f64,
}
pub struct SystemInfo {
    pub name: &'static str,
    pub text: &'static str,
    pub rational: bool,
    pub symbols: BTreeMap<String, Sym>,
    /// Base dimension (as a field) to the symbol of its base unit.
    pub base_symbols: BTreeMap<String, String>,
    /// Every base dimension has a base unit with a symbol.
    pub complete: bool,
    pub dims: BTreeMap<String, Dims>,
}
pub fn infos() -> &'static Vec<SystemInfo> {
    static I: OnceLock<Vec<SystemInfo>> = OnceLock::new();
    I.get_or_init(|| {
        SYSTEMS
            .iter()
            .map(|(name, text, rational)| {
                let s = sysgen::parse::system(text, *rational).expect("generated text");
                let m = meaning(&s);
                let mut symbols = BTreeMap::new();
                let mut base_symbols = BTreeMap::new();
                let mut dims = BTreeMap::new();
                for (n, v) in &m.values {
                    if v.kind == Kind::Dimension {
                        dims.insert(n.clone(), v.dims.clone());
                    }
                    if let Some(x) = &v.symbol {
                        symbols.insert(x.clone(), Sym { dims: v.dims.clone(), mag: v.mag, tol: v.tol });
                        if v.is_base {
                            let d = v.dims.keys().next().expect("a base dimension").clone();
                            base_symbols.insert(d, x.clone());
                        }
                    }
                }
                let complete = m.bases.iter().all(|b| base_symbols.contains_key(&sysgen::reference::snake(b)));
                SystemInfo { name, text, rational: *rational, symbols, base_symbols, complete, dims }
            })
            .collect()
    })
}
pub struct Probe {
    pub system: &'static SystemInfo,
    pub dims: &'static Dims,
    pub st: Storage,
}
pub fn probe(name: &str) -> Probe {
    let r = registry();
    let (k, dim, st) = match r.by.get(name) {
        Some(i) => (r.tables[*i].system, &r.tables[*i].dim, r.tables[*i].st),
        None => {
            let w = &r.weird[r.weird_by[name]];
            (w.system, &w.dim, Storage::F64)
        }
    };
    let system = &infos()[k];
    Probe { system, dims: &system.dims[dim], st }
}

type Ratio = (i128, i128);
fn rnorm(a: Ratio) -> Ratio {
    fn gcd(a: i128, b: i128) -> i128 {
        if b == 0 {
            a.abs()
        } else {
            gcd(b, a % b)
        }
    }
    let g = gcd(a.0, a.1).max(1) * if a.1 < 0 { -1 } else { 1 };
    (a.0 / g, a.1 / g)
}
fn rmul(a: Ratio, b: Ratio) -> Option<Ratio> {
    Some(rnorm((a.0.checked_mul(b.0)?, a.1.checked_mul(b.1)?)))
}
fn radd(a: Ratio, b: Ratio) -> Option<Ratio> {
    Some(rnorm((a.0.checked_mul(b.1)?.checked_add(b.0.checked_mul(a.1)?)?, a.1.checked_mul(b.1)?)))
}

pub enum Units {
    Product { dims: BTreeMap<String, Ratio>, factor: f64, tol: f64, exact: bool, strict: bool },
    /// Not a unit expression.
    Not(String),
    /// Out of the range this reference computes in.
    Unknown,
}
pub fn same_dims(a: &BTreeMap<String, Ratio>, b: &Dims) -> bool {
    a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| (w.0 as i128, w.1 as i128) == *v))
}
/// Whitespace separated symbols with optional exponents.
pub fn units(s: &SystemInfo, text: &str) -> Units {
    let mut dims: BTreeMap<String, Ratio> = BTreeMap::new();
    let (mut factor, mut tol, mut exact, mut strict) = (1.0f64, 0.0, true, true);
    let mut extreme = false;
    strict &= !text.chars().any(|c| c.is_whitespace() && !matches!(c, ' ' | '\t' | '\n' | '\r'));
    for tok in text.split_whitespace() {
        let (sym, e) = match tok.split_once('^') {
            None => (tok, (1, 1)),
            Some((sym, e)) => {
                let int = |t: &str| -> Option<(i128, bool)> {
                    let body = t.strip_prefix(['-', '+']).unwrap_or(t);
                    if body.is_empty() || !body.bytes().all(|b| b.is_ascii_digit()) {
                        return None;
                    }
                    let plain = !t.starts_with('+') && body.len() <= 9 && (body.len() == 1 || !body.starts_with('0'));
                    Some((t.parse::<i128>().unwrap_or(1 << 100), plain))
                };
                let parts = match (s.rational, e.split_once('/')) {
                    (true, Some((a, b))) => int(a).zip(int(b)),
                    (false, Some(_)) => None,
                    _ => int(e).map(|a| (a, (1, true))),
                };
                let Some(((a, pa), (b, pb))) = parts else { return Units::Not(format!("exponent {e}")) };
                if b == 0 {
                    return Units::Not("denominator of 0".into());
                }
                strict &= pa && pb && b > 0;
                (sym, rnorm((a, b)))
            }
        };
        let Some(x) = s.symbols.get(sym) else { return Units::Not(format!("unknown symbol {sym}")) };
        for (k, v) in &x.dims {
            let Some(d) = rmul((v.0 as i128, v.1 as i128), e).and_then(|t| radd(*dims.get(k).unwrap_or(&(0, 1)), t)) else {
                return Units::Unknown;
            };
            // The code under test counts exponents in smaller types.
            strict &= d.0.abs() < 1 << 31 && d.1 < 1 << 31;
            if d.0 == 0 {
                dims.remove(k);
            } else {
                dims.insert(k.clone(), d);
            }
        }
        let p = e.0 as f64 / e.1 as f64;
        let f = if x.mag == 1.0 { 1.0 } else { x.mag.powf(p) };
        exact &= x.mag == 1.0 && x.tol == 0.0;
        tol += (x.tol + 3e-16) * (1.0 + p.abs());
        factor *= f;
        extreme |= !(1e-290..1e290).contains(&factor.abs()) || !(1e-290..1e290).contains(&f.abs());
    }
    if extreme {
        // Order of evaluation decides; only the dimension is known.
        return Units::Product { dims, factor: f64::NAN, tol: f64::INFINITY, exact: false, strict: false };
    }
    Units::Product { dims, factor, tol, exact, strict }
}

/// What a text denotes as a quantity of a certain dimension and storage.
pub enum Denoted {
    Not(String),
    Value { xs: Vec<f64>, factor: f64, tol: f64, exact: bool, strict: bool },
    Unknown,
}
fn plain_number(t: &str) -> bool {
    let b = t.strip_prefix('-').unwrap_or(t);
    if b == "inf" || t == "NaN" {
        return true;
    }
    let (m, e) = match b.split_once(['e', 'E']) {
        Some((m, e)) => (m, Some(e)),
        None => (b, None),
    };
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    let m = match m.split_once('.') {
        Some((i, f)) => digits(i) && digits(f),
        None => digits(m),
    };
    m && e.map(|e| digits(e.strip_prefix('-').unwrap_or(e))).unwrap_or(true)
}
fn number(t: &str, st: Storage) -> Option<f64> {
    if st.single() {
        t.parse::<f32>().ok().map(|x| x as f64)
    } else {
        t.parse::<f64>().ok()
    }
}
pub fn denote(text: &str, p: &Probe) -> Denoted {
    let t = text.trim();
    let mut strict = true;
    let (numbers, unit_text): (Vec<String>, &str) = if p.st.scalar() {
        let Some(n) = t.split_whitespace().next() else { return Denoted::Not("empty".into()) };
        (vec![n.to_string()], &t[n.len()..])
    } else {
        let Some(rest) = t.strip_prefix(['(', '[']) else { return Denoted::Not("no bracket first".into()) };
        strict &= t.starts_with('(');
        let Some(end) = rest.find([')', ']']) else { return Denoted::Not("no closing bracket".into()) };
        strict &= rest[end..].starts_with(')');
        let (inside, after) = (&rest[..end], &rest[end + 1..]);
        strict &= after.is_empty() || after.starts_with([' ', '\t', '\n', '\r']);
        strict &= !inside.contains(',');
        (inside.split(|c: char| c.is_whitespace() || c == ',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(), after)
    };
    strict &= !t.chars().any(|c| c.is_whitespace() && !matches!(c, ' ' | '\t' | '\n' | '\r'));
    if numbers.len() != p.st.len() {
        return Denoted::Not(format!("{} numbers", numbers.len()));
    }
    let mut xs = vec![];
    for n in &numbers {
        strict &= plain_number(n);
        match number(n, p.st) {
            Some(x) => xs.push(x),
            None => return Denoted::Not(format!("{n} is not a number")),
        }
    }
    match units(p.system, unit_text) {
        Units::Not(w) => Denoted::Not(w),
        Units::Unknown => Denoted::Unknown,
        Units::Product { dims, factor, tol, exact, strict: s } => {
            if !same_dims(&dims, p.dims) {
                return Denoted::Not(format!("of dimension {dims:?}"));
            }
            Denoted::Value { xs, factor, tol, exact, strict: strict && s }
        }
    }
}
/// Whether a value is the one denoted.
pub fn matches(v: &Val, xs: &[f64], factor: f64, tol: f64, exact: bool) -> bool {
    if factor.is_nan() {
        return true;
    }
    xs.iter().enumerate().all(|(i, x)| {
        let a = v.f64(i);
        let (max, min, eps) = if v.st.single() { (f32::MAX as f64, f32::MIN_POSITIVE as f64, 4e-7) } else { (f64::MAX, f64::MIN_POSITIVE, 1e-15) };
        if exact {
            return a.to_bits() == x.to_bits() || a.is_nan() && x.is_nan();
        }
        if v.st.single() && !(min * 10.0..max / 10.0).contains(&factor.abs()) {
            // The factor itself is not representable.
            return true;
        }
        let e = x * factor;
        if e.is_nan() || a.is_nan() {
            return e.is_nan() && a.is_nan();
        }
        if e.is_infinite() || e.abs() > max * (1.0 - tol - 2.0 * eps) {
            return a == e || a.is_infinite() && a.signum() == e.signum() || a.abs() > max * (1.0 - 2.0 * tol - 4.0 * eps) && a.signum() == e.signum();
        }
        if e == 0.0 {
            return a == 0.0 || a.abs() <= min * 4.0 && *x != 0.0;
        }
        (a - e).abs() <= e.abs() * (2.0 * tol + eps * (2.0 + xs.len() as f64)) + min * 4.0 * (e.abs() < min * 1e3) as u8 as f64
    })
}
