//! What a unit system means, independently of how the macro computes it.
use crate::*;
use std::collections::BTreeMap;

pub type Dims = BTreeMap<String, Exp>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Dimension,
    Unit,
    Constant,
}
#[derive(Clone, Debug)]
pub struct Value {
    pub kind: Kind,
    pub dims: Dims,
    pub mag: f64,
    /// Upper bound for the relative error that reordering of floating point operations may cause.
    pub tol: f64,
    /// Largest |log10| of any intermediate result.
    pub extreme: f64,
    pub symbol: Option<String>,
    pub is_base: bool,
}

pub fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}
pub fn norm(e: Exp) -> Exp {
    let g = gcd(e.0, e.1).max(1) * if e.1 < 0 { -1 } else { 1 };
    (e.0 / g, e.1 / g)
}
pub fn eadd(a: Exp, b: Exp) -> Exp {
    norm((a.0 * b.1 + b.0 * a.1, a.1 * b.1))
}
pub fn emul(a: Exp, b: Exp) -> Exp {
    norm((a.0 * b.0, a.1 * b.1))
}
pub fn dmul(a: &Dims, b: &Dims, sign: i64) -> Dims {
    let mut r = a.clone();
    for (k, v) in b {
        let e = eadd(*r.get(k).unwrap_or(&(0, 1)), (v.0 * sign, v.1));
        if e.0 == 0 {
            r.remove(k);
        } else {
            r.insert(k.clone(), e);
        }
    }
    r
}
pub fn dpow(a: &Dims, e: Exp) -> Dims {
    a.iter().map(|(k, v)| (k.clone(), emul(*v, e))).filter(|(_, v)| v.0 != 0).collect()
}
/// CamelCase to snake_case: the name of the field of a base dimension.
pub fn snake(s: &str) -> String {
    let out = lower(crate::gen::unraw(s));
    if crate::gen::RAW.contains(&out.as_str()) {
        format!("r#{out}")
    } else {
        out
    }
}
fn lower(s: &str) -> String {
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() && i > 0 {
            out.push('_');
        }
        out.extend(c.to_lowercase());
    }
    out
}

#[derive(Clone)]
struct V {
    dims: Dims,
    mag: f64,
    tol: f64,
    extreme: f64,
}
const EPS: f64 = 4.5e-16;
fn ext(m: f64) -> f64 {
    if m == 0.0 {
        400.0
    } else if m.is_finite() {
        m.abs().log10().abs()
    } else {
        1e9
    }
}
/// The value of a number as Rust writes them.
pub fn literal(s: &str) -> Option<f64> {
    let s = s.replace('_', "");
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s.as_str()),
    };
    const INTS: [&str; 12] = ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"];
    let int = INTS.iter().find_map(|x| t.strip_suffix(x)).unwrap_or(t);
    let radix = |p: &str, r| int.strip_prefix(p).map(|d| i64::from_str_radix(d, r).ok().map(|x| x as f64));
    let m = match radix("0x", 16).or_else(|| radix("0b", 2)).or_else(|| radix("0o", 8)) {
        Some(x) => x?,
        None => int.strip_suffix("f64").or_else(|| int.strip_suffix("f32")).unwrap_or(int).parse().ok()?,
    };
    Some(if neg { -m } else { m })
}
fn eval_atom(a: &Atom, env: &BTreeMap<String, Value>) -> Option<V> {
    Some(match a {
        Atom::Num(s) => {
            let m = literal(s)?;
            V { dims: Dims::new(), mag: m, tol: 0.0, extreme: ext(m) }
        }
        Atom::Ref(n) => {
            let v = env.get(n)?;
            V { dims: v.dims.clone(), mag: v.mag, tol: v.tol, extreme: v.extreme }
        }
    })
}
fn powr(m: f64, e: Exp) -> f64 {
    if e.1 == 1 && e.0.abs() < 1000 {
        // By repeated multiplication, not by the library's powi.
        let mut r = 1.0;
        for _ in 0..e.0.abs() {
            r *= m;
        }
        if e.0 < 0 {
            1.0 / r
        } else {
            r
        }
    } else {
        m.powf(e.0 as f64 / e.1 as f64)
    }
}
fn eval_factor(f: &Factor, env: &BTreeMap<String, Value>) -> Option<V> {
    Some(match f {
        Factor::Atom(a) => eval_atom(a, env)?,
        Factor::Pow(a, e) => {
            let v = eval_atom(a, env)?;
            let e = &norm(*e);
            let mag = powr(v.mag, *e);
            let n = (e.0 as f64 / e.1 as f64).abs().max(1.0);
            // powf amplifies the rounding of the quotient of the exponent by the logarithm of the base
            let amp = if e.1 == 1 { n } else { n * (1.0 + v.mag.abs().ln().abs()) };
            V {
                dims: dpow(&v.dims, *e),
                mag,
                tol: v.tol * n + EPS * (amp + 4.0),
                extreme: v.extreme.max(ext(mag)).max(ext(powr(v.mag, (e.0.abs(), e.1)))),
            }
        }
        Factor::Paren(e) => eval(e, env)?,
    })
}
fn eval(e: &Expr, env: &BTreeMap<String, Value>) -> Option<V> {
    let mut acc = eval_factor(&e.first, env)?;
    for (op, f) in &e.rest {
        let v = eval_factor(f, env)?;
        let div = *op == Op::Div;
        let mag = if div { acc.mag / v.mag } else { acc.mag * v.mag };
        acc = V {
            dims: dmul(&acc.dims, &v.dims, if div { -1 } else { 1 }),
            mag,
            tol: acc.tol + v.tol + EPS,
            extreme: acc.extreme.max(v.extreme).max(ext(mag)),
        };
    }
    Some(acc)
}
/// Dimension and magnitude of an expression over known definitions.
pub fn eval_expr(e: &Expr, env: &BTreeMap<String, Value>) -> Option<(Dims, f64, f64, f64)> {
    eval(e, env).map(|v| (v.dims, v.mag, v.tol, v.extreme))
}

fn variants(s: &Stmt) -> Vec<(String, Option<(&'static str, f64)>, bool)> {
    // (name, prefix, is alias)
    let Body::Unit { name, .. } = &s.body else { return vec![] };
    let mut prefixes: Vec<Option<(&'static str, &'static str, f64)>> = vec![None];
    let mut names = vec![(name.clone(), false)];
    for a in &s.attrs {
        match a {
            Attr::Alias(v) => names.extend(v.iter().map(|n| (n.clone(), true))),
            Attr::Prefix(v) => prefixes.extend(v.iter().map(|n| Some(*prefix(n)))),
            Attr::Metric { skip } => {
                prefixes.extend(PREFIXES.iter().filter(|p| !skip.iter().any(|s| s == p.0)).map(|p| Some(*p)))
            }
            _ => {}
        }
    }
    let mut out = vec![];
    for p in &prefixes {
        for (n, alias) in &names {
            match p {
                None => out.push((n.clone(), None, *alias)),
                Some((pn, ps, f)) => out.push((format!("{pn}{}", crate::gen::unraw(n)), Some((*ps, *f)), *alias)),
            }
        }
    }
    out
}
/// All names a statement defines.
pub fn names_of(s: &Stmt) -> Vec<String> {
    match &s.body {
        Body::Unit { .. } => variants(s).into_iter().map(|v| v.0).collect(),
        _ => s.name().map(|n| vec![n.to_string()]).unwrap_or_default(),
    }
}
/// All symbols a statement defines.
pub fn symbols_of(s: &Stmt) -> Vec<String> {
    let Some(sym) = s.symbol() else { return vec![] };
    variants(s)
        .into_iter()
        .filter(|v| !v.2)
        .map(|v| match v.1 {
            None => sym.to_string(),
            Some((p, _)) => format!("{p}{sym}"),
        })
        .collect()
}
/// All names a statement refers to (annotations not included).
pub fn deps_of(s: &Stmt) -> Vec<String> {
    let mut out = vec![];
    match &s.body {
        Body::Dimension { rhs: Some(e), .. } | Body::Constant { rhs: e, .. } => e.refs(&mut out),
        Body::Unit { rhs, .. } => {
            if let Some(e) = rhs {
                e.refs(&mut out)
            }
            if let Some(b) = s.base() {
                out.push(b.into());
            }
        }
        _ => {}
    }
    out
}

pub struct Meaning {
    pub values: BTreeMap<String, Value>,
    /// Names of the base dimensions, in order of declaration.
    pub bases: Vec<String>,
}
/// Evaluates whatever can be evaluated (by fixpoint iteration, so the order does not matter).
pub fn meaning(sys: &System) -> Meaning {
    let mut env: BTreeMap<String, Value> = BTreeMap::new();
    let mut bases = vec![];
    for s in &sys.stmts {
        if let Body::Dimension { name, rhs: None } = &s.body {
            bases.push(name.clone());
            env.insert(
                name.clone(),
                Value {
                    kind: Kind::Dimension,
                    dims: [(snake(name), (1, 1))].into(),
                    mag: 1.0,
                    tol: 0.0,
                    extreme: 0.0,
                    symbol: None,
                    is_base: true,
                },
            );
        }
    }
    loop {
        let before = env.len();
        for s in &sys.stmts {
            let v = match &s.body {
                Body::Dimension { name, rhs: Some(e) } => {
                    if env.contains_key(name) {
                        continue;
                    }
                    eval(e, &env).map(|v| (Kind::Dimension, v, false))
                }
                Body::Constant { name, rhs, .. } => {
                    if env.contains_key(name) {
                        continue;
                    }
                    eval(rhs, &env).map(|v| (Kind::Constant, v, false))
                }
                Body::Unit { name, rhs, .. } => {
                    if env.contains_key(name) {
                        continue;
                    }
                    match (rhs, s.base()) {
                        (Some(e), _) => eval(e, &env).map(|v| (Kind::Unit, v, false)),
                        (None, Some(b)) => env
                            .get(b)
                            .map(|d| (Kind::Unit, V { dims: d.dims.clone(), mag: 1.0, tol: 0.0, extreme: 0.0 }, true)),
                        _ => None,
                    }
                }
                _ => None,
            };
            let Some((kind, v, is_base)) = v else { continue };
            if let Body::Unit { .. } = &s.body {
                for (n, p, alias) in variants(s) {
                    let (pm, ps) = p.map(|p| (p.1, p.0)).unwrap_or((1.0, ""));
                    let mag = pm * v.mag;
                    env.insert(
                        n,
                        Value {
                            kind,
                            dims: v.dims.clone(),
                            mag,
                            tol: v.tol + if p.is_some() { EPS } else { 0.0 },
                            extreme: v.extreme.max(ext(mag)),
                            symbol: if alias { None } else { s.symbol().map(|x| format!("{ps}{x}")) },
                            is_base: is_base && p.is_none() && !alias,
                        },
                    );
                }
            } else {
                env.insert(
                    s.name().unwrap().to_string(),
                    Value { kind, dims: v.dims, mag: v.mag, tol: v.tol, extreme: v.extreme, symbol: None, is_base },
                );
            }
        }
        if env.len() == before {
            break;
        }
    }
    Meaning { values: env, bases }
}
/// Symbol table: symbol -> (dimension, magnitude).
pub fn symbols(m: &Meaning) -> BTreeMap<String, (Dims, f64)> {
    m.values
        .values()
        .filter_map(|v| v.symbol.clone().map(|s| (s, (v.dims.clone(), v.mag))))
        .collect()
}
