//! Generator of valid unit systems.
use crate::reference::{meaning, names_of, symbols_of, Dims, Kind, Value};
use crate::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Params {
    pub rational: bool,
    pub max_bases: usize,
    pub max_dims: usize,
    pub max_units: usize,
    pub max_consts: usize,
    /// Names other than Quantity and Dimension.
    pub custom_types: bool,
    /// Let magnitudes come close to (or reach) the limits of f64.
    pub extreme: bool,
    /// Every base dimension gets a base unit.
    pub all_base_units: bool,
    /// Units and constants each of which is defined by the one before it.
    pub chain: usize,
}
impl Params {
    pub fn random(rng: &mut Rng, rational: bool) -> Params {
        let big = rng.chance(0.15);
        Params {
            rational,
            max_bases: if big { *rng.pick(&[7, 8, 9, 14]) } else { rng.range(1, 4) as usize },
            max_dims: if big { 12 } else { rng.range(0, 5) as usize },
            max_units: if big { 14 } else { rng.range(0, 7) as usize },
            max_consts: if big { 6 } else { rng.range(0, 4) as usize },
            custom_types: rng.chance(0.15),
            extreme: rng.chance(0.15),
            all_base_units: rng.chance(0.9),
            chain: if rng.chance(0.05) { rng.range(12, 90) as usize } else { 0 },
        }
    }
}

const SYL: [&str; 24] = [
    "ba", "ce", "di", "fo", "gu", "ha", "je", "ki", "lo", "mu", "na", "pe", "qi", "ro", "su", "ta", "ve", "wi", "xo", "yu",
    "za", "br", "st", "el",
];
pub const KEYWORDS: [&str; 24] = [
    "as", "do", "fn", "if", "in", "box", "dyn", "for", "gen", "let", "mod", "mut", "pub", "ref", "try", "use", "true", "else",
    "enum", "impl", "loop", "move", "self", "type",
];

/// (Not `move` and `static`: this compiler takes `const r#move` for the beginning of a closure.)
/// Keywords that can be names when marked as raw (and none of which is the name of something in the prelude in camel case).
pub const RAW: [&str; 16] = [
    "type", "loop", "match", "become", "final", "abstract", "where", "yield", "async", "priv", "in", "as", "if", "return", "override", "unsized",
];
/// The name without the marker of raw identifiers.
pub fn unraw(s: &str) -> &str {
    s.strip_prefix("r#").unwrap_or(s)
}

pub struct Names {
    pub used: BTreeSet<String>,
    pub symbols: BTreeSet<String>,
    /// Names that are not taken, but look as if another unit were a prefixed variant of them.
    pub stems: Vec<String>,
}
impl Default for Names {
    fn default() -> Self {
        let used = ["Quantity", "Dimension", "Unit", "Magnitude", "Exponent", "RuntimeUnit", "Product", "Quotient", "Self"]
            .iter()
            .map(|s| s.to_string())
            .collect();
        Names { used, symbols: BTreeSet::new(), stems: vec![] }
    }
}
impl Names {
    pub fn of(sys: &System) -> Names {
        let mut n = Names::default();
        for s in &sys.stmts {
            n.used.extend(names_of(s));
            n.symbols.extend(symbols_of(s));
            if let Body::QuantityType(x) | Body::DimensionType(x) = &s.body {
                n.used.insert(x.clone());
            }
        }
        for s in &sys.stmts {
            if let Body::Unit { name, .. } = &s.body {
                n.stems.extend(PREFIXES.iter().filter_map(|p| name.strip_prefix(p.0)).filter(|x| x.len() > 3 && !RAW.contains(x) && !n.used.contains(*x)).map(|x| x.to_string()));
            }
        }
        n
    }
    /// The name of a unit, or what could be mistaken for a variant of another.
    pub fn unit_or_lookalike(&mut self, rng: &mut Rng) -> String {
        let w = self.unit(rng);
        if rng.chance(0.05) {
            return format!("{}{}", rng.pick(&PREFIXES).0, unraw(&w));
        }
        w
    }
    fn word(rng: &mut Rng) -> String {
        let n = rng.range(1, 3);
        (0..=n).map(|_| *rng.pick(&SYL)).collect()
    }
    /// A fresh name such that no prefixed variant of it is taken either.
    pub fn unit(&mut self, rng: &mut Rng) -> String {
        loop {
            let mut w = Self::word(rng);
            if rng.chance(0.3) {
                w = format!("{w}_{}", Self::word(rng));
            }
            if rng.chance(0.1) {
                w = format!("{w}{}", rng.below(10));
            }
            if rng.chance(0.015) {
                w = format!("r#{}", rng.pick(&RAW));
            }
            let all: Vec<String> =
                std::iter::once(w.clone()).chain(PREFIXES.iter().map(|p| format!("{}{}", p.0, unraw(&w)))).collect();
            if KEYWORDS.contains(&w.as_str()) || all.iter().any(|x| self.used.contains(x)) {
                continue;
            }
            self.used.extend(all);
            return w;
        }
    }
    pub fn camel(&mut self, rng: &mut Rng) -> String {
        loop {
            let n = rng.range(1, 3);
            let mut w: String = (0..n)
                .map(|_| {
                    let s = Self::word(rng);
                    s[..1].to_uppercase() + &s[1..]
                })
                .collect();
            // Keywords once they are in snake case
            if rng.chance(0.015) {
                let s = rng.pick(&RAW);
                w = s[..1].to_uppercase() + &s[1..];
            }
            if self.used.insert(w.clone()) {
                return w;
            }
        }
    }
    pub fn constant(&mut self, rng: &mut Rng) -> String {
        loop {
            let w = if rng.chance(0.015) {
                format!("r#{}", rng.pick(&RAW))
            } else if rng.chance(0.8) {
                format!("{}_{}", Self::word(rng), Self::word(rng)).to_uppercase()
            } else {
                format!("{}_{}", Self::word(rng), Self::word(rng))
            };
            if self.used.insert(w.clone()) {
                return w;
            }
        }
    }
    pub fn symbol(&mut self, rng: &mut Rng) -> String {
        const L: [&str; 40] = [
            "m", "s", "g", "K", "A", "x", "y", "z", "q", "w", "N", "J", "W", "V", "Ω", "å", "Å", "ß", "t", "u", "b", "B", "R",
            "Q", "L", "F", "H", "T", "D", "C", "X", "Y", "Z", "_", "e", "é", "lx", "lm", "bar", "π",
        ];
        loop {
            let mut w: String = (0..rng.range(1, 2)).map(|_| *rng.pick(&L)).collect();
            if rng.chance(0.1) {
                w = format!("{w}{}", rng.below(10));
            }
            if rng.chance(0.015) {
                w = rng.pick(&RAW).to_string();
            }
            let all: Vec<String> =
                std::iter::once(w.clone()).chain(PREFIXES.iter().map(|p| format!("{}{w}", p.1))).collect();
            if w == "_" || (KEYWORDS.contains(&w.as_str()) && !RAW.contains(&w.as_str())) || all.iter().any(|x| self.symbols.contains(x)) {
                continue;
            }
            self.symbols.extend(all);
            return w;
        }
    }
}

pub fn number(rng: &mut Rng, extreme: bool) -> String {
    if rng.chance(0.06) {
        return unusual_number(rng);
    }
    match rng.below(if extreme { 12 } else { 10 }) {
        0 => format!("{}", rng.range(1, 9)),
        1 => format!("{}", rng.range(10, 4000)),
        2 => format!("{}.{}", rng.range(0, 99), rng.range(1, 9999)),
        3 => format!("{}e{}", rng.range(1, 9), rng.range(-12, 12)),
        4 => format!("{}.{:03}e{}", rng.range(1, 9), rng.range(0, 999), rng.range(-30, 30)),
        5 => format!("{}_000", rng.range(1, 9)),
        6 => "1.0".into(),
        7 => format!("0.{:04}", rng.range(1, 9999)),
        8 => format!("-{}.5", rng.range(0, 9)),
        9 => format!("{}", 1i64 << rng.range(1, 50)),
        10 => format!("{}.25e{}", rng.range(1, 9), rng.range(-307, -200)),
        _ => format!("{}.75e{}", rng.range(1, 9), rng.range(200, 306)),
    }
}

/// Numbers in the ways of writing them that are seldom used.
fn unusual_number(rng: &mut Rng) -> String {
    let i = rng.range(1, 5000);
    match rng.below(12) {
        0 => format!("{i:#x}"),
        1 => format!("{i:#b}"),
        2 => format!("{i:#o}"),
        3 => format!("{i}.5f64"),
        4 => format!("{}i32", i),
        5 => format!("{}_u64", i),
        6 => format!("{}E{}", rng.range(1, 9), rng.range(-12, 12)),
        7 => format!("{i}."),
        8 => format!("{}", (1i64 << 53) + rng.range(1, 1 << 60)),
        9 => format!("{}.{:017}", rng.range(0, 9), rng.range(1, 99_999_999_999_999_999)),
        10 => format!("0{}.{}_{}e+{:02}", rng.range(1, 9), rng.range(0, 9), rng.range(0, 9), rng.range(0, 9)),
        _ => format!("{i:#X}_"),
    }
}
fn exponent(rng: &mut Rng, rational: bool) -> Exp {
    const I: [i64; 16] = [2, 2, 2, 3, 3, 4, -1, -1, -2, -3, 1, 0, 5, 6, -4, -5];
    if rng.chance(0.02) {
        return (rng.range(-13, 13), 1);
    }
    if rational && rng.chance(0.5) {
        let e = (*rng.pick(&[1, 1, 1, 2, 3, -1, -1, -2, -3, 5, 4]), *rng.pick(&[2, 2, 3, 3, 4, 5, 6]));
        match rng.below(4) {
            // As it may be written: not reduced, with the sign anywhere.
            0 => e,
            1 => (e.0, -e.1),
            _ => crate::reference::norm(e),
        }
    } else {
        (*rng.pick(&I), 1)
    }
}

/// A random expression over `refs`.
pub fn expression(rng: &mut Rng, refs: &[String], rational: bool, dimension: bool, extreme: bool, depth: usize) -> Expr {
    let n = if rng.chance(0.01) { rng.range(6, 30) } else { *rng.pick(&[1, 1, 2, 2, 2, 3, 3, 4, 5]) };
    let mut e: Option<Expr> = None;
    let one = |rng: &mut Rng| rng.pick(&["1", "1.0", "1"]).to_string();
    for i in 0..n {
        let use_ref = !refs.is_empty() && rng.chance(if i == 0 && !dimension { 0.45 } else { 0.8 });
        let f = if depth > 0 && rng.chance(0.15) {
            let mut e = expression(rng, refs, rational, dimension, extreme, depth - 1);
            if rng.chance(0.02) {
                for _ in 0..rng.range(1, 25) {
                    e = Expr::one(Factor::Paren(e));
                }
            }
            Factor::Paren(e)
        } else if use_ref {
            let a = Atom::Ref(rng.pick(refs).clone());
            if rng.chance(0.35) {
                Factor::Pow(a, exponent(rng, rational))
            } else {
                Factor::Atom(a)
            }
        } else {
            let a = Atom::Num(if dimension { one(rng) } else { number(rng, extreme) });
            let negative = matches!(&a, Atom::Num(s) if s.starts_with('-'));
            if !negative && rng.chance(0.15) {
                Factor::Pow(a, exponent(rng, rational))
            } else {
                Factor::Atom(a)
            }
        };
        e = Some(match e {
            None => Expr::one(f),
            Some(mut e) => {
                let juxta = rng.chance(0.05) && matches!(&f, Factor::Atom(Atom::Ref(_)) | Factor::Pow(Atom::Ref(_), _));
                let op = if juxta { Op::Juxta } else { *rng.pick(&[Op::Mul, Op::Mul, Op::Div]) };
                e.rest.push((op, f));
                e
            }
        });
    }
    e.unwrap()
}

fn dims_ok(d: &Dims) -> bool {
    d.values().all(|e| e.0.abs() <= 30 && e.1 <= 60)
}
fn value_ok(dims: &Dims, mag: f64, tol: f64, extreme: f64, p: &Params) -> bool {
    dims_ok(dims)
        && mag.is_finite()
        && tol < 1e-12
        && if p.extreme {
            extreme <= 300.0 && mag.abs() > 1e-300 || mag.abs() > 1e-306 && extreme <= 306.0
        } else {
            extreme <= 150.0
        }
}

pub fn system(rng: &mut Rng, p: &Params) -> System {
    let mut names = Names::default();
    let mut stmts: Vec<Stmt> = vec![];
    let (q, d) = if p.custom_types {
        (names.camel(rng) + "Quantity", names.camel(rng) + "Dim")
    } else {
        ("Quantity".to_string(), "Dimension".to_string())
    };
    stmts.push(Stmt::new(Body::QuantityType(q)));
    stmts.push(Stmt::new(Body::DimensionType(d)));
    // Dimensions.
    let nb = rng.range(1, p.max_bases.max(1) as i64) as usize;
    let mut env: BTreeMap<String, Value> = BTreeMap::new();
    let mut dims: Vec<String> = vec![];
    let add = |stmts: &mut Vec<Stmt>, env: &mut BTreeMap<String, Value>, s: Stmt, rational: bool| {
        // Only the new statement is evaluated, on top of what is known.
        let sys = System { stmts: stmts.iter().cloned().chain([s.clone()]).collect(), rational };
        *env = meaning(&sys).values;
        stmts.push(s);
    };
    for _ in 0..nb {
        let n = names.camel(rng);
        add(&mut stmts, &mut env, Stmt::new(Body::Dimension { name: n.clone(), rhs: None }), p.rational);
        dims.push(n);
    }
    let bases = dims.clone();
    if rng.chance(0.6) {
        let n = if rng.chance(0.5) && names.used.insert("Dimensionless".into()) { "Dimensionless".into() } else { names.camel(rng) };
        let rhs = Some(Expr::one(Factor::Atom(Atom::Num("1".into()))));
        add(&mut stmts, &mut env, Stmt::new(Body::Dimension { name: n.clone(), rhs }), p.rational);
        dims.push(n);
    }
    for _ in 0..rng.below(p.max_dims + 1) {
        let e = expression(rng, &dims, p.rational, true, false, 2);
        match crate::reference::eval_expr(&e, &env) {
            Some((d, ..)) if dims_ok(&d) => {}
            _ => continue,
        }
        let n = names.camel(rng);
        add(&mut stmts, &mut env, Stmt::new(Body::Dimension { name: n.clone(), rhs: Some(e) }), p.rational);
        dims.push(n);
    }
    // A dimension that an item may be annotated with.
    let annotation = |rng: &mut Rng, env: &BTreeMap<String, Value>, d: &Dims, dims: &[String], prob: f64| {
        if !rng.chance(prob) {
            return None;
        }
        let c: Vec<&String> = dims.iter().filter(|n| env[*n].dims == *d).collect();
        if c.is_empty() {
            None
        } else {
            Some((*rng.pick(&c)).clone())
        }
    };
    let unit_attrs = |rng: &mut Rng, names: &mut Names, base: Option<String>, need_symbol: bool, prefixable: bool| {
        let mut a = vec![];
        if let Some(b) = base {
            a.push(Attr::Base(b));
        }
        if need_symbol || rng.chance(0.5) {
            a.push(Attr::Symbol(names.symbol(rng)));
        }
        for _ in 0..*rng.pick(&[0, 0, 0, 1, 1, 2]) {
            let n = *rng.pick(&[1, 1, 2]);
            a.push(Attr::Alias((0..n).map(|_| names.unit(rng)).collect()));
        }
        if prefixable {
            if rng.chance(0.2) {
                let mut skip: Vec<String> = vec![];
                if rng.chance(0.5) {
                    skip = PREFIXES.iter().filter(|_| rng.chance(0.3)).map(|p| p.0.to_string()).collect();
                }
                a.push(Attr::Metric { skip });
            } else if rng.chance(0.25) {
                let mut ps: Vec<String> = PREFIXES.iter().filter(|_| rng.chance(0.15)).map(|p| p.0.to_string()).collect();
                rng.shuffle(&mut ps);
                if !ps.is_empty() {
                    if ps.len() > 1 && rng.chance(0.3) {
                        let tail = ps.split_off(1);
                        a.push(Attr::Prefix(tail));
                    }
                    a.push(Attr::Prefix(ps));
                }
            }
        }
        rng.shuffle(&mut a);
        a
    };
    // Base units.
    for b in &bases {
        if !p.all_base_units && rng.chance(0.3) {
            continue;
        }
        let name = names.unit(rng);
        let attrs = unit_attrs(rng, &mut names, Some(b.clone()), true, true);
        let d = env[b].dims.clone();
        let annotation = annotation(rng, &env, &d, &dims, 0.5);
        add(&mut stmts, &mut env, Stmt { attrs, body: Body::Unit { name, annotation, rhs: None } }, p.rational);
    }
    // Each defined by the one before it.
    let mut last: Option<String> = stmts.iter().rev().find(|s| matches!(s.body, Body::Unit { .. })).and_then(|s| s.name()).map(|s| s.to_string());
    for i in 0..p.chain {
        let (a, b) = *rng.pick(&[("2", "0.5"), ("1.25", "0.8"), ("1", "1.0"), ("60", "1e-3"), ("0.3048", "3")]);
        let num = Factor::Atom(Atom::Num(if i % 2 == 0 { a } else { b }.to_string()));
        let e = match &last {
            None => Expr::one(num),
            Some(l) => match rng.below(4) {
                0 => Expr::one(Factor::Atom(Atom::Ref(l.clone()))),
                1 => Expr::one(Factor::Paren(Expr::one(Factor::Atom(Atom::Ref(l.clone()))))),
                _ => Expr::one(num).mul(Factor::Atom(Atom::Ref(l.clone()))),
            },
        };
        let Some((d, mag, tol, ext)) = crate::reference::eval_expr(&e, &env) else { continue };
        if !value_ok(&d, mag, tol, ext, p) {
            continue;
        }
        let annotation = annotation(rng, &env, &d, &dims, 0.1);
        let s = if rng.chance(0.8) {
            Stmt { attrs: vec![], body: Body::Unit { name: names.unit_or_lookalike(rng), annotation, rhs: Some(e) } }
        } else {
            Stmt::new(Body::Constant { name: names.constant(rng), annotation, rhs: e })
        };
        last = s.name().map(|s| s.to_string());
        add(&mut stmts, &mut env, s, p.rational);
    }
    // Derived units and constants, intermixed.
    let nu = rng.below(p.max_units + 1);
    let nc = rng.below(p.max_consts + 1);
    let mut todo: Vec<bool> = std::iter::repeat_n(true, nu).chain(std::iter::repeat_n(false, nc)).collect();
    rng.shuffle(&mut todo);
    for unit in todo {
        let refs: Vec<String> = env.iter().filter(|(_, v)| v.kind != Kind::Dimension).map(|(n, _)| n.clone()).collect();
        // Prefer few of the many autogenerated names.
        let mut sample: Vec<String> = (0..4.min(refs.len())).map(|_| rng.pick(&refs).clone()).collect();
        sample.extend(stmts.iter().filter(|s| matches!(s.body, Body::Unit { .. } | Body::Constant { .. })).filter_map(|s| s.name()).map(|s| s.to_string()));
        for _ in 0..20 {
            let e = expression(rng, &sample, p.rational, false, p.extreme, 2);
            let Some((d, mag, tol, ext)) = crate::reference::eval_expr(&e, &env) else { continue };
            if !value_ok(&d, mag, tol, ext, p) {
                continue;
            }
            let prefixable = ext < 280.0;
            let annotation = annotation(rng, &env, &d, &dims, 0.4);
            let s = if unit {
                let attrs = unit_attrs(rng, &mut names, None, false, prefixable);
                Stmt { attrs, body: Body::Unit { name: names.unit_or_lookalike(rng), annotation, rhs: Some(e) } }
            } else {
                Stmt::new(Body::Constant { name: names.constant(rng), annotation, rhs: e })
            };
            add(&mut stmts, &mut env, s, p.rational);
            break;
        }
    }
    System { stmts, rational: p.rational }
}
