//! Unit systems: syntax tree, printer, independent reference semantics, generator, fault injector.
pub mod faults;
pub mod gen;
pub mod parse;
pub mod reference;

use simcore::Rng;
use std::fmt::Write as _;

/// An exponent num/denom in lowest terms, denom > 0.
pub type Exp = (i64, i64);

#[derive(Clone, Debug, PartialEq)]
pub enum Atom {
    Num(String),
    Ref(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Factor {
    Atom(Atom),
    Pow(Atom, Exp),
    Paren(Expr),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Mul,
    Div,
    /// Multiplication by juxtaposition.
    Juxta,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Expr {
    pub first: Box<Factor>,
    pub rest: Vec<(Op, Factor)>,
}
impl Expr {
    pub fn one(f: Factor) -> Expr {
        Expr { first: Box::new(f), rest: vec![] }
    }
    pub fn reference(n: &str) -> Expr {
        Expr::one(Factor::Atom(Atom::Ref(n.into())))
    }
    pub fn mul(mut self, f: Factor) -> Expr {
        self.rest.push((Op::Mul, f));
        self
    }
    pub fn div(mut self, f: Factor) -> Expr {
        self.rest.push((Op::Div, f));
        self
    }
    pub fn refs(&self, out: &mut Vec<String>) {
        fn fac(f: &Factor, out: &mut Vec<String>) {
            match f {
                Factor::Atom(Atom::Ref(n)) | Factor::Pow(Atom::Ref(n), _) => out.push(n.clone()),
                Factor::Paren(e) => e.refs(out),
                _ => {}
            }
        }
        fac(&self.first, out);
        for (_, f) in &self.rest {
            fac(f, out);
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Attr {
    Base(String),
    Symbol(String),
    Alias(Vec<String>),
    Metric { skip: Vec<String> },
    Prefix(Vec<String>),
    /// Verbatim content of #[...], for faults.
    Raw(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    QuantityType(String),
    DimensionType(String),
    Dimension { name: String, rhs: Option<Expr> },
    Unit { name: String, annotation: Option<String>, rhs: Option<Expr> },
    Constant { name: String, annotation: Option<String>, rhs: Expr },
    /// Verbatim statement, for faults.
    Raw(String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Stmt {
    pub attrs: Vec<Attr>,
    pub body: Body,
}
impl Stmt {
    pub fn new(body: Body) -> Stmt {
        Stmt { attrs: vec![], body }
    }
    pub fn name(&self) -> Option<&str> {
        match &self.body {
            Body::Dimension { name, .. } | Body::Unit { name, .. } | Body::Constant { name, .. } => Some(name),
            _ => None,
        }
    }
    pub fn base(&self) -> Option<&str> {
        self.attrs.iter().find_map(|a| if let Attr::Base(b) = a { Some(b.as_str()) } else { None })
    }
    pub fn symbol(&self) -> Option<&str> {
        self.attrs.iter().find_map(|a| if let Attr::Symbol(b) = a { Some(b.as_str()) } else { None })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct System {
    pub stmts: Vec<Stmt>,
    pub rational: bool,
}

/// name, symbol, factor: the metric prefixes (BIPM), not read from the code under test.
pub const PREFIXES: [(&str, &str, f64); 16] = [
    ("exa", "E", 1e18),
    ("peta", "P", 1e15),
    ("tera", "T", 1e12),
    ("giga", "G", 1e9),
    ("mega", "M", 1e6),
    ("kilo", "k", 1e3),
    ("hecto", "h", 1e2),
    ("deca", "da", 1e1),
    ("deci", "d", 1e-1),
    ("centi", "c", 1e-2),
    ("milli", "m", 1e-3),
    ("micro", "μ", 1e-6),
    ("nano", "n", 1e-9),
    ("pico", "p", 1e-12),
    ("femto", "f", 1e-15),
    ("atto", "a", 1e-18),
];
pub fn prefix(name: &str) -> &'static (&'static str, &'static str, f64) {
    PREFIXES.iter().find(|p| p.0 == name).unwrap()
}

pub fn exp_text(e: Exp) -> String {
    if e.1 == 1 {
        format!("{}", e.0)
    } else {
        format!("({}/{})", e.0, e.1)
    }
}
fn atom(a: &Atom, out: &mut String) {
    match a {
        Atom::Num(s) | Atom::Ref(s) => out.push_str(s),
    }
}
fn factor(f: &Factor, out: &mut String) {
    match f {
        Factor::Atom(a) => atom(a, out),
        Factor::Pow(a, e) => {
            atom(a, out);
            write!(out, "^{}", exp_text(*e)).unwrap();
        }
        Factor::Paren(e) => {
            out.push('(');
            expr(e, out);
            out.push(')');
        }
    }
}
pub fn expr(e: &Expr, out: &mut String) {
    factor(&e.first, out);
    for (op, f) in &e.rest {
        out.push_str(match op {
            Op::Mul => " * ",
            Op::Div => " / ",
            Op::Juxta => " ",
        });
        factor(f, out);
    }
}
pub fn stmt(s: &Stmt) -> String {
    let mut out = String::new();
    for a in &s.attrs {
        match a {
            Attr::Base(b) => write!(out, "#[base({b})] "),
            Attr::Symbol(b) => write!(out, "#[symbol({}{b})] ", if crate::gen::RAW.contains(&b.as_str()) { "r#" } else { "" }),
            Attr::Alias(b) => write!(out, "#[alias({})] ", b.join(", ")),
            Attr::Metric { skip } if skip.is_empty() => write!(out, "#[metric_prefixes] "),
            Attr::Metric { skip } => write!(out, "#[metric_prefixes(skip: {})] ", skip.join(", ")),
            Attr::Prefix(p) => write!(out, "#[prefix({})] ", p.join(", ")),
            Attr::Raw(r) => write!(out, "#[{r}] "),
        }
        .unwrap();
    }
    let ann = |a: &Option<String>| a.as_ref().map(|a| format!(": {a}")).unwrap_or_default();
    let rhs = |e: &Expr| {
        let mut o = String::from(" = ");
        expr(e, &mut o);
        o
    };
    match &s.body {
        Body::QuantityType(n) => write!(out, "quantity_type {n}"),
        Body::DimensionType(n) => write!(out, "dimension_type {n}"),
        Body::Dimension { name, rhs: r } => write!(out, "dimension {name}{}", r.as_ref().map(rhs).unwrap_or_default()),
        Body::Unit { name, annotation, rhs: r } => {
            write!(out, "unit {name}{}{}", ann(annotation), r.as_ref().map(rhs).unwrap_or_default())
        }
        Body::Constant { name, annotation, rhs: r } => write!(out, "constant {name}{}{}", ann(annotation), rhs(r)),
        Body::Raw(r) => write!(out, "{r}"),
    }
    .unwrap();
    out
}
impl System {
    pub fn text(&self) -> String {
        let mut out = String::new();
        for s in &self.stmts {
            out.push_str(&stmt(s));
            out.push_str(";\n");
        }
        out
    }
    pub fn shuffled(&self, rng: &mut Rng) -> System {
        let mut s = self.clone();
        rng.shuffle(&mut s.stmts);
        s
    }
    /// The statements in an order in which every definition follows what it refers to (or precedes it, if `reverse`).
    pub fn sorted(&self, reverse: bool) -> System {
        let mut done: Vec<Stmt> = vec![];
        let mut left: Vec<Stmt> = self.stmts.clone();
        let provides = |s: &Stmt| -> Vec<String> { reference::names_of(s) };
        while !left.is_empty() {
            let pending: Vec<String> = left.iter().flat_map(|s| provides(s)).collect();
            let i = left
                .iter()
                .position(|s| {
                    let own = provides(s);
                    reference::deps_of(s).iter().all(|d| own.contains(d) || !pending.contains(d))
                })
                .unwrap_or(0);
            done.push(left.remove(i));
        }
        if reverse {
            done.reverse();
        }
        System { stmts: done, rational: self.rational }
    }
}
