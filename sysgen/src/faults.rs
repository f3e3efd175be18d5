//! Injects faulty definitions into a healthy system.
use crate::gen::{number, unraw, Names};
use crate::reference::{deps_of, meaning, names_of, Kind, Meaning};
use crate::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct Fault {
    pub kind: &'static str,
    /// The error must name one of these ...
    pub names: Vec<String>,
    /// ... or point into one of these statements ...
    pub stmts: Vec<Stmt>,
    /// ... or contain one of these phrases.
    pub phrases: Vec<&'static str>,
    /// The names that are faulty because of it.
    pub taints: Vec<String>,
    /// Stops the macro before it looks at anything else.
    pub fatal: bool,
}

#[derive(Clone, Debug)]
pub struct Faulty {
    pub healthy: System,
    pub sys: System,
    pub faults: Vec<Fault>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    /// Those after which everything unrelated must still be generated.
    Semantic,
    /// All of them.
    Any,
}

pub const SEMANTIC: [&str; 22] = [
    "undefined-new",
    "undefined-typo",
    "undefined-variants",
    "undefined-forward",
    "cycle-self",
    "cycle",
    "cycle-through-variant",
    "cycle-with-tail",
    "duplicate",
    "duplicate-variant",
    "duplicate-identical",
    "kind-unit-by-dimension",
    "kind-constant-by-dimension",
    "kind-dimension-by-unit",
    "annotation-undefined",
    "annotation-kind",
    "annotation-mismatch",
    "annotation-subset",
    "base-twice",
    "base-not-base",
    "symbol-twice",
    "base-without-symbol",
];
pub const OTHER: [&str; 21] = [
    "base-undefined",
    "base-is-unit",
    "symbol-twice-prefix",
    "duplicate-base-dimension",
    "type-missing",
    "type-twice",
    "dimension-factor",
    "attribute-on-dimension",
    "attribute-on-constant",
    "attribute-on-type",
    "base-with-expression",
    "neither-base-nor-expression",
    "base-attribute-twice",
    "unknown-attribute",
    "unknown-prefix",
    "symbol-attribute-twice",
    "attribute-without-arguments",
    "zero-denominator",
    "annotation-on-dimension",
    "bad-token",
    "metric-twice",
];

struct Inj<'a> {
    rng: &'a mut Rng,
    names: Names,
    m: Meaning,
    sys: System,
    faults: Vec<Fault>,
    /// Statements that are part of a fault already, or that a fault needs to stay as they are.
    touched: BTreeSet<String>,
}

impl Inj<'_> {
    fn healthy_refs(&self, kinds: &[Kind]) -> Vec<String> {
        let tainted = tainted(&self.sys, &self.faults);
        self.m.values.iter().filter(|(n, v)| kinds.contains(&v.kind) && !tainted.contains(*n)).map(|(n, _)| n.clone()).collect()
    }
    fn pick(&mut self, kinds: &[Kind]) -> Option<String> {
        let v = self.healthy_refs(kinds);
        if v.is_empty() {
            None
        } else {
            Some(self.rng.pick(&v).clone())
        }
    }
    fn fresh(&mut self, kind: Kind) -> String {
        match kind {
            Kind::Dimension => self.names.camel(self.rng),
            Kind::Unit if !self.names.stems.is_empty() && self.rng.chance(0.4) => {
                let i = self.rng.below(self.names.stems.len());
                let w = self.names.stems.swap_remove(i);
                self.names.used.insert(w.clone());
                w
            }
            Kind::Unit => self.names.unit(self.rng),
            Kind::Constant => self.names.constant(self.rng),
        }
    }
    fn make(&self, kind: Kind, name: &str, rhs: Expr) -> Stmt {
        let name = name.to_string();
        Stmt::new(match kind {
            Kind::Dimension => Body::Dimension { name, rhs: Some(rhs) },
            Kind::Unit => Body::Unit { name, annotation: None, rhs: Some(rhs) },
            Kind::Constant => Body::Constant { name, annotation: None, rhs },
        })
    }
    fn put(&mut self, s: Stmt) {
        for n in names_of(&s) {
            self.touched.insert(n);
        }
        let i = self.rng.below(self.sys.stmts.len() + 1);
        self.sys.stmts.insert(i, s);
    }
    fn collides(&self, names: &[String]) -> bool {
        names.iter().any(|n| self.sys.stmts.iter().filter(|s| names_of(s).contains(n)).count() > 1)
    }
    fn kind(&mut self) -> Kind {
        *self.rng.pick(&[Kind::Dimension, Kind::Unit, Kind::Unit, Kind::Constant])
    }
    fn rhs_kinds(k: Kind) -> &'static [Kind] {
        match k {
            Kind::Dimension => &[Kind::Dimension],
            _ => &[Kind::Unit, Kind::Constant],
        }
    }
    /// A healthy expression for an item of that kind, with `extra` placed somewhere in it.
    fn expr_with(&mut self, kind: Kind, extra: &str) -> Expr {
        let refs = self.healthy_refs(Self::rhs_kinds(kind));
        let n = self.rng.below(4);
        let place = self.rng.below(n + 1);
        let mut parts: Vec<Factor> = vec![];
        for i in 0..=n {
            let f = if i == place {
                let a = Atom::Ref(extra.into());
                match self.rng.below(5) {
                    0 => Factor::Pow(a, (*self.rng.pick(&[2, 3, -1, -2, 0]), 1)),
                    1 => Factor::Paren(Expr::one(Factor::Atom(a))),
                    2 if kind != Kind::Dimension => {
                        Factor::Paren(Expr::one(Factor::Atom(Atom::Num(number(self.rng, false)))).mul(Factor::Atom(a)))
                    }
                    _ => Factor::Atom(a),
                }
            } else if !refs.is_empty() && self.rng.chance(0.7) {
                Factor::Atom(Atom::Ref(self.rng.pick(&refs).clone()))
            } else {
                Factor::Atom(Atom::Num("1".into()))
            };
            parts.push(f);
        }
        let mut it = parts.into_iter();
        let mut e = Expr::one(it.next().unwrap());
        for f in it {
            let op = *self.rng.pick(&[Op::Mul, Op::Div]);
            e.rest.push((op, f));
        }
        if self.rng.chance(0.08) {
            // It cancels.
            let a = || Factor::Atom(Atom::Ref(extra.into()));
            let cancelled = match self.rng.below(2) {
                0 => Expr { first: Box::new(a()), rest: vec![(Op::Div, a())] },
                _ => Expr::one(Factor::Pow(Atom::Ref(extra.into()), (0, 1))),
            };
            let healthy = match refs.is_empty() {
                true => Factor::Atom(Atom::Num("1".into())),
                false => Factor::Atom(Atom::Ref(self.rng.pick(&refs).clone())),
            };
            e = Expr::one(healthy).mul(Factor::Paren(cancelled));
        }
        e
    }
    fn variants(&mut self) -> Vec<Attr> {
        let mut a = vec![Attr::Symbol(self.names.symbol(self.rng))];
        let alias = self.names.unit(self.rng);
        match self.rng.below(4) {
            0 => a.push(Attr::Metric { skip: vec![] }),
            1 => {
                a.push(Attr::Prefix(vec!["kilo".into(), "milli".into()]));
                a.push(Attr::Alias(vec![alias]));
            }
            2 => a.push(Attr::Alias(vec![alias])),
            _ => a.push(Attr::Prefix(vec!["mega".into()])),
        }
        a
    }
    fn maybe_variants(&mut self, kind: Kind, p: f64, s: &mut Stmt) {
        if kind == Kind::Unit && self.rng.chance(p) {
            s.attrs = self.variants();
        }
    }
    fn push(&mut self, kind: &'static str, names: Vec<String>, stmts: Vec<Stmt>, taints: Vec<String>) {
        let mut t: BTreeSet<String> = taints.into_iter().collect();
        for s in &stmts {
            t.extend(names_of(s));
        }
        self.faults.push(Fault { kind, names, stmts, phrases: vec![], taints: t.into_iter().collect(), fatal: false });
    }
    fn fatal(&mut self, kind: &'static str, s: Stmt) {
        let names = names_of(&s);
        self.put(s.clone());
        self.push(kind, vec![], vec![s], names);
        self.faults.last_mut().unwrap().fatal = true;
    }
    /// A dimension name and the dimension it has, different from `dims`.
    fn wrong_annotation(&mut self, dims: &reference::Dims, kind: &str) -> Option<String> {
        let all = self.healthy_refs(&[Kind::Dimension]);
        let v: Vec<String> = all
            .into_iter()
            .filter(|n| {
                let d = &self.m.values[n].dims;
                if d == dims {
                    return false;
                }
                let sub = |a: &reference::Dims, b: &reference::Dims| a.iter().all(|(k, v)| b.get(k) == Some(v));
                match kind {
                    "annotation-subset" => sub(d, dims) || sub(dims, d),
                    _ => true,
                }
            })
            .collect();
        if v.is_empty() {
            None
        } else {
            Some(self.rng.pick(&v).clone())
        }
    }
    /// Adds a fresh derived dimension with these exponents; returns its name.
    fn new_dimension(&mut self, dims: &reference::Dims) -> Option<String> {
        let mut e: Option<Expr> = None;
        for (k, x) in dims {
            let base = self.m.bases.iter().find(|b| reference::snake(b) == *k)?.clone();
            let f = Factor::Pow(Atom::Ref(base), *x);
            e = Some(match e {
                None => Expr::one(f),
                Some(e) => e.mul(f),
            });
        }
        let name = self.names.camel(self.rng);
        let rhs = Some(e.unwrap_or(Expr::one(Factor::Atom(Atom::Num("1".into())))));
        self.put(Stmt::new(Body::Dimension { name: name.clone(), rhs }));
        Some(name)
    }

    fn inject(&mut self, kind: &'static str) -> Option<()> {
        use Kind::*;
        match kind {
            "undefined-new" | "undefined-forward" => {
                let k = self.kind();
                let bad = match self.rng.below(3) {
                    0 => self.fresh(Dimension),
                    _ => self.fresh(Unit),
                };
                let name = self.fresh(k);
                let e = self.expr_with(k, &bad);
                let mut s = self.make(k, &name, e);
                self.maybe_variants(k, 0.3, &mut s);
                self.put(s.clone());
                self.push(kind, vec![bad], vec![s], vec![]);
                if kind == "undefined-forward" {
                    // And something that is defined in terms of it.
                    let k2 = if k == Dimension { Dimension } else { Unit };
                    let n2 = self.fresh(k2);
                    let e = Expr::reference(&name);
                    let s = self.make(k2, &n2, e);
                    self.put(s);
                }
            }
            "undefined-typo" => {
                let c: Vec<usize> = (0..self.sys.stmts.len())
                    .filter(|i| {
                        let s = &self.sys.stmts[*i];
                        s.name().is_some() && s.base().is_none() && !deps_of(s).is_empty() && !names_of(s).iter().any(|n| self.touched.contains(n))
                    })
                    .collect();
                if c.is_empty() {
                    return None;
                }
                let i = *self.rng.pick(&c);
                let deps = deps_of(&self.sys.stmts[i]);
                let victim = self.rng.pick(&deps).clone();
                let bad = format!("{victim}q");
                if !self.names.used.insert(bad.clone()) {
                    return None;
                }
                let mut s = self.sys.stmts[i].clone();
                if let Body::Dimension { rhs: Some(e), .. } | Body::Unit { rhs: Some(e), .. } | Body::Constant { rhs: e, .. } = &mut s.body {
                    rename_first(e, &victim, &bad);
                }
                for n in names_of(&s) {
                    self.touched.insert(n);
                }
                self.sys.stmts[i] = s.clone();
                self.push(kind, vec![bad], vec![s], vec![]);
            }
            "undefined-variants" => {
                let bad = self.fresh(Unit);
                let name = self.fresh(Unit);
                let e = self.expr_with(Unit, &bad);
                let mut s = self.make(Unit, &name, e);
                s.attrs = self.variants();
                self.put(s.clone());
                self.push(kind, vec![bad], vec![s], vec![]);
            }
            "cycle-self" | "cycle" | "cycle-with-tail" => {
                let n = if kind == "cycle-self" { 1 } else { self.rng.range(2, 4) as usize };
                let dims = self.rng.chance(0.3);
                let ks: Vec<Kind> = (0..n).map(|_| if dims { Dimension } else { *self.rng.pick(&[Unit, Constant]) }).collect();
                let ns: Vec<String> = ks.iter().map(|k| self.fresh(*k)).collect();
                let mut stmts = vec![];
                for i in 0..n {
                    let next = ns[(i + 1) % n].clone();
                    let e = self.expr_with(ks[i], &next);
                    let mut s = self.make(ks[i], &ns[i], e);
                    self.maybe_variants(ks[i], 0.15, &mut s);
                    stmts.push(s);
                }
                for s in &stmts {
                    self.put(s.clone());
                }
                self.push(kind, ns.clone(), stmts, vec![]);
                if kind == "cycle-with-tail" {
                    let k = ks[0];
                    let n2 = self.fresh(k);
                    let s = self.make(k, &n2, Expr::reference(&ns[0]));
                    self.put(s);
                }
            }
            "cycle-through-variant" => {
                let name = self.fresh(Unit);
                let alias = self.fresh(Unit);
                let (attrs, variant) = match self.rng.below(2) {
                    0 => (vec![Attr::Alias(vec![alias.clone()])], alias),
                    _ => (vec![Attr::Prefix(vec!["kilo".into()])], format!("kilo{}", unraw(&name))),
                };
                let e = self.expr_with(Unit, &variant);
                let mut s = self.make(Unit, &name, e);
                s.attrs = attrs;
                self.put(s.clone());
                self.push(kind, vec![name, variant], vec![s], vec![]);
            }
            "duplicate" | "duplicate-identical" => {
                let k1 = self.kind();
                let k2 = if kind == "duplicate" { self.kind() } else { k1 };
                let name = self.fresh(k1);
                let mut stmts = vec![];
                for k in [k1, k2] {
                    let e = match self.pick(Self::rhs_kinds(k)) {
                        Some(r) => self.expr_with(k, &r),
                        None => Expr::one(Factor::Atom(Atom::Num("1".into()))),
                    };
                    stmts.push(self.make(k, &name, e));
                }
                if kind == "duplicate-identical" {
                    stmts[1] = stmts[0].clone();
                }
                let copies = if self.rng.chance(0.2) { 3 } else { 2 };
                if copies == 3 {
                    stmts.push(stmts[0].clone());
                }
                for s in &stmts {
                    self.put(s.clone());
                }
                self.push(kind, vec![name], stmts, vec![]);
            }
            "duplicate-variant" => {
                // A name that an alias or a prefix generates is also defined.
                let u = self.fresh(Unit);
                let alias = self.fresh(Unit);
                let e = Expr::one(Factor::Atom(Atom::Num("3".into())));
                let mut s1 = self.make(Unit, &u, e.clone());
                let (px, _, _) = *self.rng.pick(&crate::PREFIXES);
                let other = Expr::one(Factor::Atom(Atom::Num("5".into())));
                let mut s2 = None;
                let dup = match self.rng.below(8) {
                    0 => {
                        s1.attrs.push(Attr::Alias(vec![alias.clone()]));
                        alias
                    }
                    1 => {
                        s1.attrs.push(Attr::Metric { skip: vec![] });
                        format!("{px}{}", unraw(&u))
                    }
                    2 => {
                        s1.attrs.push(Attr::Prefix(vec![px.into()]));
                        s1.attrs.push(Attr::Alias(vec![alias.clone()]));
                        format!("{px}{}", unraw(&alias))
                    }
                    // Both are variants.
                    3 => {
                        let v = self.fresh(Unit);
                        let mut s = self.make(Unit, &v, other.clone());
                        s1.attrs.push(Attr::Alias(vec![alias.clone()]));
                        s.attrs.push(Attr::Alias(vec![alias.clone()]));
                        if self.rng.chance(0.3) {
                            s.attrs.push(Attr::Prefix(vec![px.into()]));
                        }
                        s2 = Some(s);
                        alias
                    }
                    4 => {
                        let v = self.fresh(Unit);
                        let mut s = self.make(Unit, &v, other.clone());
                        s1.attrs.push(Attr::Prefix(vec![px.into()]));
                        s.attrs.push(Attr::Alias(vec![format!("{px}{}", unraw(&u))]));
                        s2 = Some(s);
                        format!("{px}{}", unraw(&u))
                    }
                    // Twice in the same statement.
                    5 => {
                        s1.attrs.push(Attr::Prefix(vec![px.into(), px.into()]));
                        s2 = Some(s1.clone());
                        format!("{px}{}", unraw(&u))
                    }
                    6 => {
                        s1.attrs.push(Attr::Alias(vec![alias.clone(), alias.clone()]));
                        s2 = Some(s1.clone());
                        alias
                    }
                    _ => {
                        s1.attrs.push(Attr::Alias(vec![u.clone()]));
                        s2 = Some(s1.clone());
                        u
                    }
                };
                let s2 = s2.unwrap_or_else(|| {
                    let k = *self.rng.pick(&[Unit, Constant, Dimension]);
                    self.make(k, &dup, if k == Dimension { Expr::one(Factor::Atom(Atom::Num("1".into()))) } else { other })
                });
                self.put(s1.clone());
                let mut stmts = vec![s1];
                if stmts[0] != s2 {
                    self.put(s2.clone());
                    stmts.push(s2);
                }
                self.push(kind, vec![dup], stmts, vec![]);
            }
            "kind-unit-by-dimension" | "kind-constant-by-dimension" => {
                let d = self.pick(&[Dimension])?;
                let k = if kind == "kind-unit-by-dimension" { Unit } else { Constant };
                let name = self.fresh(k);
                let e = self.expr_with(k, &d);
                let mut s = self.make(k, &name, e);
                self.maybe_variants(k, 0.2, &mut s);
                self.put(s.clone());
                self.push(kind, vec![name], vec![s], vec![]);
            }
            "kind-dimension-by-unit" => {
                let d = self.pick(&[Unit, Constant])?;
                let name = self.fresh(Dimension);
                let e = self.expr_with(Dimension, &d);
                let s = self.make(Dimension, &name, e);
                self.put(s.clone());
                self.push(kind, vec![name], vec![s], vec![]);
            }
            "annotation-undefined" | "annotation-kind" | "annotation-mismatch" | "annotation-subset" => {
                let k = *self.rng.pick(&[Unit, Constant]);
                let r = self.pick(&[Unit, Constant]);
                let e = match &r {
                    Some(r) if self.rng.chance(0.8) => Expr::reference(r).mul(Factor::Atom(Atom::Num(if self.rng.chance(0.7) { "2" } else { "1" }.into()))),
                    _ => Expr::one(Factor::Atom(Atom::Num("2".into()))),
                };
                let (dims, ..) = reference::eval_expr(&e, &self.m.values)?;
                let ann = match kind {
                    "annotation-undefined" => self.fresh(Dimension),
                    "annotation-kind" => self.pick(&[Unit, Constant])?,
                    _ => match self.wrong_annotation(&dims, kind) {
                        Some(a) if self.rng.chance(0.5) => a,
                        _ => {
                            // Make one that is close.
                            let mut d = dims.clone();
                            let bases: Vec<String> = self.m.bases.iter().map(|b| reference::snake(b)).collect();
                            let b = self.rng.pick(&bases).clone();
                            if kind == "annotation-subset" {
                                if d.remove(&b).is_none() {
                                    d.insert(b, (*self.rng.pick(&[1, 2, -1]), 1));
                                }
                            } else if self.rng.chance(0.25) {
                                // All of it scaled.
                                d = reference::dpow(&d, (*self.rng.pick(&[-1, -1, 2, 3]), 1));
                            } else {
                                let e = d.get(&b).copied().unwrap_or((0, 1));
                                let new = match self.rng.below(3) {
                                    0 if e.0 != 0 => (-e.0, e.1),
                                    1 => reference::eadd(e, (1, 1)),
                                    _ => reference::eadd(e, (-1, 1)),
                                };
                                if new.0 == 0 {
                                    d.remove(&b);
                                } else {
                                    d.insert(b, new);
                                }
                            }
                            if d == dims {
                                return None;
                            }
                            self.new_dimension(&d)?
                        }
                    },
                };
                let name = self.fresh(k);
                let mut s = self.make(k, &name, e);
                match &mut s.body {
                    Body::Unit { annotation, .. } | Body::Constant { annotation, .. } => *annotation = Some(ann.clone()),
                    _ => {}
                }
                self.maybe_variants(k, 0.2, &mut s);
                self.put(s.clone());
                let names = if kind == "annotation-undefined" { vec![ann, name] } else { vec![name] };
                self.push(kind, names, vec![s], vec![]);
            }
            "base-twice" => {
                let tainted = tainted(&self.sys, &self.faults);
                let c: Vec<Stmt> =
                    self.sys.stmts.iter().filter(|s| s.base().is_some_and(|b| !tainted.contains(b)) && !names_of(s).iter().any(|n| tainted.contains(n))).cloned().collect();
                if c.is_empty() {
                    return None;
                }
                let first = self.rng.pick(&c).clone();
                let base = first.base().unwrap().to_string();
                let name = self.fresh(Unit);
                let sym = self.names.symbol(self.rng);
                let s = Stmt {
                    attrs: vec![Attr::Base(base.clone()), Attr::Symbol(sym)],
                    body: Body::Unit { name: name.clone(), annotation: None, rhs: None },
                };
                self.put(s.clone());
                self.push(kind, vec![name, base], vec![s], names_of(&first));
            }
            "base-not-base" | "base-undefined" | "base-is-unit" => {
                let base = match kind {
                    "base-undefined" => self.fresh(Dimension),
                    "base-is-unit" => self.pick(&[Unit, Constant])?,
                    _ => {
                        let bases = self.m.bases.clone();
                        let c: Vec<String> = self.healthy_refs(&[Dimension]).into_iter().filter(|n| !bases.contains(n)).collect();
                        if c.is_empty() {
                            return None;
                        }
                        self.rng.pick(&c).clone()
                    }
                };
                let name = self.fresh(Unit);
                let sym = self.names.symbol(self.rng);
                let s = Stmt {
                    attrs: vec![Attr::Symbol(sym), Attr::Base(base.clone())],
                    body: Body::Unit { name: name.clone(), annotation: None, rhs: None },
                };
                self.put(s.clone());
                let names = if kind == "base-undefined" { vec![name, base] } else { vec![name] };
                self.push(kind, names, vec![s], vec![]);
            }
            "symbol-twice" | "symbol-twice-prefix" => {
                let before = self.names.symbols.clone();
                let sym = self.names.symbol(self.rng);
                let (px, short, _) = *self.rng.pick(&crate::PREFIXES);
                let prefixed = |rng: &mut Rng, px: &str, sym: &str| {
                    vec![Attr::Symbol(sym.into()), if rng.chance(0.3) { Attr::Metric { skip: vec![] } } else { Attr::Prefix(vec![px.into()]) }]
                };
                let asym = format!("a{sym}");
                let all: Vec<String> =
                    std::iter::once(asym.clone()).chain(crate::PREFIXES.iter().map(|p| format!("{}{asym}", p.1))).collect();
                let free = !crate::gen::KEYWORDS.contains(&asym.as_str()) && !all.iter().any(|s| before.contains(s));
                let (a, b, dup) = match (kind, self.rng.below(4)) {
                    ("symbol-twice", _) => (vec![Attr::Symbol(sym.clone())], vec![Attr::Symbol(sym.clone())], sym),
                    // Both are prefixed: da + x and d + ax.
                    (_, 0) if free => {
                        let dup = format!("da{sym}");
                        self.names.symbols.extend(all);
                        let only = |px: &str, s: &str| vec![Attr::Symbol(s.into()), Attr::Prefix(vec![px.into()])];
                        (only("deca", &sym), only("deci", &asym), dup)
                    }
                    // (No one can write `#[symbol(as)]`.)
                    (_, n) if n == 1 || crate::gen::KEYWORDS.contains(&format!("{short}{sym}").as_str()) => {
                        let (a, b) = (prefixed(self.rng, px, &sym), prefixed(self.rng, px, &sym));
                        (a, b, format!("{short}{sym}"))
                    }
                    _ => (prefixed(self.rng, px, &sym), vec![Attr::Symbol(format!("{short}{sym}"))], format!("{short}{sym}")),
                };
                let mut stmts: Vec<Stmt> = vec![];
                // The units may well be equal.
                let equal = self.rng.chance(0.4);
                for attrs in [a, b] {
                    let name = self.fresh(Unit);
                    let e = match (self.pick(&[Unit, Constant]), stmts.first().map(|s| s.body.clone())) {
                        (_, Some(Body::Unit { name, rhs: Some(e), .. })) if equal => if self.rng.chance(0.5) { Expr::reference(&name) } else { e },
                        (Some(r), _) => Expr::reference(&r),
                        _ => Expr::one(Factor::Atom(Atom::Num("7".into()))),
                    };
                    let mut s = self.make(Unit, &name, e);
                    s.attrs = attrs;
                    stmts.push(s);
                }
                for s in &stmts {
                    self.put(s.clone());
                }
                self.push(kind, vec![dup], stmts, vec![]);
            }
            "base-without-symbol" => {
                let d = self.names.camel(self.rng);
                self.put(Stmt::new(Body::Dimension { name: d.clone(), rhs: None }));
                let name = self.fresh(Unit);
                let mut attrs = vec![Attr::Base(d)];
                if self.rng.chance(0.3) {
                    attrs.push(Attr::Alias(vec![self.fresh(Unit)]));
                }
                let s = Stmt { attrs, body: Body::Unit { name: name.clone(), annotation: None, rhs: None } };
                self.put(s.clone());
                self.push(kind, vec![name.clone()], vec![s], vec![]);
                if self.rng.chance(0.4) {
                    // Another unit of the same dimension has one.
                    let other = self.fresh(Unit);
                    let mut e = Expr::reference(&name);
                    if self.rng.chance(0.6) {
                        let f = if self.rng.chance(0.6) { "1".into() } else { number(self.rng, false) };
                        e = Expr::one(Factor::Atom(Atom::Num(f))).mul(Factor::Atom(Atom::Ref(name)));
                    }
                    let mut s = self.make(Unit, &other, e);
                    s.attrs.push(Attr::Symbol(self.names.symbol(self.rng)));
                    self.put(s);
                }
            }
            "duplicate-base-dimension" => {
                let name = self.names.camel(self.rng);
                let s = Stmt::new(Body::Dimension { name: name.clone(), rhs: None });
                self.put(s.clone());
                self.put(s.clone());
                self.push(kind, vec![name], vec![s], vec![]);
            }
            "type-missing" => {
                if self.faults.iter().any(|f| f.kind.starts_with("type-") || f.kind == "attribute-on-type") {
                    return None;
                }
                let q = self.rng.chance(0.5);
                self.sys.stmts.retain(|s| !matches!(&s.body, Body::QuantityType(_) if q) && !matches!(&s.body, Body::DimensionType(_) if !q));
                self.push(kind, vec![], vec![], vec![]);
                self.faults.last_mut().unwrap().phrases =
                    if q { vec!["quantity type", "quantity_type"] } else { vec!["dimension type", "dimension_type"] };
            }
            "type-twice" => {
                if self.faults.iter().any(|f| f.kind.starts_with("type-")) {
                    return None;
                }
                let n = self.names.camel(self.rng);
                let s = Stmt::new(if self.rng.chance(0.5) { Body::QuantityType(n.clone()) } else { Body::DimensionType(n.clone()) });
                self.put(s.clone());
                self.push(kind, vec![n], vec![s], vec![]);
            }
            "dimension-factor" => {
                let name = self.names.camel(self.rng);
                let num = self.rng.pick(&["2", "0.5", "1000", "0", "1.5", "1e3"]).to_string();
                let f = Factor::Atom(Atom::Num(num));
                let e = match self.pick(&[Dimension]) {
                    Some(d) if self.rng.chance(0.8) => match self.rng.below(3) {
                        0 => Expr::one(f).mul(Factor::Atom(Atom::Ref(d))),
                        1 => Expr::reference(&d).div(f),
                        _ => Expr::reference(&d).mul(Factor::Paren(Expr::one(f))),
                    },
                    _ => Expr::one(f),
                };
                let s = self.make(Dimension, &name, e);
                self.fatal(kind, s);
            }
            "attribute-on-dimension" | "attribute-on-constant" | "attribute-on-type" => {
                let a = match self.rng.below(4) {
                    0 => Attr::Symbol(self.names.symbol(self.rng)),
                    1 => Attr::Alias(vec![self.fresh(Unit)]),
                    2 => Attr::Metric { skip: vec![] },
                    _ => Attr::Prefix(vec!["kilo".into()]),
                };
                let one = Expr::one(Factor::Atom(Atom::Num("1".into())));
                let mut s = match kind {
                    "attribute-on-dimension" => {
                        let n = self.fresh(Dimension);
                        if self.rng.chance(0.5) {
                            Stmt::new(Body::Dimension { name: n, rhs: None })
                        } else {
                            self.make(Dimension, &n, one)
                        }
                    }
                    "attribute-on-constant" => {
                        let n = self.fresh(Constant);
                        self.make(Constant, &n, one)
                    }
                    _ => {
                        // Moves the attribute onto the type declaration that is there.
                        let i = self.sys.stmts.iter().position(|s| matches!(s.body, Body::QuantityType(_)))?;
                        self.sys.stmts.remove(i)
                    }
                };
                s.attrs.push(a);
                self.fatal(kind, s);
            }
            "base-with-expression" | "neither-base-nor-expression" | "base-attribute-twice" | "unknown-attribute" | "unknown-prefix"
            | "symbol-attribute-twice" | "attribute-without-arguments" | "zero-denominator" | "annotation-on-dimension" | "bad-token" | "metric-twice" => {
                let n = self.fresh(Unit);
                let b = self.m.bases[0].clone();
                let y = self.names.symbol(self.rng);
                let e = |raw: String| Stmt::new(Body::Raw(raw));
                let s = match kind {
                    "base-with-expression" => e(format!("#[base({b})] #[symbol({y})] unit {n} = 2")),
                    "neither-base-nor-expression" => e(format!("#[symbol({y})] unit {n}")),
                    "base-attribute-twice" => {
                        let c = self.rng.pick(&self.m.bases).clone();
                        e(format!("#[base({b})] #[base({c})] #[symbol({y})] unit {n}"))
                    }
                    "unknown-attribute" => e(format!("#[{}(x)] unit {n} = 3", self.rng.pick(&["aliases", "sym", "prefixes", "metric", "doc"]))),
                    "unknown-prefix" => e(format!("#[prefix({})] unit {n} = 3", self.rng.pick(&["kila", "yotta", "k", "kilo mega"]))),
                    "symbol-attribute-twice" => e(format!("#[symbol({y})] #[symbol({y}x)] unit {n} = 3")),
                    "attribute-without-arguments" => e(format!("#[{}] unit {n} = 3", self.rng.pick(&["symbol", "alias", "prefix", "base"]))),
                    "zero-denominator" => e(format!("unit {n} = 2^(1/0)")),
                    "annotation-on-dimension" => e(format!("dimension {}: {b} = 1", self.names.camel(self.rng))),
                    "metric-twice" => e(format!("#[metric_prefixes] #[symbol({y})] #[metric_prefixes(skip: kilo)] unit {n} = 3")),
                    _ => e(match self.rng.below(8) {
                        0 => format!("unit {n} = 3 *"),
                        1 => format!("unit {n} = * 3"),
                        2 => format!("unit {n} = 3 + 4"),
                        3 => format!("unit {n} = 2^"),
                        4 => format!("unit {n} = \"2\""),
                        5 => format!("units {n} = 2"),
                        6 => format!("unit = 2"),
                        _ => format!("constant {n}"),
                    }),
                };
                self.fatal(kind, s);
            }
            _ => unreachable!("{kind}"),
        }
        Some(())
    }
}

fn rename_first(e: &mut Expr, from: &str, to: &str) -> bool {
    fn fac(f: &mut Factor, from: &str, to: &str) -> bool {
        match f {
            Factor::Atom(Atom::Ref(n)) | Factor::Pow(Atom::Ref(n), _) if n == from => {
                *n = to.into();
                true
            }
            Factor::Paren(e) => rename_first(e, from, to),
            _ => false,
        }
    }
    fac(&mut e.first, from, to) || e.rest.iter_mut().any(|(_, f)| fac(f, from, to))
}

/// All names that are faulty or are defined in terms of something that is (annotations count).
pub fn tainted(sys: &System, faults: &[Fault]) -> BTreeSet<String> {
    let mut t: BTreeSet<String> = faults.iter().flat_map(|f| f.taints.iter().cloned()).collect();
    loop {
        let before = t.len();
        for s in &sys.stmts {
            let ann = match &s.body {
                Body::Unit { annotation, .. } | Body::Constant { annotation, .. } => annotation.clone(),
                _ => None,
            };
            if deps_of(s).iter().chain(ann.iter()).any(|d| t.contains(d)) {
                t.extend(names_of(s));
            }
        }
        if t.len() == before {
            return t;
        }
    }
}

pub fn inject(rng: &mut Rng, healthy: &System, class: Class, max: usize) -> Faulty {
    let mut inj = Inj {
        names: Names::of(healthy),
        m: meaning(healthy),
        sys: healthy.clone(),
        faults: vec![],
        touched: BTreeSet::new(),
        rng,
    };
    let n = 1 + inj.rng.below(max);
    let mut kinds: Vec<&'static str> = (0..n)
        .map(|_| if class == Class::Any && inj.rng.chance(0.35) { if inj.rng.chance(0.1) { "symbol-twice-prefix" } else { *inj.rng.pick(&OTHER) } } else { *inj.rng.pick(&SEMANTIC) })
        .collect();
    // Several of the same kind: their order matters, and one must not hide the other.
    if max > 1 && inj.rng.chance(0.35) {
        let k = kinds[0];
        kinds = vec![k; 2 + inj.rng.below(4)];
    }
    // A name that was free must not have got variants that are taken.
    let lookalikes: Vec<String> = healthy
        .stmts
        .iter()
        .filter_map(|s| match &s.body {
            Body::Unit { name, .. } if inj.names.stems.iter().any(|x| name.ends_with(x)) => Some(name.clone()),
            _ => None,
        })
        .collect();
    // Faults in existing definitions first, so that what the others refer to stays healthy.
    kinds.sort_by_key(|k| *k != "undefined-typo");
    for kind in kinds {
        for _ in 0..4 {
            let saved = (inj.sys.clone(), inj.faults.len());
            if inj.inject(kind).is_some() && !inj.collides(&lookalikes) {
                break;
            }
            inj.sys = saved.0;
            inj.faults.truncate(saved.1);
        }
    }
    if inj.faults.is_empty() {
        inj.names.stems.clear();
        inj.inject("undefined-new");
    }
    Faulty { healthy: healthy.clone(), sys: inj.sys, faults: inj.faults }
}
