//! Reads the text of a unit system (for the predefined SI system).
use crate::*;

struct P {
    t: Vec<String>,
    i: usize,
}
fn tokens(text: &str) -> Vec<String> {
    let mut out = vec![];
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i].is_whitespace() {
            i += 1;
        } else if c[i] == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i] == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c[i].is_alphabetic() || c[i] == '_' {
            let s = i;
            if c[i] == 'r' && c.get(i + 1) == Some(&'#') && c.get(i + 2).is_some_and(|c| c.is_alphabetic()) {
                i += 2;
            }
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            out.push(c[s..i].iter().collect());
        } else if c[i].is_ascii_digit() {
            let s = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_' || c[i] == '.' || (c[i] == '-' || c[i] == '+') && matches!(c[i - 1], 'e' | 'E')) {
                i += 1;
            }
            out.push(c[s..i].iter().collect());
        } else {
            out.push(c[i].to_string());
            i += 1;
        }
    }
    out
}
impl P {
    fn peek(&self) -> &str {
        self.t.get(self.i).map(|s| s.as_str()).unwrap_or("")
    }
    fn next(&mut self) -> Option<String> {
        self.i += 1;
        self.t.get(self.i - 1).cloned()
    }
    fn eat(&mut self, s: &str) -> Option<()> {
        (self.next()? == s).then_some(())
    }
    fn opt(&mut self, s: &str) -> bool {
        let r = self.peek() == s;
        if r {
            self.i += 1;
        }
        r
    }
    fn word(&mut self) -> Option<String> {
        let w = self.next()?;
        (w.starts_with(|c: char| c.is_alphabetic() || c == '_')).then_some(w)
    }
    fn list(&mut self) -> Option<Vec<String>> {
        let mut v = vec![];
        while self.peek() != ")" {
            v.push(self.word()?);
            if !self.opt(",") {
                break;
            }
        }
        self.eat(")")?;
        Some(v)
    }
    fn attr(&mut self) -> Option<Attr> {
        self.eat("[")?;
        let a = match self.word()?.as_str() {
            "base" => {
                self.eat("(")?;
                Attr::Base(self.list()?.pop()?)
            }
            "symbol" => {
                self.eat("(")?;
                // Any single token.
                let s = self.next()?;
                self.eat(")")?;
                Attr::Symbol(crate::gen::unraw(&s).to_string())
            }
            "alias" => {
                self.eat("(")?;
                Attr::Alias(self.list()?)
            }
            "prefix" => {
                self.eat("(")?;
                Attr::Prefix(self.list()?)
            }
            "metric_prefixes" => {
                let mut skip = vec![];
                if self.opt("(") {
                    if self.opt("skip") {
                        self.eat(":")?;
                    }
                    skip = self.list()?;
                }
                Attr::Metric { skip }
            }
            _ => return None,
        };
        self.eat("]")?;
        Some(a)
    }
    fn int(&mut self) -> Option<i64> {
        let neg = self.opt("-");
        let x: i64 = self.next()?.replace('_', "").parse().ok()?;
        Some(if neg { -x } else { x })
    }
    fn factor(&mut self) -> Option<Factor> {
        if self.opt("(") {
            let e = self.expr()?;
            self.eat(")")?;
            return Some(Factor::Paren(e));
        }
        let mut s = self.next()?;
        if s == "-" {
            s += &self.next()?;
        }
        let a = if s.starts_with(|c: char| c.is_ascii_digit() || c == '-') { Atom::Num(s) } else { Atom::Ref(s) };
        if self.opt("^") {
            let e = if self.opt("(") {
                let n = self.int()?;
                self.eat("/")?;
                let d = self.int()?;
                self.eat(")")?;
                (n, d)
            } else {
                (self.int()?, 1)
            };
            return Some(Factor::Pow(a, e));
        }
        Some(Factor::Atom(a))
    }
    fn expr(&mut self) -> Option<Expr> {
        let mut e = Expr::one(self.factor()?);
        loop {
            let op = match self.peek() {
                "*" => Op::Mul,
                "/" => Op::Div,
                ";" | ")" | "" => return Some(e),
                _ => {
                    let f = self.factor()?;
                    e.rest.push((Op::Juxta, f));
                    continue;
                }
            };
            self.i += 1;
            let f = self.factor()?;
            e.rest.push((op, f));
        }
    }
}

pub fn system(text: &str, rational: bool) -> Option<System> {
    let mut p = P { t: tokens(text), i: 0 };
    let mut stmts = vec![];
    while p.i < p.t.len() {
        let mut attrs = vec![];
        while p.opt("#") {
            attrs.push(p.attr()?);
        }
        let body = match p.word()?.as_str() {
            "quantity_type" => Body::QuantityType(p.word()?),
            "dimension_type" => Body::DimensionType(p.word()?),
            "dimension" => {
                let name = p.word()?;
                let rhs = if p.opt("=") { Some(p.expr()?) } else { None };
                Body::Dimension { name, rhs }
            }
            k @ ("unit" | "constant") => {
                let name = p.word()?;
                let annotation = if p.opt(":") { Some(p.word()?) } else { None };
                let rhs = if p.opt("=") { Some(p.expr()?) } else { None };
                if k == "unit" {
                    Body::Unit { name, annotation, rhs }
                } else {
                    Body::Constant { name, annotation, rhs: rhs? }
                }
            }
            _ => return None,
        };
        stmts.push(Stmt { attrs, body });
        if !p.opt(";") && p.i < p.t.len() {
            return None;
        }
    }
    Some(System { stmts, rational })
}
/// The argument of the `unit_system!(...)` in a source file.
pub fn invocation(source: &str) -> Option<&str> {
    let a = source.find("unit_system!")? + "unit_system!".len();
    let open = a + source[a..].find(['(', '{'])? + 1;
    let close = source.rfind([')', '}'])?;
    source.get(open..close)
}

#[cfg(test)]
mod tests {
    #[test]
    fn round_trip() {
        for i in 0..300 {
            let mut rng = simcore::Rng::new(i);
            let p = crate::gen::Params::random(&mut rng, true);
            let s = crate::gen::system(&mut rng, &p);
            let t = super::system(&s.text(), true).unwrap();
            assert_eq!(s.text(), t.text());
        }
    }
    #[test]
    fn si() {
        let t = std::fs::read_to_string("/repo/src/si.rs").unwrap();
        let s = super::system(super::invocation(&t).unwrap(), false).unwrap();
        let m = crate::reference::meaning(&s);
        let sy = crate::reference::symbols(&m);
        assert_eq!(sy["km"].1, 1000.0);
        println!("{:?}", sy.keys().collect::<Vec<_>>());
        let all: usize = s.stmts.iter().map(|s| crate::reference::names_of(s).len()).sum();
        assert_eq!(all, m.values.len());
    }
}
