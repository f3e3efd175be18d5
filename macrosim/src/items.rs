//! Reads the generated code: what each dimension, unit and constant came out as.
use crate::server::{Sp, Stream, Sym, Tree};
use proc_macro::bridge::TokenTree;
use proc_macro::Delimiter;
use std::collections::BTreeMap;
use sysgen::reference::Dims;

#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub kind: char,
    /// By field of the generated dimension type; None if the code has a form this reader does not know.
    pub dims: Option<Dims>,
    /// Bits of the magnitude.
    pub mag: Option<u64>,
}
pub type Items = BTreeMap<String, Item>;

fn ident(t: &Tree) -> Option<&str> {
    match t {
        TokenTree::Ident(i) => Some(&i.sym),
        _ => None,
    }
}
/// As sysgen writes names: marked as raw where that makes a difference.
fn name(t: &Tree) -> Option<String> {
    match t {
        TokenTree::Ident(i) if i.is_raw && sysgen::gen::RAW.contains(&&*i.sym) => Some(format!("r#{}", &*i.sym)),
        TokenTree::Ident(i) => Some(i.sym.to_string()),
        _ => None,
    }
}
fn punct(t: &Tree, c: u8) -> bool {
    matches!(t, TokenTree::Punct(p) if p.ch == c)
}
fn group(t: &Tree, d: Delimiter) -> Option<&[Tree]> {
    match t {
        TokenTree::Group(g) if g.delimiter == d => Some(g.stream.as_ref().map(|s| &s.0[..]).unwrap_or(&[])),
        _ => None,
    }
}
/// Invisible groups do not matter.
fn flat(ts: &[Tree]) -> Vec<Tree> {
    let mut out = vec![];
    for t in ts {
        match group(t, Delimiter::None) {
            Some(g) => out.extend(flat(g)),
            None => out.push(t.clone()),
        }
    }
    out
}
fn int(ts: &[Tree]) -> Option<i128> {
    let (neg, rest) = match ts {
        [p, rest @ ..] if punct(p, b'-') => (true, rest),
        _ => (false, ts),
    };
    match rest {
        [TokenTree::Literal(l)] => {
            let x: i128 = l.symbol.replace('_', "").parse().ok()?;
            Some(if neg { -x } else { x })
        }
        _ => None,
    }
}
fn exponent(ts: &[Tree]) -> Option<(i64, i64)> {
    if let Some(i) = int(ts) {
        return Some((i as i64, 1));
    }
    match ts {
        [.., f, args] => {
            let args = flat(group(args, Delimiter::Parenthesis)?);
            let parts: Vec<&[Tree]> = args.split(|t| punct(t, b',')).filter(|p| !p.is_empty()).collect();
            match (ident(f)?, &parts[..]) {
                ("new", [a, b]) => Some(sysgen::reference::norm((int(a)? as i64, int(b)? as i64))),
                ("int" | "from_int", [a]) => Some((int(a)? as i64, 1)),
                _ => None,
            }
        }
        _ => None,
    }
}
/// `Name { field: value, ... }`, possibly in blocks.
fn fields(ts: &[Tree]) -> Option<Vec<(String, Vec<Tree>)>> {
    let ts = flat(ts);
    match &ts[..] {
        [b] => fields(group(b, Delimiter::Brace)?),
        [.., n, b] if ident(n).is_some() => {
            let inner = flat(group(b, Delimiter::Brace)?);
            let mut out = vec![];
            for f in inner.split(|t| punct(t, b',')).filter(|p| !p.is_empty()) {
                match f {
                    [a, b, ..] if punct(a, b'.') && punct(b, b'.') => {}
                    [n, c, rest @ ..] if punct(c, b':') => out.push((name(n)?, rest.to_vec())),
                    _ => return None,
                }
            }
            Some(out)
        }
        _ => None,
    }
}
fn dims(ts: &[Tree]) -> Option<Dims> {
    let mut d = Dims::new();
    for (n, v) in fields(ts)? {
        let e = exponent(&v)?;
        if e.0 != 0 {
            d.insert(n, e);
        }
    }
    Some(d)
}
fn magnitude(ts: &[Tree]) -> Option<u64> {
    let f: BTreeMap<String, Vec<Tree>> = fields(ts)?.into_iter().collect();
    let (m, e, s) = (int(f.get("mantissa")?)?, int(f.get("exponent")?)?, int(f.get("sign")?)?);
    let mut x = m as f64;
    // Powers of two, in two steps that stay within the range; only the last one can round.
    let e = e as i32;
    let k = (e / 2).clamp(-500, 500);
    x *= 2f64.powi(k);
    x *= 2f64.powi(e - k);
    Some((x * s as f64).to_bits())
}

fn walk(ts: &[Tree], module: &str, out: &mut Items) {
    let mut i = 0;
    while i < ts.len() {
        if let TokenTree::Group(g) = &ts[i] {
            if let Some(s) = &g.stream {
                walk(&s.0, module, out);
            }
        }
        let Some(w) = ident(&ts[i]) else {
            i += 1;
            continue;
        };
        if w == "mod" && i + 2 < ts.len() {
            if let (Some(n), Some(b)) = (ident(&ts[i + 1]), group(&ts[i + 2], Delimiter::Brace)) {
                walk(b, &n.to_string(), out);
                i += 3;
                continue;
            }
        }
        if module == "dimensions" && w == "type" || (module == "units" || module == "constants") && w == "const" {
            if let Some(n) = ts.get(i + 1).and_then(name) {
                let end = ts[i..].iter().position(|t| punct(t, b';')).map(|p| p + i).unwrap_or(ts.len());
                let groups: Vec<&[Tree]> = ts[i..end].iter().filter_map(|t| group(t, Delimiter::Brace)).collect();
                let kind = match module {
                    "dimensions" => 'd',
                    "units" => 'u',
                    _ => 'c',
                };
                let item = Item {
                    kind,
                    dims: groups.first().and_then(|g| dims(g)),
                    mag: if kind == 'd' { Some(1f64.to_bits()) } else { groups.get(1).and_then(|g| magnitude(g)) },
                };
                if out.insert(n.clone(), item.clone()).is_some() {
                    // Twice: nothing can be said.
                    out.insert(n, Item { dims: None, mag: None, ..item });
                }
                i = end;
                continue;
            }
        }
        i += 1;
    }
}
pub fn items(s: &Stream) -> Items {
    let mut out = Items::new();
    walk(&s.0, "", &mut out);
    out
}

/// `compile_error!("...")`: message and where its tokens point.
pub fn compile_errors(s: &Stream) -> Vec<(String, Vec<Sp>)> {
    fn spans(ts: &[Tree], out: &mut Vec<Sp>) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    out.push(g.span.entire);
                    if let Some(s) = &g.stream {
                        spans(&s.0, out);
                    }
                }
                TokenTree::Punct(p) => out.push(p.span),
                TokenTree::Ident(i) => out.push(i.span),
                TokenTree::Literal(l) => out.push(l.span),
            }
        }
    }
    fn go(ts: &[Tree], out: &mut Vec<(String, Vec<Sp>)>) {
        for i in 0..ts.len() {
            if let TokenTree::Group(g) = &ts[i] {
                if let Some(s) = &g.stream {
                    if i >= 2 && ident(&ts[i - 2]) == Some("compile_error") && punct(&ts[i - 1], b'!') {
                        let msg: String = s
                            .0
                            .iter()
                            .filter_map(|t: &TokenTree<Stream, Sp, Sym>| if let TokenTree::Literal(l) = t { Some(l.symbol.to_string()) } else { None })
                            .collect();
                        let mut sp = vec![];
                        spans(&ts[i - 2..=i], &mut sp);
                        out.push((msg, sp));
                    } else {
                        go(&s.0, out);
                    }
                }
            }
        }
    }
    let mut out = vec![];
    go(&s.0, &mut out);
    out
}
