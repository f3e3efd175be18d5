//! Rust's lexical grammar, as far as unit systems and the macro's own strings need it.
use crate::server::{Sp, Stream, Tree, CALL_SITE};
use proc_macro::bridge::{DelimSpan, Group, Ident, LitKind, Literal, Punct, TokenTree};
use proc_macro::Delimiter;
use std::rc::Rc;

fn start(c: char) -> bool {
    c == '_' || c.is_alphabetic()
}
fn cont(c: char) -> bool {
    c == '_' || c.is_alphanumeric()
}
pub fn is_ident(s: &str) -> bool {
    let mut c = s.chars();
    c.next().is_some_and(start) && c.all(cont)
}

/// `base`: offset of the text in the input, or None if the text has no place in it.
pub fn lex(text: &str, base: Option<u32>) -> Result<Vec<Tree>, ()> {
    let mut stack: Vec<(Delimiter, u32, Vec<Tree>)> = vec![];
    let mut cur: Vec<Tree> = vec![];
    let ch: Vec<(usize, char)> = text.char_indices().collect();
    let at = |i: usize| ch.get(i).map(|c| c.1);
    let pos = |i: usize| ch.get(i).map(|c| c.0).unwrap_or(text.len());
    let span = |a: usize, b: usize| match base {
        Some(o) => Sp { lo: o + pos(a) as u32, hi: o + pos(b) as u32, kind: 0 },
        None => CALL_SITE,
    };
    let mut i = 0;
    while let Some(c) = at(i) {
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        if c == '/' && at(i + 1) == Some('/') {
            while at(i).is_some_and(|c| c != '\n') {
                i += 1;
            }
            continue;
        }
        let begin = i;
        let hashes = (i + 1..).take_while(|j| at(*j) == Some('#')).count();
        if c == 'r' && at(i + 1 + hashes) == Some('"') && hashes < 200 {
            i += 2 + hashes;
            let inner = i;
            while !(at(i) == Some('"') && (1..=hashes).all(|k| at(i + k) == Some('#'))) {
                if at(i).is_none() {
                    return Err(());
                }
                i += 1;
            }
            let end = i;
            i += 1 + hashes;
            cur.push(TokenTree::Literal(Literal {
                kind: LitKind::StrRaw(hashes as u8),
                symbol: text[pos(inner)..pos(end)].into(),
                suffix: None,
                span: span(begin, i),
            }));
        } else if c == 'r' && at(i + 1) == Some('#') && at(i + 2).is_some_and(start) {
            i += 2;
            while at(i).is_some_and(cont) {
                i += 1;
            }
            cur.push(TokenTree::Ident(Ident { sym: text[pos(begin + 2)..pos(i)].into(), is_raw: true, span: span(begin, i) }));
        } else if start(c) {
            while at(i).is_some_and(cont) {
                i += 1;
            }
            cur.push(TokenTree::Ident(Ident { sym: text[pos(begin)..pos(i)].into(), is_raw: false, span: span(begin, i) }));
        } else if c.is_ascii_digit() || (c == '-' && base.is_none() && at(i + 1).is_some_and(|c| c.is_ascii_digit()) && begin == 0) {
            i += 1;
            let digits = |i: &mut usize| {
                while at(*i).is_some_and(|c| c.is_ascii_digit() || c == '_') {
                    *i += 1;
                }
            };
            let radix = text[pos(begin)..].starts_with('0') && matches!(at(i), Some('x' | 'b' | 'o'));
            if radix {
                i += 1;
                let hex = at(i - 1) == Some('x');
                while at(i).is_some_and(|c| c == '_' || if hex { c.is_ascii_hexdigit() } else { c.is_ascii_digit() }) {
                    i += 1;
                }
            }
            digits(&mut i);
            let mut float = false;
            if !radix && at(i) == Some('.') && at(i + 1) != Some('.') && !at(i + 1).is_some_and(start) {
                float = true;
                i += 1;
                digits(&mut i);
            }
            if !radix && at(i).is_some_and(|c| c == 'e' || c == 'E') {
                let mut j = i + 1;
                if at(j).is_some_and(|c| c == '+' || c == '-') {
                    j += 1;
                }
                while at(j) == Some('_') {
                    j += 1;
                }
                if at(j).is_some_and(|c| c.is_ascii_digit()) {
                    float = true;
                    i = j;
                    digits(&mut i);
                }
            }
            let end = i;
            if at(i).is_some_and(start) {
                while at(i).is_some_and(cont) {
                    i += 1;
                }
            }
            let suffix = &text[pos(end)..pos(i)];
            let (lit_end, suffix) = if suffix.starts_with('_') { (i, "") } else { (end, suffix) };
            cur.push(TokenTree::Literal(Literal {
                kind: if float { LitKind::Float } else { LitKind::Integer },
                symbol: text[pos(begin)..pos(lit_end)].into(),
                suffix: if suffix.is_empty() { None } else { Some(suffix.into()) },
                span: span(begin, i),
            }));
        } else if c == '"' {
            i += 1;
            while at(i).is_some_and(|c| c != '"') {
                i += if at(i) == Some('\\') { 2 } else { 1 };
            }
            if at(i).is_none() {
                return Err(());
            }
            i += 1;
            cur.push(TokenTree::Literal(Literal {
                kind: LitKind::Str,
                symbol: text[pos(begin + 1)..pos(i - 1)].into(),
                suffix: None,
                span: span(begin, i),
            }));
        } else if c == '\'' {
            if at(i + 1) == Some('\\') || at(i + 2) == Some('\'') {
                i += 2;
                while at(i).is_some_and(|c| c != '\'') {
                    i += 1;
                }
                if at(i).is_none() {
                    return Err(());
                }
                i += 1;
                cur.push(TokenTree::Literal(Literal {
                    kind: LitKind::Char,
                    symbol: text[pos(begin + 1)..pos(i - 1)].into(),
                    suffix: None,
                    span: span(begin, i),
                }));
            } else if at(i + 1).is_some_and(start) {
                i += 1;
                cur.push(TokenTree::Punct(Punct { ch: b'\'', joint: true, span: span(begin, i) }));
            } else {
                return Err(());
            }
        } else if let Some(d) = match c {
            '(' => Some(Delimiter::Parenthesis),
            '{' => Some(Delimiter::Brace),
            '[' => Some(Delimiter::Bracket),
            _ => None,
        } {
            i += 1;
            stack.push((d, begin as u32, std::mem::take(&mut cur)));
        } else if let Some(d) = match c {
            ')' => Some(Delimiter::Parenthesis),
            '}' => Some(Delimiter::Brace),
            ']' => Some(Delimiter::Bracket),
            _ => None,
        } {
            i += 1;
            let (d2, open, mut outer) = stack.pop().ok_or(())?;
            if d != d2 {
                return Err(());
            }
            let inner = std::mem::replace(&mut cur, vec![]);
            let open = open as usize;
            outer.push(TokenTree::Group(Group {
                delimiter: d,
                stream: if inner.is_empty() { None } else { Some(Stream(Rc::new(inner))) },
                span: DelimSpan { open: span(open, open + 1), close: span(begin, i), entire: span(open, i) },
            }));
            cur = outer;
        } else if "=<>!~&|@.,;:#$?+-*/^%".contains(c) {
            i += 1;
            let joint = at(i).is_some_and(|c| "=<>!~&|@.,;:#$?+-*/^%".contains(c));
            cur.push(TokenTree::Punct(Punct { ch: c as u8, joint, span: span(begin, i) }));
        } else {
            return Err(());
        }
    }
    if stack.is_empty() {
        Ok(cur)
    } else {
        Err(())
    }
}
