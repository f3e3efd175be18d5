//! A compiler for the macro to run in: an in-process proc_macro server.
use proc_macro::bridge::server::{self};
use proc_macro::bridge::{client, DelimSpan, Diagnostic, ExpnGlobals, Group, Ident, LitKind, Literal, Punct, TokenTree};
use proc_macro::{Delimiter, Level};
use std::ops::{Bound, Range};
use std::rc::Rc;

/// Byte range of the input; `kind` 0 = input, 1 = call site, 2 = mixed site, 3 = def site.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Sp {
    pub lo: u32,
    pub hi: u32,
    pub kind: u8,
}
pub const CALL_SITE: Sp = Sp { lo: 0, hi: 0, kind: 1 };

pub type Sym = Rc<str>;
pub type Tree = TokenTree<Stream, Sp, Sym>;
#[derive(Clone, Default)]
pub struct Stream(pub Rc<Vec<Tree>>);

#[derive(Clone, Debug, PartialEq)]
pub struct Diag {
    pub level: &'static str,
    pub message: String,
    pub spans: Vec<Sp>,
    pub children: Vec<Diag>,
}

/// What the simulated compiler does to the macro, and what it recorded.
pub struct Compiler {
    pub source: String,
    pub diags: Vec<Diag>,
    /// Panic (as a compiler that runs out of something would) when this many diagnostics were emitted.
    pub panic_at_diag: Option<usize>,
    /// Panic at this request from the macro.
    pub panic_at_request: Option<u64>,
    pub requests: u64,
    pub oddities: Vec<String>,
}

pub struct Srv<'a>(pub &'a mut Compiler);

pub struct Never;

impl server::Types for Srv<'_> {
    type FreeFunctions = Never;
    type TokenStream = Stream;
    type SourceFile = Rc<str>;
    type Span = Sp;
    type Symbol = Sym;
}

impl Srv<'_> {
    fn tick(&mut self) {
        self.0.requests += 1;
        if self.0.panic_at_request == Some(self.0.requests) {
            std::panic::panic_any("simulated compiler failure");
        }
    }
    fn diag(d: &Diagnostic<Sp>) -> Diag {
        Diag {
            level: match d.level {
                Level::Error => "error",
                Level::Warning => "warning",
                Level::Note => "note",
                Level::Help => "help",
                _ => "other",
            },
            message: d.message.clone(),
            spans: d.spans.clone(),
            children: d.children.iter().map(Srv::diag).collect(),
        }
    }
}

impl server::FreeFunctions for Srv<'_> {
    fn injected_env_var(&mut self, _var: &str) -> Option<String> {
        None
    }
    fn track_env_var(&mut self, var: &str, _value: Option<&str>) {
        self.0.oddities.push(format!("track_env_var {var}"));
    }
    fn track_path(&mut self, path: &str) {
        self.0.oddities.push(format!("track_path {path}"));
    }
    fn literal_from_str(&mut self, s: &str) -> Result<Literal<Sp, Sym>, ()> {
        self.tick();
        let trees = crate::lex::lex(s, None)?;
        match <[Tree; 1]>::try_from(trees).map_err(|_| ())? {
            [TokenTree::Literal(l)] => Ok(l),
            _ => Err(()),
        }
    }
    fn emit_diagnostic(&mut self, diagnostic: Diagnostic<Sp>) {
        self.tick();
        if self.0.panic_at_diag == Some(self.0.diags.len()) {
            std::panic::panic_any("simulated failure while reporting");
        }
        self.0.diags.push(Srv::diag(&diagnostic));
    }
}

impl server::TokenStream for Srv<'_> {
    fn is_empty(&mut self, s: &Stream) -> bool {
        s.0.is_empty()
    }
    fn expand_expr(&mut self, _: &Stream) -> Result<Stream, ()> {
        Err(())
    }
    fn from_str(&mut self, src: &str) -> Stream {
        self.tick();
        match crate::lex::lex(src, None) {
            Ok(v) => Stream(Rc::new(v)),
            Err(()) => {
                self.0.oddities.push(format!("unlexable {src}"));
                Stream::default()
            }
        }
    }
    fn to_string(&mut self, s: &Stream) -> String {
        self.tick();
        render(&s.0)
    }
    fn from_token_tree(&mut self, tree: Tree) -> Stream {
        Stream(Rc::new(vec![tree]))
    }
    fn concat_trees(&mut self, base: Option<Stream>, trees: Vec<Tree>) -> Stream {
        self.tick();
        let mut v = base.map(|b| Rc::try_unwrap(b.0).unwrap_or_else(|r| (*r).clone())).unwrap_or_default();
        v.extend(trees);
        Stream(Rc::new(v))
    }
    fn concat_streams(&mut self, base: Option<Stream>, streams: Vec<Stream>) -> Stream {
        self.tick();
        let mut v = base.map(|b| Rc::try_unwrap(b.0).unwrap_or_else(|r| (*r).clone())).unwrap_or_default();
        for s in streams {
            v.extend(s.0.iter().cloned());
        }
        Stream(Rc::new(v))
    }
    fn into_trees(&mut self, s: Stream) -> Vec<Tree> {
        self.tick();
        Rc::try_unwrap(s.0).unwrap_or_else(|r| (*r).clone())
    }
}

impl server::SourceFile for Srv<'_> {
    fn eq(&mut self, a: &Rc<str>, b: &Rc<str>) -> bool {
        a == b
    }
    fn path(&mut self, f: &Rc<str>) -> String {
        f.to_string()
    }
    fn is_real(&mut self, _: &Rc<str>) -> bool {
        false
    }
}

impl server::Span for Srv<'_> {
    fn debug(&mut self, s: Sp) -> String {
        format!("#{} bytes({}..{})", s.kind, s.lo, s.hi)
    }
    fn source_file(&mut self, _: Sp) -> Rc<str> {
        "simulated.rs".into()
    }
    fn parent(&mut self, _: Sp) -> Option<Sp> {
        None
    }
    fn source(&mut self, s: Sp) -> Sp {
        s
    }
    fn byte_range(&mut self, s: Sp) -> Range<usize> {
        s.lo as usize..s.hi as usize
    }
    fn start(&mut self, s: Sp) -> Sp {
        Sp { hi: s.lo, ..s }
    }
    fn end(&mut self, s: Sp) -> Sp {
        Sp { lo: s.hi, ..s }
    }
    fn line(&mut self, s: Sp) -> usize {
        1 + self.0.source.as_bytes()[..s.lo as usize].iter().filter(|c| **c == b'\n').count()
    }
    fn column(&mut self, s: Sp) -> usize {
        1 + self.0.source.as_bytes()[..s.lo as usize].iter().rev().take_while(|c| **c != b'\n').count()
    }
    fn join(&mut self, a: Sp, b: Sp) -> Option<Sp> {
        if a.kind == b.kind {
            Some(Sp { lo: a.lo.min(b.lo), hi: a.hi.max(b.hi), kind: a.kind })
        } else {
            None
        }
    }
    fn subspan(&mut self, s: Sp, start: Bound<usize>, end: Bound<usize>) -> Option<Sp> {
        let len = (s.hi - s.lo) as usize;
        let lo = match start {
            Bound::Included(x) => x,
            Bound::Excluded(x) => x + 1,
            Bound::Unbounded => 0,
        };
        let hi = match end {
            Bound::Included(x) => x + 1,
            Bound::Excluded(x) => x,
            Bound::Unbounded => len,
        };
        if lo > hi || hi > len {
            return None;
        }
        Some(Sp { lo: s.lo + lo as u32, hi: s.lo + hi as u32, kind: s.kind })
    }
    fn resolved_at(&mut self, s: Sp, at: Sp) -> Sp {
        Sp { kind: at.kind, ..s }
    }
    fn source_text(&mut self, s: Sp) -> Option<String> {
        if s.kind == 0 {
            self.0.source.get(s.lo as usize..s.hi as usize).map(|s| s.to_string())
        } else {
            None
        }
    }
    fn save_span(&mut self, _: Sp) -> usize {
        0
    }
    fn recover_proc_macro_span(&mut self, _: usize) -> Sp {
        CALL_SITE
    }
}

impl server::Symbol for Srv<'_> {
    fn normalize_and_validate_ident(&mut self, s: &str) -> Result<Sym, ()> {
        if crate::lex::is_ident(s) {
            Ok(s.into())
        } else {
            Err(())
        }
    }
}

impl server::Server for Srv<'_> {
    fn globals(&mut self) -> ExpnGlobals<Sp> {
        ExpnGlobals {
            def_site: Sp { lo: 0, hi: 0, kind: 3 },
            call_site: CALL_SITE,
            mixed_site: Sp { lo: 0, hi: 0, kind: 2 },
        }
    }
    fn intern_symbol(s: &str) -> Sym {
        s.into()
    }
    fn with_symbol_string(s: &Sym, f: impl FnOnce(&str)) {
        f(s)
    }
}

pub fn lit_text(l: &Literal<Sp, Sym>) -> String {
    let suffix = l.suffix.as_ref().map(|s| s.to_string()).unwrap_or_default();
    let body = match l.kind {
        LitKind::Byte => format!("b'{}'", l.symbol),
        LitKind::Char => format!("'{}'", l.symbol),
        LitKind::Integer | LitKind::Float => l.symbol.to_string(),
        LitKind::Str => format!("\"{}\"", l.symbol),
        LitKind::StrRaw(n) => format!("r{0}\"{1}\"{0}", "#".repeat(n as usize), l.symbol),
        LitKind::ByteStr => format!("b\"{}\"", l.symbol),
        LitKind::ByteStrRaw(n) => format!("br{0}\"{1}\"{0}", "#".repeat(n as usize), l.symbol),
        LitKind::CStr => format!("c\"{}\"", l.symbol),
        LitKind::CStrRaw(n) => format!("cr{0}\"{1}\"{0}", "#".repeat(n as usize), l.symbol),
        _ => format!("<err {}>", l.symbol),
    };
    body + &suffix
}

pub fn delims(d: Delimiter) -> (&'static str, &'static str) {
    match d {
        Delimiter::Parenthesis => ("(", ")"),
        Delimiter::Brace => ("{", "}"),
        Delimiter::Bracket => ("[", "]"),
        Delimiter::None => ("", ""),
    }
}

/// Valid source text.
pub fn render(trees: &[Tree]) -> String {
    fn go(trees: &[Tree], out: &mut String) {
        for t in trees {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = delims(g.delimiter);
                    out.push_str(a);
                    out.push(' ');
                    if let Some(s) = &g.stream {
                        go(&s.0, out);
                    }
                    out.push_str(b);
                    out.push(if g.delimiter == Delimiter::Brace { '\n' } else { ' ' });
                }
                TokenTree::Punct(p) => {
                    out.push(p.ch as char);
                    if !p.joint {
                        out.push(if p.ch == b';' { '\n' } else { ' ' });
                    }
                }
                TokenTree::Ident(i) => {
                    if i.is_raw {
                        out.push_str("r#");
                    }
                    out.push_str(&i.sym);
                    out.push(' ');
                }
                TokenTree::Literal(l) => {
                    out.push_str(&lit_text(l));
                    out.push(' ');
                }
            }
        }
    }
    let mut out = String::new();
    go(trees, &mut out);
    out
}

/// Everything there is in a token stream, spans included.
pub fn exact(trees: &[Tree], out: &mut String) {
    use std::fmt::Write;
    let sp = |s: &Sp, out: &mut String| {
        let _ = write!(out, "@{}:{}-{} ", s.kind, s.lo, s.hi);
    };
    for t in trees {
        match t {
            TokenTree::Group(Group { delimiter, stream, span: DelimSpan { open, close, entire } }) => {
                let (a, b) = delims(*delimiter);
                out.push_str(if *delimiter == Delimiter::None { "<" } else { a });
                sp(open, out);
                sp(entire, out);
                if let Some(s) = stream {
                    exact(&s.0, out);
                }
                out.push_str(if *delimiter == Delimiter::None { ">" } else { b });
                sp(close, out);
                out.push('\n');
            }
            TokenTree::Punct(Punct { ch, joint, span }) => {
                out.push(*ch as char);
                if *joint {
                    out.push('~');
                }
                sp(span, out);
            }
            TokenTree::Ident(Ident { sym, is_raw, span }) => {
                if *is_raw {
                    out.push_str("r#");
                }
                out.push_str(sym);
                sp(span, out);
            }
            TokenTree::Literal(l) => {
                out.push_str(&lit_text(l));
                sp(&l.span, out);
            }
        }
    }
}

pub type Decls = &'static [client::ProcMacro];

pub enum Outcome {
    Tokens(Stream),
    Panic(String),
}

pub fn expand(decls: Decls, name: &str, c: &mut Compiler, cross_thread: bool) -> Result<Outcome, String> {
    let input = Stream(Rc::new(crate::lex::lex(&c.source.clone(), Some(0)).map_err(|_| "the harness cannot lex its input")?));
    for d in decls {
        if let client::ProcMacro::Bang { name: n, client } = d {
            if *n == name {
                let strategy = server::MaybeCrossThread::<Pipe<_>>::new(cross_thread);
                return Ok(match client.run(&strategy, Srv(c), input, false) {
                    Ok(s) => Outcome::Tokens(s),
                    Err(p) => Outcome::Panic(p.as_str().unwrap_or("<not a string>").to_string()),
                });
            }
        }
    }
    Err(format!("no macro {name}"))
}

/// Carries the requests when the macro runs on a thread of its own; one of the two is always waiting.
pub struct Pipe<T>(std::sync::mpsc::SyncSender<T>, std::sync::mpsc::Receiver<T>);
impl<T> server::MessagePipe<T> for Pipe<T> {
    fn new() -> (Self, Self) {
        let (tx1, rx1) = std::sync::mpsc::sync_channel(1);
        let (tx2, rx2) = std::sync::mpsc::sync_channel(1);
        (Pipe(tx1, rx2), Pipe(tx2, rx1))
    }
    fn send(&mut self, value: T) {
        self.0.send(value).unwrap();
    }
    fn recv(&mut self) -> Option<T> {
        self.1.recv().ok()
    }
}
