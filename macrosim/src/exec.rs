//! Executes the steps of a case, in a process of its own.
use crate::case::{Case, Step, Thread};
use crate::items::{compile_errors, items, Items};
use crate::server::{exact, expand, render, Compiler, Decls, Diag, Outcome, Sp};

#[derive(Clone, Debug, PartialEq)]
pub struct ErrorMsg {
    pub message: String,
    /// Parts of the input it points at.
    pub points: Vec<(u32, u32)>,
}
/// What a step produced.
#[derive(Clone, Debug)]
pub struct Out {
    pub panic: Option<String>,
    /// Tokens with spans.
    pub exact: String,
    pub diags: Vec<Diag>,
    pub items: Items,
    pub errors: Vec<ErrorMsg>,
    pub source: String,
    /// The generated code as text, if asked for.
    pub text: Option<String>,
    pub oddities: Vec<String>,
    pub requests: u64,
}

fn one(decls: Decls, step: &Step, want_text: bool) -> Result<Out, String> {
    let mut c = Compiler {
        source: step.source.clone(),
        diags: vec![],
        panic_at_diag: step.panic_at_diag,
        panic_at_request: step.panic_at_request,
        requests: 0,
        oddities: vec![],
    };
    let r = expand(decls, "unit_system", &mut c, step.thread == Thread::Cross)?;
    let pts = |v: &[Sp]| v.iter().filter(|s| s.kind == 0 && s.hi > s.lo).map(|s| (s.lo, s.hi)).collect::<Vec<_>>();
    let mut errors: Vec<ErrorMsg> = c
        .diags
        .iter()
        .filter(|d| d.level == "error")
        .map(|d| {
            let mut m = d.message.clone();
            let mut p = pts(&d.spans);
            for ch in &d.children {
                m.push('\n');
                m.push_str(&ch.message);
                p.extend(pts(&ch.spans));
            }
            ErrorMsg { message: m, points: p }
        })
        .collect();
    let mut out = Out {
        panic: None,
        exact: String::new(),
        diags: c.diags,
        items: Items::new(),
        errors: vec![],
        source: step.source.clone(),
        text: None,
        oddities: c.oddities,
        requests: c.requests,
    };
    match r {
        Outcome::Tokens(s) => {
            exact(&s.0, &mut out.exact);
            out.items = items(&s);
            for (m, sp) in compile_errors(&s) {
                errors.push(ErrorMsg { message: m, points: pts(&sp) });
            }
            if want_text {
                out.text = Some(render(&s.0));
            }
        }
        Outcome::Panic(p) => out.panic = Some(p),
    }
    out.errors = errors;
    Ok(out)
}

/// Variables and working directory of the compiler process: a part of the environment that must not show either.
fn surroundings(key: u64) {
    const VARS: [(&str, [&str; 3]); 16] = [
        ("LANG", ["C", "de_DE.UTF-8", "tr_TR.UTF-8"]),
        ("LC_ALL", ["C", "en_US.UTF-8", "tr_TR.UTF-8"]),
        ("HOME", ["/root", "/home/a", "/"]),
        ("USER", ["root", "a", "z"]),
        ("TERM", ["dumb", "xterm-256color", "linux"]),
        ("COLUMNS", ["20", "80", "200"]),
        ("NO_COLOR", ["1", "", "0"]),
        ("CARGO_TERM_COLOR", ["always", "never", "auto"]),
        ("TZ", ["UTC", "Asia/Tokyo", "America/New_York"]),
        ("SOURCE_DATE_EPOCH", ["0", "1700000000", "1"]),
        ("PROFILE", ["debug", "release", "bench"]),
        ("DEBUG", ["true", "false", "1"]),
        ("OPT_LEVEL", ["0", "3", "s"]),
        ("CARGO_PKG_NAME", ["a", "diman", "zebra"]),
        ("CARGO_MANIFEST_DIR", ["/", "/work/a", "/work/b"]),
        ("RUST_LOG", ["trace", "off", "diman=debug"]),
    ];
    let mut r = simcore::Rng::derive(key, "surroundings", 0);
    for (v, x) in VARS {
        match r.below(4) {
            3 => std::env::remove_var(v),
            i => std::env::set_var(v, x[i]),
        }
    }
    let _ = std::env::set_current_dir(*r.pick(&["/", "/usr", "/tmp", "/proc/self", "/dev"]));
}

pub fn run(decls: Decls, case: &Case, want_text: bool) -> Result<Vec<Out>, String> {
    // Everything with role != fresh thread happens on this thread.
    let mut outs = vec![];
    let mut leak: Vec<Vec<u8>> = vec![];
    for step in &case.steps {
        crate::interpose::set_key(step.key);
        surroundings(step.key);
        let mut r = simcore::Rng::new(step.pad);
        for _ in 0..step.pad % 7 {
            leak.push(vec![1u8; 16 + r.below(5000)]);
        }
        if leak.len() > 3 && r.chance(0.5) {
            let i = r.below(leak.len());
            leak.swap_remove(i);
        }
        let o = match step.thread {
            Thread::Same | Thread::Cross => one(decls, step, want_text)?,
            Thread::Fresh => std::thread::scope(|s| {
                let t = std::thread::Builder::new()
                    .name(format!("worker-{}", step.key % 97))
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || one(decls, step, want_text))
                    .map_err(|e| e.to_string())?;
                t.join().map_err(|_| "the harness panicked".to_string())?
            })?,
        };
        outs.push(o);
    }
    Ok(outs)
}
