//! Runs a case in a forked process: every run starts from a compiler that has expanded nothing yet, and a hang or a
//! crash of the macro ends only that process.
use crate::case::Case;
use crate::exec::{ErrorMsg, Out};
use crate::judge::{judge, Confirm, Verdict};
use simcore::proc::{forked, Ended, Limits};
use std::collections::BTreeMap;

#[derive(Default, Debug)]
pub struct Report {
    pub verdict: Option<Verdict>,
    pub counts: BTreeMap<String, u64>,
    pub digest: u64,
    /// Generated code of the steps, if asked for.
    pub outs: Vec<Out>,
    pub infra: Option<String>,
}

struct W(Vec<u8>);
impl W {
    fn f(&mut self, tag: u8, parts: &[&str]) {
        self.0.push(tag);
        self.0.extend((parts.len() as u32).to_le_bytes());
        for p in parts {
            self.0.extend((p.len() as u32).to_le_bytes());
            self.0.extend(p.as_bytes());
        }
    }
}
fn parse(b: &[u8]) -> Option<(Vec<(u8, Vec<String>)>, bool)> {
    let mut i = 0;
    let mut out = vec![];
    let num = |i: &mut usize| -> Option<usize> {
        let x = u32::from_le_bytes(b.get(*i..*i + 4)?.try_into().ok()?);
        *i += 4;
        Some(x as usize)
    };
    let mut done = false;
    while i < b.len() {
        let tag = b[i];
        i += 1;
        let n = num(&mut i)?;
        let mut v = vec![];
        for _ in 0..n {
            let l = num(&mut i)?;
            v.push(String::from_utf8_lossy(b.get(i..i + l)?).into_owned());
            i += l;
        }
        done |= tag == b'.';
        out.push((tag, v));
    }
    Some((out, done))
}

fn work(decls: crate::server::Decls, case: &Case, want_text: bool) -> Vec<u8> {
    let mut w = W(vec![]);
    match crate::exec::run(decls, case, want_text) {
        Err(e) => w.f(b'E', &[&e]),
        Ok(outs) => {
            let mut h = simcore::Fnv::default();
            let mut c: BTreeMap<&str, u64> = BTreeMap::new();
            for (s, o) in case.steps.iter().zip(&outs) {
                h.bytes(o.exact.as_bytes()).bytes(format!("{:?}{:?}{:?}", o.diags, o.panic, o.oddities).as_bytes());
                *c.entry("expansions").or_default() += 1;
                *c.entry("requests from the macro to the compiler").or_default() += o.requests;
                *c.entry("errors emitted").or_default() += o.errors.len() as u64;
                if o.panic.is_some() {
                    *c.entry(if s.role == "disturb" { "panics in disturbing expansions" } else { "panics in judged expansions" }).or_default() += 1;
                }
                if s.role == "target" {
                    *c.entry("items read").or_default() += o.items.len() as u64;
                    if !o.errors.is_empty() {
                        *c.entry("judged expansions with errors").or_default() += 1;
                    }
                }
            }
            *c.entry("random words drawn by the macro").or_default() += crate::interpose::RANDOM_CALLS.load(std::sync::atomic::Ordering::SeqCst);
            for (k, v) in c {
                w.f(b'C', &[k, &v.to_string()]);
            }
            w.f(b'D', &[&h.0.to_string()]);
            if let Some(v) = judge(case, &outs) {
                let mut p = vec![v.key.clone(), v.what.clone()];
                match v.confirm {
                    None => {}
                    Some((i, Confirm::Values(n))) => {
                        p.push(i.to_string());
                        p.push("values".into());
                        p.extend(n);
                    }
                    Some((i, Confirm::Reported(k))) => {
                        p.push(i.to_string());
                        p.push("reported".into());
                        p.push(k.to_string());
                    }
                }
                w.f(b'V', &p.iter().map(|s| &s[..]).collect::<Vec<_>>());
            }
            if want_text {
                for o in &outs {
                    let e: Vec<&str> = o.errors.iter().map(|e| &e.message[..]).collect();
                    w.f(b'T', &[&[&o.source[..], o.text.as_deref().unwrap_or("")], &e[..]].concat());
                }
            }
        }
    }
    w.f(b'.', &[]);
    w.0
}

pub fn run(decls: crate::server::Decls, case: &Case, want_text: bool) -> Report {
    let mut last = Report::default();
    for attempt in 0..3 {
        last = run_once(decls, case, want_text, 60 << attempt);
        if last.infra.is_none() {
            break;
        }
    }
    last
}

fn run_once(decls: crate::server::Decls, case: &Case, want_text: bool, wall_s: u64) -> Report {
    let mut r = Report::default();
    let all = match forked(&Limits { wall_s, ..Limits::default() }, || work(decls, case, want_text)) {
        Ok(all) => all,
        Err(Ended::Infra(e)) => {
            r.infra = Some(e);
            return r;
        }
        Err(e) => {
            r.verdict = Some(Verdict { key: "crash".into(), what: format!("the macro {}", e.text()), confirm: None });
            return r;
        }
    };
    let Some((fields, _)) = parse(&all) else {
        r.infra = Some("unreadable report".into());
        return r;
    };
    for (t, v) in fields {
        match t {
            b'C' => {
                r.counts.insert(v[0].clone(), v[1].parse().unwrap_or(0));
            }
            b'D' => r.digest = v[0].parse().unwrap_or(0),
            b'E' => r.infra = Some(v[0].clone()),
            b'V' => {
                let confirm = v.get(2).and_then(|i| {
                    let i = i.parse().ok()?;
                    Some((i, if v[3] == "values" { Confirm::Values(v[4..].to_vec()) } else { Confirm::Reported(v[4].parse().ok()?) }))
                });
                r.verdict = Some(Verdict { key: v[0].clone(), what: v[1].clone(), confirm });
            }
            b'T' => r.outs.push(Out {
                panic: None,
                exact: String::new(),
                diags: vec![],
                items: Default::default(),
                errors: v[2..].iter().map(|m| ErrorMsg { message: m.clone(), points: vec![] }).collect(),
                source: v[0].clone(),
                text: if v[1].is_empty() { None } else { Some(v[1].clone()) },
                oddities: vec![],
                requests: 0,
            }),
            _ => {}
        }
    }
    r
}
