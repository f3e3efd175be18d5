//! Seeded search over histories: who does what, with which faults.
use crate::case::{Case, Schedule};
use crate::info::{infos, probe, Probe};
use crate::ops::{registry, FilePlan, Fm, Loc, Op, Step, HOWS};
use crate::probe::SPECS;
use crate::seams::{Errno, IoPlan};
use crate::tlv::Content;
use crate::val::{Storage, Val};
use crate::weird::Weird;
use simcore::Rng;

pub fn generate(property: &str, rng: &mut Rng) -> Case {
    match property {
        "C05" => c05(rng),
        "C06" => inline(property, rng, 14, text_step),
        "C07" => inline(property, rng, 16, fmt_step),
        "C08" => inline(property, rng, 10, rand_step),
        "C11" => c11(rng),
        p => panic!("no generator for {p}"),
    }
}
fn below_one_of(rng: &mut Rng, xs: &[usize]) -> usize {
    let n = *rng.pick(xs);
    rng.below(n)
}
fn inline(property: &str, rng: &mut Rng, max: i64, f: fn(&mut Rng) -> Step) -> Case {
    let n = rng.range(1, max);
    Case {
        property: property.into(),
        tasks: vec![(0..n).map(|_| f(rng)).collect()],
        pipes: vec![],
        files: vec![],
        schedule: Schedule::Inline,
    }
}
/// Names of quantities; sticks to few of them at a time, so that the same ones meet again.
fn any_table(rng: &mut Rng, complete: bool) -> String {
    let r = registry();
    loop {
        let t = rng.pick(&r.tables);
        if !complete || infos()[t.system].complete {
            return t.name.clone();
        }
    }
}
fn other_dimension(rng: &mut Rng, name: &str) -> Option<String> {
    let p = probe(name);
    let c: Vec<&String> = registry().tables.iter().map(|t| &t.name).filter(|n| {
        let q = probe(n);
        std::ptr::eq(q.system, p.system) && q.st == p.st && q.dims != p.dims
    }).collect();
    (!c.is_empty()).then(|| rng.pick(&c).to_string())
}
fn format(rng: &mut Rng) -> Fm {
    match rng.below(8) {
        0 | 1 => Fm::Json,
        2 => Fm::JsonPretty,
        3..=5 => Fm::Yaml,
        _ => Fm::Tlv(rng.below(8) as u8),
    }
}
fn plan(rng: &mut Rng, soft: bool) -> IoPlan {
    let mut p = IoPlan { seed: rng.next() >> 1, buffered: rng.chance(0.3), ..Default::default() };
    if soft {
        if rng.chance(0.6) {
            p.chunk = *rng.pick(&[1, 2, 3, 7, 16, 64]);
        }
        if rng.chance(0.4) {
            p.eintr = *rng.pick(&[2, 20, 60]);
        }
        if rng.chance(0.3) {
            p.delay = *rng.pick(&[1, 10, 1000]);
        }
    }
    p
}
fn items(rng: &mut Rng, max: i64) -> Vec<(String, Val)> {
    let n = rng.range(1, max);
    let same = rng.chance(0.3).then(|| any_table(rng, true));
    (0..n)
        .map(|_| {
            let t = same.clone().unwrap_or_else(|| any_table(rng, true));
            let v = Val::random(rng, probe(&t).st);
            (t, v)
        })
        .collect()
}

fn c05(rng: &mut Rng) -> Case {
    let pairs = rng.range(1, 4);
    let mut tasks = vec![];
    let (mut pipes, mut files) = (vec![], vec![]);
    let faulty = rng.chance(0.4);
    let soft = rng.chance(0.85);
    for _ in 0..pairs {
        let fm = format(rng);
        let text = rng.chance(0.12);
        let it = items(rng, if text { 1 } else { 6 });
        let mut targets: Vec<String> = it.iter().map(|i| i.0.clone()).collect();
        if rng.chance(0.35) {
            let k = targets.len() - 1;
            if let Some(o) = other_dimension(rng, &targets[k]) {
                targets[k] = o;
            }
        } else if rng.chance(0.1) {
            targets.push(any_table(rng, true));
        }
        let mut wio = plan(rng, soft);
        let mut rio = plan(rng, soft);
        let rfm = match fm {
            Fm::Tlv(_) => Fm::Tlv(rng.below(8) as u8),
            f => f,
        };
        let mut wpanic = None;
        let mut rpanic = None;
        let mut crash = None;
        if faulty && rng.chance(0.6) {
            let at = rng.below(40 * it.len()) as u64;
            match rng.below(7) {
                0 | 1 => wio.fail = Some((at, *rng.pick(&[Errno::Eio, Errno::Enospc, Errno::Epipe, Errno::Zero]))),
                2 => wio.flush_fails = true,
                3 => rio.fail = Some((at, *rng.pick(&[Errno::Eio, Errno::Eof]))),
                4 => wpanic = Some(rng.below(12) as u64),
                5 => rpanic = Some(rng.below(20) as u64),
                _ => crash = Some(at),
            }
        }
        let kind = if text { 3 } else if crash.is_some() { 1 } else { rng.below(3) };
        match kind {
            0 => {
                pipes.push(*rng.pick(&[1usize, 2, 5, 16, 64, 4096]));
                let at = Loc::Pipe(pipes.len() - 1);
                let w = Step { op: Op::Ser { items: it, fm, io: wio, to: at.clone() }, panic_at: wpanic, nested: vec![] };
                let r = Step { op: Op::De { targets, fm: rfm, io: rio, from: at, bytes: vec![] }, panic_at: rpanic, nested: vec![] };
                if rng.chance(0.5) {
                    tasks.push(vec![w]);
                    tasks.push(vec![r]);
                } else {
                    tasks.push(vec![r]);
                    tasks.push(vec![w]);
                }
            }
            1 | 2 => {
                let (to, from) = if kind == 1 {
                    files.push(FilePlan { crash_at: crash });
                    (Loc::File(files.len() - 1), Loc::File(files.len() - 1))
                } else {
                    (Loc::Own, Loc::Last)
                };
                // An abandoned write leaves what came before in Last.
                let wpanic = wpanic.filter(|_| kind == 1);
                let w = Step { op: Op::Ser { items: it, fm, io: wio, to }, panic_at: wpanic, nested: vec![] };
                let r = Step { op: Op::De { targets, fm: rfm, io: rio, from, bytes: vec![] }, panic_at: rpanic, nested: vec![] };
                tasks.push(vec![w, r]);
            }
            _ => {
                targets.truncate(1);
                let w = Step::new(Op::Ser { items: it, fm, io: IoPlan::default(), to: Loc::Text });
                let r = Step::new(Op::De { targets, fm, io: IoPlan::default(), from: Loc::LastText, bytes: vec![] });
                tasks.push(vec![w, r]);
            }
        }
    }
    Case { property: "C05".into(), tasks, pipes, files, schedule: schedule(rng) }
}
fn schedule(rng: &mut Rng) -> Schedule {
    Schedule::Random { seed: rng.next() >> 1, p: *rng.pick(&[0.02, 0.1, 0.3, 0.5, 0.9]) }
}

// C06

fn number_text(rng: &mut Rng, st: Storage) -> String {
    let v = Val::random(rng, if st.single() { Storage::F32 } else { Storage::F64 });
    let x = v.f64(0);
    if rng.chance(0.04) {
        // Right between two numbers of the type, or a little off: rounding twice shows.
        let (mid, off) = (f64::from_bits(((1023 + rng.range(-8, 30)) as u64) << 52 | ((rng.next() >> 41) << 29 | 1 << 28)), rng.below(4));
        let mut t = format!("{}{mid:.60}", rng.pick(&["", "-"]));
        if off == 0 {
            t.push('1');
        }
        return if off == 1 { format!("{mid}") } else { t };
    }
    match rng.below(14) {
        0 => format!("{}", rng.range(-50, 50)),
        1 => format!("{:e}", x),
        2 => format!("{:.3}", rng.unit() * 100.0),
        3 => rng.pick(&["0", "-0", "0.0", "1", "inf", "-inf", "NaN", "1e3", "1E-3", "-2.5e10", "0.1", "100000000000000000000000"]).to_string(),
        4 => rng.pick(&["+1", ".5", "5.", "infinity", "nan", "-nan", "1_000", "0x10", "1,5", "1e", "--1", "1e400", "1e-400", "e5", "٣", "1f64", "+inf", "INF", "1.2.3", "1e+5", "true", "null"]).to_string(),
        5 => format!("{}.{}", rng.range(0, 99999999), rng.range(0, 99999999)),
        6..=8 => {
            if st.single() {
                format!("{}", x as f32)
            } else {
                format!("{x}")
            }
        }
        _ => format!("{}", (rng.range(-1000000, 1000000) as f64) / 1000.0),
    }
}
fn exponent(rng: &mut Rng, p: &Probe) -> (i64, i64) {
    if p.system.rational && rng.chance(0.3) {
        let d = if rng.chance(0.1) { 40 } else { 4 };
        sysgen::reference::norm((rng.range(-5, 5), rng.range(1, d)))
    } else if rng.chance(0.03) {
        (*rng.pick(&[10, 12, -16, 100, 127, 128, -129, 255, 300, -999]), 1)
    } else {
        (*rng.pick(&[1, 1, 1, 2, -1, -2, 3, -3, 4, 0]), 1)
    }
}
fn token(rng: &mut Rng, sym: &str, e: (i64, i64)) -> String {
    if e == (1, 1) && rng.chance(0.9) {
        sym.into()
    } else if e.1 == 1 {
        format!("{sym}^{}", e.0)
    } else {
        format!("{sym}^{}/{}", e.0, e.1)
    }
}
/// Unit symbols of the dimension of `p`, if the generator finds a way.
fn unit_text(rng: &mut Rng, p: &Probe, right: bool) -> Option<Vec<String>> {
    let syms: Vec<&String> = p.system.symbols.keys().collect();
    if syms.is_empty() {
        return if p.dims.is_empty() { Some(vec![]) } else { None };
    }
    let mut toks = vec![];
    let mut dims = sysgen::reference::Dims::new();
    let add = |rng: &mut Rng, toks: &mut Vec<String>, dims: &mut sysgen::reference::Dims, s: &str, e: (i64, i64)| {
        *dims = sysgen::reference::dmul(dims, &sysgen::reference::dpow(&p.system.symbols[s].dims, e), 1);
        toks.push(token(rng, s, e));
    };
    let direct: Vec<&String> = p.system.symbols.iter().filter(|(_, s)| s.dims == *p.dims).map(|s| s.0).collect();
    if !direct.is_empty() && rng.chance(0.35) {
        let s = rng.pick(&direct).to_string();
        add(rng, &mut toks, &mut dims, &s, (1, 1));
    } else {
        for _ in 0..*rng.pick(&[0, 0, 1, 1, 2, 3]) {
            let s = rng.pick(&syms).to_string();
            let e = exponent(rng, p);
            add(rng, &mut toks, &mut dims, &s, e);
        }
        if right {
            let need = sysgen::reference::dmul(p.dims, &dims, -1);
            for (k, e) in need {
                // A unit of this base dimension, not always the base unit.
                let c: Vec<&String> = p.system.symbols.iter().filter(|(_, s)| s.dims.len() == 1 && s.dims.get(&k) == Some(&(1, 1))).map(|s| s.0).collect();
                if c.is_empty() {
                    return None;
                }
                let s = rng.pick(&c).to_string();
                add(rng, &mut toks, &mut dims, &s, e);
            }
        }
    }
    if rng.chance(0.06) {
        // Unusual exponents: in pairs that cancel, or as they come.
        let one = rng.pick(&syms).to_string();
        let cancel = rng.chance(0.6);
        for _ in 0..rng.range(1, 4) {
            let s = if rng.chance(0.7) { one.clone() } else { rng.pick(&syms).to_string() };
            let e = big_exponent(rng, p.system.rational);
            toks.push(token(rng, &s, e));
            if cancel {
                toks.push(token(rng, &s, (-e.0, e.1)));
            }
        }
    }
    rng.shuffle(&mut toks);
    Some(toks)
}
/// Large, and without common factors.
fn big_exponent(rng: &mut Rng, rational: bool) -> (i64, i64) {
    const PRIMES: [i64; 12] =
        [7, 97, 991, 997, 46_337, 46_349, 65_537, 1_000_003, 16_777_213, 2_147_483_587, 2_147_483_629, 2_147_483_647];
    let n = match rng.below(4) {
        0 => 1,
        1 => *rng.pick(&PRIMES),
        2 => rng.range(1, 100_000),
        _ => *rng.pick(&[1 << 15, 1 << 16, 1 << 20, 1 << 29, 1 << 30, i32::MAX as i64 - 1]),
    };
    let d = if rational && rng.chance(0.7) { *rng.pick(&PRIMES) } else { 1 };
    (if rng.chance(0.5) { n } else { -n }, d)
}
fn quantity_text(rng: &mut Rng, p: &Probe) -> String {
    let right = rng.chance(0.85);
    let units = unit_text(rng, p, right).unwrap_or_default();
    let sep = |rng: &mut Rng| if rng.chance(0.93) { " ".to_string() } else { rng.pick(&["  ", "\t", " \t ", "\n", "\u{a0}", "\u{3000}"]).to_string() };
    let n = p.st.len();
    let mut t = if n == 1 {
        number_text(rng, p.st)
    } else {
        let k = if rng.chance(0.93) { n } else { rng.range(0, 4) as usize };
        let xs: Vec<String> = (0..k).map(|_| number_text(rng, p.st)).collect();
        let s = sep(rng);
        let (a, b) = if rng.chance(0.9) { ("(", ")") } else { *rng.pick(&[("( ", " )"), ("[", "]"), ("((", "))"), ("x(", ")"), ("(", ""), ("", ")"), ("", ""), ("1 (", ")")]) };
        format!("{a}{}{b}", xs.join(&s))
    };
    for u in units {
        t += &sep(rng);
        t += &u;
    }
    if rng.chance(0.05) {
        t = format!(" {t} ");
    }
    if rng.chance(0.25) {
        t = damage_text(rng, t, p);
    }
    t
}
fn damage_text(rng: &mut Rng, t: String, p: &Probe) -> String {
    let chars: Vec<char> = t.chars().collect();
    if chars.is_empty() {
        return rng.pick(&["", " ", "m", "^", "()"]).to_string();
    }
    let i = rng.below(chars.len());
    let cut = |a: usize, b: usize| -> String { chars[a..b].iter().collect() };
    match rng.below(12) {
        0 => cut(0, i),
        1 => cut(i, chars.len()),
        2 => cut(0, i) + &cut((i + 1).min(chars.len()), chars.len()),
        3 => cut(0, i) + rng.pick(&["^", "^2", "^-", "/", " ", "(", ")", "1", "-", "*", "·", "^^", "e", ".", "^1/2", "^1/0", "\0"]).to_string().as_str() + &cut(i, chars.len()),
        4 => format!("{t} {}", cut(i, chars.len())),
        5 => format!("{t}{t}"),
        6 => t.replacen(' ', "", 1),
        7 => format!("{t}^{}", rng.pick(&["2", "-1", "0", "1/2", "99999999999", "-2147483648", "2147483648", "1/3", "9223372036854775807", "2.0", "+2", "02", ""])),
        8 => {
            let syms: Vec<&String> = p.system.symbols.keys().collect();
            if syms.is_empty() {
                t
            } else {
                format!("{t} {}^{}", rng.pick(&syms), rng.pick(&["0", "100", "-100", "2147483647", "4000000000"]))
            }
        }
        9 => {
            let mut c = chars.clone();
            c.swap(i, rng.below(chars.len()));
            c.into_iter().collect()
        }
        10 => t.to_uppercase(),
        _ => {
            let mut c = chars.clone();
            c[i] = *rng.pick(&['0', '1', '9', ' ', 'm', 's', 'k', '^', '-', '/', '(', ')', ',', 'é', '\u{0}']);
            c.into_iter().collect()
        }
    }
}
/// Symbols by other names: what other users of a system might write.
fn embed(rng: &mut Rng, fm: Fm, text: &str, out: &mut Vec<u8>) {
    match fm {
        Fm::Json | Fm::JsonPretty => {
            if rng.chance(0.06) {
                out.extend(text.as_bytes());
            } else if rng.chance(0.1) {
                out.push(b'"');
                for c in text.encode_utf16() {
                    out.extend(format!("\\u{c:04x}").bytes());
                }
                out.push(b'"');
            } else {
                out.extend(serde_json::to_string(text).unwrap().bytes());
            }
            out.extend(rng.pick(&["\n", "", " ", "\r\n", "\t\n"]).bytes());
        }
        Fm::Yaml => {
            out.extend(b"---");
            let plain = !text.is_empty() && text.chars().all(|c| c.is_alphanumeric() || " ^-./()".contains(c)) && text.trim() == text;
            match rng.below(5) {
                0 | 1 if plain => out.extend(format!("\n{text}\n").bytes()),
                2 if plain => out.extend(format!(" {text}\n").bytes()),
                3 if plain => out.extend(format!(" '{text}'\n").bytes()),
                _ => out.extend(format!("\n{}", serde_yaml::to_string(text).unwrap()).bytes()),
            }
        }
        Fm::Tlv(_) => match rng.below(20) {
            0 => Content::Some(Box::new(Content::Str(text.into()))).put(out),
            1 => Content::Bytes(text.bytes().collect()).put(out),
            2 => Content::Seq(vec![Content::Str(text.into())]).put(out),
            3 => Content::Map(vec![(Content::Str("v".into()), Content::Str(text.into()))]).put(out),
            4 => Content::Char(text.chars().next().unwrap_or('1')).put(out),
            5 => rng.pick(&[Content::Unit, Content::None, Content::Bool(true)]).put(out),
            _ => Content::Str(text.into()).put(out),
        },
    }
}
fn number_content(rng: &mut Rng) -> Content {
    match rng.below(4) {
        0 => Content::I(*rng.pick(&[0, 1, -1, i64::MIN, i64::MAX, 16777217, -9007199254740993])),
        1 => Content::U(*rng.pick(&[0, 1, u64::MAX, 9007199254740993, 16777217])),
        2 => Content::D(Val::random(rng, Storage::F64).raw(0)),
        _ => Content::F(Val::random(rng, Storage::F32).f32(0)),
    }
}
fn damage_bytes(rng: &mut Rng, mut b: Vec<u8>) -> Vec<u8> {
    if b.is_empty() {
        return b;
    }
    for _ in 0..rng.range(1, 3) {
        let n = b.len();
        if n == 0 {
            break;
        }
        let i = rng.below(n);
        let j = i + rng.below((n - i).min(12) + 1);
        match rng.below(7) {
            0 => b.truncate(i),
            1 => {
                b[i] ^= 1 << rng.below(8);
            }
            2 => {
                b.drain(i..j);
            }
            3 => {
                let seg = b[i..j].to_vec();
                b.splice(i..i, seg);
            }
            4 => {
                let seg = b[i..j].to_vec();
                let k = rng.below(b.len());
                b.splice(k..k, seg);
            }
            5 => b[i] = *rng.pick(b"0123456789 ^-/()\"\\mske.\n:#'[]{}"),
            _ => {
                for x in &mut b[i..j] {
                    *x = 0;
                }
            }
        }
    }
    b
}
fn text_step(rng: &mut Rng) -> Step {
    let fm = format(rng);
    let from = if rng.chance(0.15) { Loc::Text } else { Loc::Own };
    let n = if from == Loc::Text { 1 } else { rng.range(1, 4) };
    let mut targets = vec![];
    let mut bytes = vec![];
    for _ in 0..n {
        let t = any_table(rng, false);
        let p = probe(&t);
        if rng.chance(0.08) {
            match fm {
                Fm::Tlv(_) if from == Loc::Own => number_content(rng).put(&mut bytes),
                _ => {
                    if fm == Fm::Yaml {
                        bytes.extend(b"--- ");
                    }
                    bytes.extend(number_text(rng, p.st).bytes());
                    bytes.push(b'\n');
                }
            }
        } else {
            let text = quantity_text(rng, &p);
            let f = match fm {
                Fm::Tlv(_) if from == Loc::Text => Fm::Json,
                f => f,
            };
            embed(rng, f, &text, &mut bytes);
        }
        targets.push(t);
    }
    if rng.chance(0.35) {
        bytes = damage_bytes(rng, bytes);
    }
    let soft = rng.chance(0.5);
    let mut io = plan(rng, soft);
    if rng.chance(0.2) && from == Loc::Own {
        io.fail = Some((rng.below(bytes.len() + 2) as u64, *rng.pick(&[Errno::Eio, Errno::Eof])));
    }
    Step::new(Op::De { targets, fm, io, from, bytes })
}

// C07

fn room(rng: &mut Rng) -> Option<usize> {
    rng.chance(0.45).then(|| below_one_of(rng, &[4, 12, 30, 60]))
}
fn weird(rng: &mut Rng) -> Weird {
    let n = rng.below(4);
    let pieces: Vec<String> = (0..n).map(|_| rng.pick(&["", "1", "-2.5", " ", "é", "{}", "12345678901234567890", "m s", "\n", "π≈3"]).to_string()).collect();
    let mut w = Weird { pieces, pad: rng.chance(0.3), fail_at: None, panic_at: None };
    if rng.chance(0.15) {
        w.fail_at = Some(rng.below(n + 1));
    } else if rng.chance(0.12) {
        w.panic_at = Some(rng.below(n + 1));
    }
    w
}
fn fmt_step(rng: &mut Rng) -> Step {
    let spec = if rng.chance(0.4) { 0 } else { rng.below(SPECS.len()) };
    if rng.chance(0.15) {
        let probe = rng.pick(&registry().weird).name.clone();
        let w = weird(rng);
        return Step::new(Op::WeirdFmt { probe, w, spec, room: room(rng), torn: rng.chance(0.5) });
    }
    let t = any_table(rng, false);
    let val = Val::random(rng, probe(&t).st);
    Step::new(Op::Fmt { probe: t, val, spec, room: room(rng), torn: rng.chance(0.5) })
}

// C08

/// The bare samplers of rand look for their scale one step at a time; this takes for ever for bounds that are too close.
fn too_close(a: &Val, b: &Val) -> bool {
    let (x, y) = (a.f64(0), b.f64(0));
    let ulp = |m: f64| {
        if a.st.single() {
            let m = m as f32;
            (m - f32::from_bits(m.to_bits() - 1)) as f64
        } else {
            m - f64::from_bits(m.to_bits() - 1)
        }
    };
    let m = x.abs().max(y.abs());
    y > x && m.is_finite() && y - x < ulp(m) * if a.st.single() { 64.0 } else { (1u64 << 33) as f64 }
}
fn rand_step(rng: &mut Rng) -> Step {
    loop {
        let s = any_rand_step(rng);
        if matches!(&s.op, Op::Rand { lo, hi, .. } if !too_close(lo, hi)) {
            return s;
        }
    }
}
fn any_rand_step(rng: &mut Rng) -> Step {
    let t = loop {
        let t = rng.pick(&registry().tables);
        if t.rand.is_some() {
            break t;
        }
    };
    let st = t.st;
    let (a, b) = match rng.below(10) {
        0 => (Val::random(rng, st), Val::random(rng, st)),
        1 => {
            let a = Val::random(rng, st);
            (a, a)
        }
        2 => {
            // Neighbours.
            let a = Val::random(rng, st);
            let mut b = a;
            b.bits[0] = b.bits[0].wrapping_add(if rng.chance(0.3) { 0 } else { 1 << rng.range(if st.single() { 6 } else { 33 }, if st.single() { 20 } else { 50 }) });
            (a, b)
        }
        3 => (Val::new(st, &[-1.0]), Val::new(st, &[if st.single() { f32::MAX as f64 } else { f64::MAX }])),
        4 => {
            let m = if st.single() { f32::MAX as f64 } else { f64::MAX };
            (Val::new(st, &[-m]), Val::new(st, &[m]))
        }
        _ => {
            let x = rng.range(-1000, 1000) as f64 / 8.0;
            (Val::new(st, &[x]), Val::new(st, &[x + rng.unit() * *rng.pick(&[1e-9, 1.0, 1e3, 1e15])]))
        }
    };
    let (lo, hi) = if rng.chance(0.06) { (b, a) } else { (a, b) };
    let n = rng.range(1, 8) as u32;
    Step::new(Op::Rand {
        probe: t.name.clone(),
        lo,
        hi,
        how: *rng.pick(&HOWS),
        n,
        seed: rng.next() >> 1,
        // All ones may make the bare sampler draw again for ever.
        style: *rng.pick(&[0, 0, 0, 1, 3, 3]),
        fail_at: rng.chance(0.3).then(|| rng.below(n as usize + 1) as u64),
    })
}

// C11

fn own_step(rng: &mut Rng) -> Step {
    match rng.below(10) {
        0..=2 => fmt_step(rng),
        3 | 4 => {
            let fm = format(rng);
            let soft = rng.chance(0.7);
            let mut io = plan(rng, soft);
            if rng.chance(0.15) {
                io.fail = Some((rng.below(60) as u64, *rng.pick(&[Errno::Eio, Errno::Enospc, Errno::Zero])));
            }
            let text = rng.chance(0.15);
            let items = items(rng, 4);
            Step::new(Op::Ser { items, fm, io, to: if text { Loc::Text } else { Loc::Own } })
        }
        5 | 6 => text_step(rng),
        7 | 8 => rand_step(rng),
        _ => Step::new(Op::Conv { which: rng.below(crate::conv::KINDS as usize) as u32, x: crate::val::random_bits(rng, false) }),
    }
}
fn nest(rng: &mut Rng, s: &mut Step, depth: usize) {
    if depth == 0 || !rng.chance(0.35) {
        return;
    }
    for _ in 0..rng.range(1, 2) {
        let mut n = own_step(rng);
        nest(rng, &mut n, depth - 1);
        if rng.chance(0.2) {
            n.panic_at = Some(rng.below(6) as u64);
        }
        let at = below_one_of(rng, &[2, 6, 30]) as u64;
        if s.nested.iter().all(|x| x.0 != at) {
            s.nested.push((at, n));
        }
    }
}
fn c11(rng: &mut Rng) -> Case {
    if rng.chance(0.01) {
        return long_history(rng);
    }
    let n = *rng.pick(&[1, 2, 2, 3, 3, 4, 5]);
    // Often all do something alike: what they could share is then the same.
    let alike = rng.chance(0.5).then(|| {
        (0..2).map(|_| own_step(rng)).collect::<Vec<_>>()
    });
    let tasks = (0..n)
        .map(|_| {
            (0..rng.range(1, 4))
                .map(|_| {
                    let mut s = match &alike {
                        Some(a) if rng.chance(0.6) => {
                            let i = rng.below(a.len());
                            vary(rng, &a[i])
                        },
                        _ => own_step(rng),
                    };
                    nest(rng, &mut s, 2);
                    if rng.chance(0.2) {
                        s.panic_at = Some(below_one_of(rng, &[2, 6, 30]) as u64);
                    }
                    s
                })
                .collect()
        })
        .collect();
    Case { property: "C11".into(), tasks, pipes: vec![], files: vec![], schedule: schedule(rng) }
}
/// What one abandoned use leaves behind may show only after many.
fn long_history(rng: &mut Rng) -> Case {
    let a = own_step(rng);
    let n = *rng.pick(&[10, 40, 70, 140, 300]);
    let panics = rng.chance(0.7);
    let mut task: Vec<Step> = (0..n)
        .map(|_| {
            let mut s = if rng.chance(0.5) { a.clone() } else { vary(rng, &a) };
            if panics {
                s.panic_at = Some(below_one_of(rng, &[1, 2, 6]) as u64);
            }
            s
        })
        .collect();
    task.push(vary(rng, &a));
    for _ in 0..2 {
        task.push(own_step(rng));
    }
    Case { property: "C11".into(), tasks: vec![task], pipes: vec![], files: vec![], schedule: schedule(rng) }
}
/// The same kind of thing with other values.
fn vary(rng: &mut Rng, s: &Step) -> Step {
    let mut s = s.clone();
    if rng.chance(0.3) {
        return s;
    }
    match &mut s.op {
        Op::Fmt { probe: p, val, room: r, .. } => {
            if rng.chance(0.5) {
                if let Some(o) = other_dimension(rng, p) {
                    *p = o;
                }
            }
            *val = Val::random(rng, probe(p).st);
            *r = room(rng);
        }
        Op::WeirdFmt { w, .. } => *w = weird(rng),
        Op::Ser { items, .. } => {
            for (p, v) in items {
                *v = Val::random(rng, probe(p).st);
            }
        }
        Op::Rand { seed, fail_at, n, .. } => {
            *seed = rng.next() >> 1;
            *fail_at = rng.chance(0.3).then(|| rng.below(*n as usize + 1) as u64);
        }
        Op::Conv { x, .. } => *x = crate::val::random_bits(rng, false),
        Op::De { bytes, .. } => {
            if rng.chance(0.5) {
                *bytes = damage_bytes(rng, bytes.clone());
            }
        }
    }
    s
}
