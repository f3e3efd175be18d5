//! Generates the unit systems the simulation runs on, by seed, and lists what is to be probed in them.
use std::collections::BTreeMap;
use std::fmt::Write;
use sysgen::reference::{meaning, Dims, Kind};
use sysgen::{gen, Body, Expr, Stmt, System};

fn add_dimensions(rng: &mut simcore::Rng, s: &mut System, n: usize) {
    let bases: Vec<String> = s
        .stmts
        .iter()
        .filter_map(|t| match &t.body {
            Body::Dimension { name, rhs: None } => Some(name.clone()),
            _ => None,
        })
        .collect();
    let one = Expr::one(sysgen::Factor::Atom(sysgen::Atom::Num("1".into())));
    s.stmts.push(Stmt::new(Body::Dimension { name: "RtNone".into(), rhs: Some(one.clone()) }));
    for i in 0..n {
        let mut e = one.clone();
        let factors = if rng.chance(0.15) { rng.range(5, 12) } else { rng.range(1, 3) };
        for _ in 0..factors {
            let b = sysgen::Atom::Ref(rng.pick(&bases).clone());
            let k = if s.rational && rng.chance(0.6) {
                let (n, d) = if rng.chance(0.1) { (300, 200) } else { (7, 9) };
                sysgen::reference::norm((rng.range(1, n) * if rng.chance(0.5) { 1 } else { -1 }, rng.range(2, d)))
            } else {
                (*rng.pick(&[1, 2, 3, -1, -2, -3, 5, -7, 12, 10, -16, 130, -260, 70_000]), 1)
            };
            e = e.mul(sysgen::Factor::Pow(b, k));
        }
        s.stmts.push(Stmt::new(Body::Dimension { name: format!("RtExtra{i}"), rhs: Some(e) }));
    }
}

/// Several units of the same dimensions, of magnitude one, nearly one and others.
fn add_units(rng: &mut simcore::Rng, s: &mut System) {
    let mut names = gen::Names::of(s);
    let m = meaning(s);
    let base_units: BTreeMap<String, String> =
        s.stmts.iter().filter_map(|t| Some((sysgen::reference::snake(t.base()?), t.name()?.to_string()))).collect();
    let described: Vec<(String, Dims)> = s
        .stmts
        .iter()
        .filter_map(|t| match &t.body {
            Body::Dimension { name, .. } => Some((name.clone(), m.values.get(name)?.dims.clone())),
            _ => None,
        })
        .filter(|(_, d)| !d.is_empty() && d.iter().all(|(b, _)| base_units.contains_key(b)))
        .collect();
    // Every system has a probed dimension whose units are all nearly, but not, of magnitude one; one where a unit
    // of magnitude one is among others; one with a negative unit only; and, further, what comes.
    const PLANNED: [&[&str]; 3] = [
        &["1.0000000001", "0.9999999999", "1.0000000000000002", "1.000001"],
        &["1.0000000001", "1", "0.9999999999999999", "1"],
        &["-1"],
    ];
    const FACTORS: [&str; 12] =
        ["1", "1", "1", "1", "1.0", "1.0000000001", "0.9999999999", "1.000001", "1.0000000000000002", "0.9999999999999999", "-1", "1e-3"];
    let (mut extra, mut dims): (Vec<_>, Vec<_>) = described.into_iter().partition(|(n, _)| n.starts_with("RtExtra"));
    rng.shuffle(&mut extra);
    rng.shuffle(&mut dims);
    let (mut plan, mut seen): (Vec<(Dims, &str)>, Vec<Dims>) = (vec![], vec![]);
    let mut planned = PLANNED.iter();
    for (_, d) in extra.iter().chain(dims.iter().take(3)) {
        if seen.contains(d) {
            continue;
        }
        seen.push(d.clone());
        match planned.next() {
            Some(p) => plan.extend(p.iter().map(|f| (d.clone(), *f))),
            None => plan.extend((0..rng.range(1, 4)).map(|_| (d.clone(), *rng.pick(&FACTORS)))),
        }
    }
    rng.shuffle(&mut plan);
    let mut new = vec![];
    for (d, f) in &plan {
        let mut e = Expr::one(sysgen::Factor::Atom(sysgen::Atom::Num(f.to_string())));
        for (b, k) in d {
            let a = sysgen::Atom::Ref(base_units[b].clone());
            e = e.mul(if *k == (1, 1) { sysgen::Factor::Atom(a) } else { sysgen::Factor::Pow(a, *k) });
        }
        let attrs = vec![sysgen::Attr::Symbol(names.symbol(rng))];
        new.push(Stmt { attrs, body: Body::Unit { name: names.unit(rng), annotation: None, rhs: Some(e) } });
    }
    for t in new {
        let at = rng.below(s.stmts.len() + 1);
        s.stmts.insert(at, t);
    }
}

fn big(s: &System) -> bool {
    let count = |f: fn(&Stmt) -> bool| s.stmts.iter().filter(|t| f(t)).count();
    count(|t| matches!(t.body, Body::Dimension { rhs: None, .. })) >= 9 && count(|t| matches!(t.body, Body::Unit { .. })) >= 16
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=RTSIM_SEED");
    println!("cargo:rerun-if-changed=/repo/src/si.rs");
    let seed: u64 = std::env::var("RTSIM_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let rational = std::env::var("CARGO_FEATURE_RATIONAL").is_ok();
    let out = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let mut code = String::new();
    let mut reg = String::new();
    let mut table: Vec<(String, String, bool)> = vec![];
    let si = std::fs::read_to_string("/repo/src/si.rs").ok();
    let si = si.as_deref().and_then(sysgen::parse::invocation).and_then(|t| sysgen::parse::system(t, rational));
    let mut systems: Vec<(String, System)> = vec![];
    if let Some(s) = si {
        systems.push(("si".into(), s));
    }
    for i in 0..4u64 {
        let mut rng = simcore::Rng::derive(seed, if rational { "rtsim-rational" } else { "rtsim-int" }, i);
        let p = gen::Params {
            rational,
            max_bases: [2, 4, 12, 3][i as usize],
            max_dims: 5,
            max_units: [10, 16, 24, 10][i as usize],
            max_consts: 2,
            custom_types: i == 1,
            extreme: false,
            all_base_units: i != 3,
            chain: 0,
        };
        // The third has many base dimensions and units; the others, what comes.
        let mut s = std::iter::repeat_with(|| gen::system(&mut rng, &p)).find(|s| i != 2 || big(s)).unwrap();
        add_dimensions(&mut rng, &mut s, 4);
        add_units(&mut rng, &mut s);
        systems.push((format!("s{i}"), s));
    }
    for (k, (name, s)) in systems.iter().enumerate() {
        let (mut q, mut d) = ("Quantity".to_string(), "Dimension".to_string());
        for t in &s.stmts {
            match &t.body {
                Body::QuantityType(n) => q = n.clone(),
                Body::DimensionType(n) => d = n.clone(),
                _ => {}
            }
        }
        if name == "si" {
            writeln!(code, "pub use diman::si;").unwrap();
        } else {
            writeln!(code, "pub mod {name} {{ diman::unit_system! {{\n{}\n}} }}", s.text()).unwrap();
        }
        writeln!(code, "quant_impls!({name}, {q}, {d});").unwrap();
        table.push((name.clone(), s.text(), rational));
        let m = meaning(s);
        // One name per dimension; the more interesting ones first.
        let mut by: BTreeMap<String, (String, Dims)> = BTreeMap::new();
        for t in &s.stmts {
            if let Body::Dimension { name: n, .. } = &t.body {
                let Some(v) = m.values.get(n).filter(|v| v.kind == Kind::Dimension) else { continue };
                by.entry(format!("{:?}", v.dims)).or_insert((n.clone(), v.dims.clone()));
            }
        }
        let mut all: Vec<(String, Dims)> = by.into_values().collect();
        let mut rng = simcore::Rng::derive(seed, "rtsim-dims", k as u64);
        rng.shuffle(&mut all);
        all.sort_by_key(|(n, d)| if d.is_empty() { 0 } else { 1 + !n.starts_with("RtExtra") as u32 * (d.len() == 1) as u32 });
        all.truncate(9);
        for (j, (n, _)) in all.iter().enumerate() {
            let st: &[&str] = match j {
                0 | 1 => &["f64", "f32", "glam::Vec2", "glam::DVec2", "glam::Vec3", "glam::DVec3"],
                2 => &["f64", "f32", "glam::DVec2", "glam::Vec3"],
                3 => &["f64", "f32", "glam::Vec2"],
                4 | 5 => &["f64", "f32"],
                _ => &["f64"],
            };
            for s in st {
                let r = if *s == "f64" || *s == "f32" { "add_rand" } else { "add" };
                writeln!(reg, "    r.{r}::<{name}::dimensions::{n}<{s}>>({k}, \"{n}\");").unwrap();
            }
            if j < 3 {
                writeln!(reg, "    r.add_weird::<{name}::dimensions::{n}<crate::weird::Weird>>({k}, \"{n}\", |w| {name}::dimensions::{n}::<crate::weird::Weird>::new_unchecked(w));").unwrap();
            }
        }
    }
    writeln!(code, "pub fn register(r: &mut crate::probe::Registry) {{\n{reg}}}").unwrap();
    writeln!(code, "pub const SYSTEMS: &[(&str, &str, bool)] = &{table:?};").unwrap();
    writeln!(code, "pub const SEED: u64 = {seed};").unwrap();
    std::fs::write(out.join("systems.rs"), code).unwrap();

    println!("cargo:rerun-if-changed=src/access.c");
    let run = |c: &mut std::process::Command| assert!(c.status().expect("a C compiler").success(), "{c:?}");
    let o = out.join("access.o");
    run(std::process::Command::new("cc").args(["-O2", "-c", "-fPIC", "-w", "-o"]).arg(&o).arg("src/access.c"));
    println!("cargo:rustc-link-arg={}", o.display());
}
