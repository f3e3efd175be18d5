// Generates the unit systems whose quantities are sent, by seed.
use std::collections::BTreeMap;
use std::fmt::Write;
use sysgen::reference::{meaning, Dims, Kind};
use sysgen::{gen, Body, System};

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=RTSIM_SEED");
    println!("cargo:rerun-if-changed=/repo/src/si.rs");
    let seed: u64 = std::env::var("RTSIM_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let si = std::fs::read_to_string("/repo/src/si.rs").ok();
    let si = si.as_deref().and_then(sysgen::parse::invocation).and_then(|t| sysgen::parse::system(t, false));
    let mut systems: Vec<(String, System)> = vec![];
    if let Some(s) = si {
        systems.push(("si".into(), s));
    }
    for i in 0..2u64 {
        let mut rng = simcore::Rng::derive(seed, "mpisim", i);
        let p = gen::Params { rational: false, max_bases: 3, max_dims: 4, max_units: 4, max_consts: 1, custom_types: i == 1, extreme: false, all_base_units: true, chain: 0 };
        systems.push((format!("s{i}"), gen::system(&mut rng, &p)));
    }
    let (mut code, mut reg) = (String::new(), String::new());
    for (k, (name, s)) in systems.iter().enumerate() {
        let (mut q, mut d) = ("Quantity".to_string(), "Dimension".to_string());
        for t in &s.stmts {
            match &t.body {
                Body::QuantityType(n) => q = n.clone(),
                Body::DimensionType(n) => d = n.clone(),
                _ => {}
            }
        }
        if name == "si" {
            writeln!(code, "pub use diman::si;").unwrap();
        } else {
            writeln!(code, "pub mod {name} {{ diman::unit_system! {{\n{}\n}} }}", s.text()).unwrap();
        }
        writeln!(code, "elems!({name}, {q}, {d});").unwrap();
        let m = meaning(s);
        let mut by: BTreeMap<String, (String, Dims)> = BTreeMap::new();
        for t in &s.stmts {
            if let Body::Dimension { name: n, .. } = &t.body {
                let Some(v) = m.values.get(n).filter(|v| v.kind == Kind::Dimension) else { continue };
                by.entry(format!("{:?}", v.dims)).or_insert((n.clone(), v.dims.clone()));
            }
        }
        let mut all: Vec<(String, Dims)> = by.into_values().collect();
        let mut rng = simcore::Rng::derive(seed, "mpisim-dims", k as u64);
        rng.shuffle(&mut all);
        all.truncate(3);
        for (n, _) in &all {
            for (s, short) in [("f32", "f32"), ("f64", "f64"), ("glam::Vec2", "Vec2"), ("glam::DVec2", "DVec2"), ("glam::Vec3", "Vec3"), ("glam::DVec3", "DVec3")] {
                writeln!(reg, "    r.add::<{name}::dimensions::{n}<{s}>>(\"{name}/{n}/{short}\");").unwrap();
            }
        }
        // Structures of quantities, as users send them.
        let a = &all[0].0;
        let b = &all[all.len() - 1].0;
        writeln!(code, "pub mod {name}_particle {{ use super::{name}::dimensions::*; use crate::elem::particle; particle!({a}, {b}); }}").unwrap();
        writeln!(reg, "    r.add::<{name}_particle::Particle>(\"{name}/Particle\");").unwrap();
        if std::env::var("CARGO_PKG_NAME").as_deref() == Ok("hdfsim") {
            writeln!(reg, "    {name}_particle::register(r, \"{name}\");").unwrap();
        }
    }
    writeln!(code, "pub fn register(r: &mut crate::elem::Registry) {{\n{reg}}}").unwrap();
    writeln!(code, "pub const SEED: u64 = {seed};").unwrap();
    std::fs::write(out.join("systems.rs"), code).unwrap();

    println!("cargo:rerun-if-changed=../rtsim/src/access.c");
    let o = out.join("access.o");
    let ok = std::process::Command::new("cc").args(["-O2", "-c", "-fPIC", "-w", "-o"]).arg(&o).arg("../rtsim/src/access.c").status();
    assert!(ok.expect("a C compiler").success());
    println!("cargo:rustc-link-arg={}", o.display());
}
