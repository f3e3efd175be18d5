//! Simulates programs that keep quantities in HDF5 files: C10.
//!   hdfsim check     hdfsim replay <file>
#![feature(generic_const_exprs, adt_const_params)]
#![allow(incomplete_features, dead_code)]
#[path = "../../rtsim/src/access.rs"]
mod access;
mod case;
mod disk;
mod elem;
mod gen;
#[path = "../../rtsim/src/interpose.rs"]
mod interpose;
mod ops;
mod systems {
    #![allow(unused)]
    use crate::elem::{elems, particle};
    include!(concat!(env!("OUT_DIR"), "/systems.rs"));
}
use case::Case;
use simcore::{sched, Ctx, Json, Rng};
use simdrive::{Report, Sim};

struct Hdf;
impl Sim for Hdf {
    type Case = Case;
    const PROPERTY: &'static str = "C10";
    const PER: usize = 4;
    fn generate(&self, rng: &mut Rng) -> Case {
        gen::generate(rng)
    }
    fn execute(&self, c: &Case) -> Report {
        case::execute(c)
    }
    fn smaller(&self, c: &Case) -> Vec<Case> {
        case::smaller(c)
    }
    fn fixed(&self, c: &Case, sw: Vec<(u64, usize)>) -> Option<Case> {
        let mut d = c.clone();
        d.schedule = case::Schedule::Fixed(sw);
        Some(d)
    }
    fn header() -> Vec<(&'static str, String)> {
        vec![("systems_seed", systems::SEED.to_string())]
    }
    fn evidence(ctx: &mut Ctx) {
        ctx.extra.push(("systems_seed".into(), Json::Int(systems::SEED as i64)));
        ctx.extra.push(("element_types".into(), Json::Int(elem::registry().entries.len() as i64)));
        ctx.extra.push(("real_code".into(), Json::str("diman's macro output for the SI system and seeded unit systems, hdf5-metno and its derive macro, libhdf5")));
        ctx.extra.push(("simulated".into(), Json::str("file system, disk and its faults, processes and their ends, threads, scheduler, time")));
        ctx.assumptions = vec![
            "HDF5 itself does not order its writes nor wait for the disk: after a loss of power, quantities only have to fare no worse than plain values".into(),
            "threads use files of their own".into(),
        ];
    }
}
fn start() -> Hdf {
    *sched::EXIT.lock().unwrap() = Some(case::stuck);
    elem::registry();
    // Loads and prepares the library.
    hdf5::sync::sync(|| ());
    Hdf
}
fn main() {
    simdrive::main(start, 60.0, 1800.0);
}
