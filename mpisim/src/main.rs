//! Simulates MPI programs that send quantities: C09.
//!   mpisim check     mpisim replay <file>
#![feature(generic_const_exprs, adt_const_params)]
#![allow(incomplete_features, dead_code)]
#[path = "../../rtsim/src/access.rs"]
mod access;
mod case;
mod elem;
mod gen;
#[path = "../../rtsim/src/interpose.rs"]
mod interpose;
mod net;
mod ops;
mod systems {
    #![allow(unused)]
    use crate::elem::{elems, particle};
    include!(concat!(env!("OUT_DIR"), "/systems.rs"));
}
use case::Case;
use simcore::{sched, Ctx, Json, Rng};
use simdrive::{Report, Sim};

struct Mpi(mpi::environment::Universe);
impl Sim for Mpi {
    type Case = Case;
    const PROPERTY: &'static str = "C09";
    const PER: usize = 8;
    fn generate(&self, rng: &mut Rng) -> Case {
        gen::generate(rng)
    }
    fn execute(&self, c: &Case) -> Report {
        case::execute(c)
    }
    fn twin(&self, c: &Case) -> Option<Case> {
        let mut d = c.clone();
        d.ops = c.ops.iter().map(|o| o.plain()).collect();
        Some(d)
    }
    fn smaller(&self, c: &Case) -> Vec<Case> {
        case::smaller(c)
    }
    fn fixed(&self, c: &Case, sw: Vec<(u64, usize)>) -> Option<Case> {
        let mut d = c.clone();
        d.schedule = case::Schedule::Fixed(sw);
        Some(d)
    }
    fn header() -> Vec<(&'static str, String)> {
        vec![("systems_seed", systems::SEED.to_string())]
    }
    fn evidence(ctx: &mut Ctx) {
        ctx.extra.push(("systems_seed".into(), Json::Int(systems::SEED as i64)));
        ctx.extra.push(("element_types".into(), Json::Int(elem::registry().entries.len() as i64)));
        ctx.extra.push(("real_code".into(), Json::str("diman's macro output for the SI system and seeded unit systems, rsmpi and its derive macro, once_cell, Open MPI's datatypes, packing and unpacking")));
        ctx.extra.push(("simulated".into(), Json::str("ranks and their threads, scheduler, time, point-to-point and collective transport (Open MPI's is replaced)")));
        ctx.assumptions = vec![
            "ranks share one process, and so its lazily created datatypes".into(),
            "MPI's transport is reliable and ordered between two ranks: losing or duplicating messages is not a fault a program above MPI can meet".into(),
        ];
    }
}
fn start() -> Mpi {
    *sched::EXIT.lock().unwrap() = Some(case::stuck);
    elem::registry();
    net::keep();
    let (u, t) = mpi::initialize_with_threading(mpi::Threading::Multiple).expect("MPI");
    assert!(t == mpi::Threading::Multiple, "MPI without threads");
    Mpi(u)
}
fn main() {
    for (k, v) in [("OMPI_MCA_pml", "ob1"), ("OMPI_MCA_btl", "self"), ("OMPI_MCA_ess_singleton_isolated", "1"), ("OMPI_MCA_plm", "isolated"), ("OMPI_MCA_coll", "^hcoll")] {
        std::env::set_var(k, v);
    }
    simdrive::main(start, 60.0, 1800.0);
}
