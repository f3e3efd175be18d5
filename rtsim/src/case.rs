//! One simulated execution: who does what, in which order, with which faults.
use crate::ops::{exec, Done, FilePlan, Step, World, WORLD};
use serde::{Deserialize, Serialize};
use simcore::sched::{self, Mode};
use simcore::Rng;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Schedule {
    /// One task, on the calling thread.
    Inline,
    Random { seed: u64, p: f64 },
    Fixed(Vec<(u64, usize)>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub property: String,
    pub tasks: Vec<Vec<Step>>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub pipes: Vec<usize>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub files: Vec<FilePlan>,
    pub schedule: Schedule,
}
pub struct Ran {
    pub done: Vec<Vec<Done>>,
    pub stuck: bool,
    pub log: u64,
    pub switches: BTreeMap<u64, usize>,
    pub steps: u64,
    pub context_switches: u64,
    pub accesses: u64,
    pub time: u64,
    pub lost: Option<String>,
}
const CAP: u64 = 2_000_000;

pub fn run(c: &Case) -> Ran {
    if c.schedule == Schedule::Inline {
        sched::ALONE.store(true, SeqCst);
        let done = c.tasks.iter().map(|t| t.iter().map(exec).collect()).collect();
        sched::ALONE.store(false, SeqCst);
        return Ran { done, stuck: false, log: 0, switches: BTreeMap::new(), steps: 0, context_switches: 0, accesses: 0, time: 0, lost: None };
    }
    let world = Arc::new(World::new(&c.pipes, &c.files));
    let done: Mutex<Vec<Vec<Done>>> = Mutex::new(c.tasks.iter().map(|_| vec![]).collect());
    let mode = match &c.schedule {
        Schedule::Random { seed, p } => Mode::random(*seed, *p),
        Schedule::Fixed(m) => Mode::Fixed(m.iter().copied().collect()),
        Schedule::Inline => unreachable!(),
    };
    let tasks: Vec<sched::Body<()>> = c
        .tasks
        .iter()
        .enumerate()
        .map(|(i, steps)| {
            let (world, done) = (world.clone(), &done);
            Box::new(move || {
                WORLD.with(|w| *w.borrow_mut() = Some(world));
                for s in steps {
                    let d = exec(s);
                    done.lock().unwrap()[i].push(d);
                    sched::yield_point(0x5e);
                }
                WORLD.with(|w| *w.borrow_mut() = None);
            }) as sched::Body<()>
        })
        .collect();
    let o = sched::run(mode, CAP, tasks);
    let lost = o.results.iter().find_map(|r| r.as_ref().err().cloned());
    Ran {
        done: done.into_inner().unwrap_or_else(|e| e.into_inner()),
        stuck: o.stuck,
        log: o.log,
        switches: o.switches,
        steps: o.steps,
        context_switches: o.context_switches,
        accesses: o.accesses,
        time: o.simulated_time,
        lost,
    }
}
