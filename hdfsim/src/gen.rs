use crate::case::{Case, End, Op, Open, Place, Schedule, Session};
use crate::disk::{Fault, Plan};
use crate::elem::{entry, plain, registry};
use crate::ops::{Conv, How, Layout, New};
use simcore::Rng;
use std::collections::BTreeMap;

#[derive(Clone)]
struct Data {
    ty: String,
    shape: Vec<usize>,
    resizable: bool,
}
#[derive(Clone, Default)]
struct File {
    there: bool,
    data: BTreeMap<Place, Data>,
}
struct Gen<'a> {
    rng: &'a mut Rng,
    files: Vec<File>,
}
fn vlen(t: &str) -> bool {
    plain(t).starts_with("Vlen")
}
impl Gen<'_> {
    fn ty(&mut self) -> String {
        let r = registry();
        loop {
            let e = self.rng.pick(&r.entries);
            let rare = vlen(&e.name) || !e.name.contains('/');
            if !rare || self.rng.chance(0.25) {
                return e.name.clone();
            }
        }
    }
    /// A type to look at what is stored as this one.
    fn like(&mut self, t: &str) -> String {
        let r = registry();
        let names: Vec<&String> = match self.rng.below(20) {
            0..=8 => return t.to_string(),
            9..=15 => r.entries.iter().filter(|e| plain(&e.name) == plain(t)).map(|e| &e.name).collect(),
            16..=18 => {
                let n = entry(t).shape.len();
                r.entries.iter().filter(|e| e.shape.len() == n && vlen(&e.name) == vlen(t)).map(|e| &e.name).collect()
            }
            // Part of a structure.
            _ if plain(t) == "Particle" => r.entries.iter().filter(|e| plain(&e.name) == "Part").map(|e| &e.name).collect(),
            _ => return self.ty(),
        };
        self.rng.pick(&names).to_string()
    }
    fn conv(&mut self) -> Conv {
        *self.rng.pick(&[Conv::Soft, Conv::Soft, Conv::Soft, Conv::Hard, Conv::NoOp])
    }
    fn shape(&mut self) -> Vec<usize> {
        let n = *self.rng.pick(&[0, 1, 1, 1, 1, 2, 2, 3]);
        (0..n)
            .map(|_| match self.rng.below(20) {
                0 => 0,
                1 if n == 1 => 20 + self.rng.below(300),
                _ => 1 + self.rng.below(6),
            })
            .collect()
    }
    fn how(&mut self, shape: &[usize]) -> How {
        match self.rng.below(10) {
            0..=3 => How::Whole,
            4..=5 => How::Raw,
            6 if (1..=3).contains(&shape.len()) => How::Fixed,
            _ if shape.is_empty() => How::Scalar,
            7 => How::Whole,
            8 if shape.len() == 1 && shape[0] > 0 => How::Points((0..self.rng.below(5)).map(|_| self.rng.below(shape[0])).collect()),
            _ => How::Slice(
                shape
                    .iter()
                    .map(|n| {
                        if *n == 0 {
                            return (0, 1, 1, 1);
                        }
                        let start = self.rng.below(*n);
                        if self.rng.chance(0.25) {
                            return (start, 1, 0, 1);
                        }
                        let block = 1 + self.rng.below(2.min(n - start));
                        let step = block + self.rng.below(2);
                        let most = (n - start - block) / step + 1;
                        (start, step, 1 + self.rng.below(most), block)
                    })
                    .collect(),
            ),
        }
    }
    fn op(&mut self, file: usize) -> Op {
        let places: Vec<Place> = self.files[file].data.keys().copied().collect();
        let sets: Vec<Place> = places.iter().copied().filter(|p| p.attr.is_none()).collect();
        let known = |g: &mut Self| -> Option<(Place, Data)> {
            if places.is_empty() {
                return None;
            }
            let p = *g.rng.pick(&places);
            Some((p, g.files[file].data[&p].clone()))
        };
        match self.rng.below(20) {
            0..=4 => self.create(file, &sets),
            5..=7 => match known(self) {
                Some((at, d)) => {
                    let ty = self.like(&d.ty);
                    let how = self.how(&d.shape);
                    let seed = self.rng.next();
                    Op::Write { file, at, ty, how, shape: d.shape, conv: self.conv(), seed }
                }
                None => self.create(file, &sets),
            },
            8..=13 => match known(self) {
                Some((at, d)) => Op::Read { file, at, ty: self.like(&d.ty), how: self.how(&d.shape), conv: self.conv() },
                None => self.create(file, &sets),
            },
            14 => match known(self) {
                Some((at, d)) => Op::Describe { file, at, ty: self.like(&d.ty) },
                None => Op::Names { file },
            },
            15 => {
                let resizable: Vec<Place> = sets.iter().copied().filter(|p| self.files[file].data[p].resizable).collect();
                match resizable.is_empty() {
                    true => self.create(file, &sets),
                    false => {
                        let p = *self.rng.pick(&resizable);
                        let d = self.files[file].data.get_mut(&p).unwrap();
                        for n in d.shape.iter_mut() {
                            *n = (*n as i64 + self.rng.range(-2, 4)).max(0) as usize;
                        }
                        Op::Resize { file, ds: p.ds.unwrap(), shape: d.shape.clone() }
                    }
                }
            }
            16 => match sets.is_empty() {
                true => Op::Names { file },
                false => {
                    let p = *self.rng.pick(&sets);
                    let ty = self.files[file].data[&p].ty.clone();
                    match self.rng.chance(0.5) && !vlen(&ty) {
                        true => Op::Fill { file, ds: p.ds.unwrap(), ty: if self.rng.chance(0.7) { ty } else { self.like(&ty) } },
                        false => {
                            self.files[file].data.retain(|q, _| q.ds != p.ds);
                            Op::Unlink { file, ds: p.ds.unwrap() }
                        }
                    }
                }
            },
            17 => Op::Names { file },
            _ => Op::Flush { file },
        }
    }
    fn create(&mut self, file: usize, sets: &[Place]) -> Op {
        let ty = self.ty();
        let attr = self.rng.chance(0.3);
        let at = if attr {
            let ds = if !sets.is_empty() && self.rng.chance(0.6) { self.rng.pick(sets).ds } else { None };
            Place { ds, attr: Some(self.rng.below(4) as u8) }
        } else {
            Place { ds: Some(self.rng.below(6) as u8), attr: None }
        };
        // Mostly a new name.
        let mut at = at;
        for _ in 0..3 {
            if self.files[file].data.contains_key(&at) {
                match (at.attr, at.ds) {
                    (Some(_), _) => at.attr = Some(self.rng.below(6) as u8),
                    _ => at.ds = Some(self.rng.below(10) as u8),
                }
            }
        }
        let mut shape = self.shape();
        if attr {
            shape.iter_mut().for_each(|n| *n = (*n).min(8));
        }
        let stored = (self.rng.chance(0.15)).then(|| self.like(&ty));
        let data = self.rng.chance(0.6).then(|| self.rng.next());
        let flat = !shape.is_empty() && !shape.contains(&0);
        let chunked = !attr && flat && self.rng.chance(0.4);
        let resizable = chunked && data.is_none() && self.rng.chance(0.6);
        let layout = if chunked {
            Layout::Chunked(shape.iter().map(|n| 1 + self.rng.below(*n)).collect())
        } else {
            match self.rng.below(4) {
                0 if !attr => Layout::Compact,
                1 if !attr => Layout::Contiguous,
                _ => Layout::Default,
            }
        };
        let filters = match chunked && self.rng.chance(0.6) {
            true => (self.rng.chance(0.5), self.rng.chance(0.5).then(|| self.rng.below(10) as u8), self.rng.chance(0.5)),
            false => (false, None, false),
        };
        let fill = (!attr && stored.is_none() && !vlen(&ty) && self.rng.chance(0.15)).then(|| self.rng.next());
        let new = New { shape, resizable, layout, filters, packed: self.rng.chance(0.2), data, fill, conv: self.conv() };
        let old = self.files[file].data.contains_key(&at);
        if !old {
            let d = Data { ty: stored.clone().unwrap_or(ty.clone()), shape: new.shape.clone(), resizable };
            self.files[file].data.insert(at, d);
        }
        Op::New { file, at, ty, stored, new }
    }
    fn task(&mut self, mine: &[usize], n: usize) -> Vec<Op> {
        let mut ops = vec![];
        let mut open = BTreeMap::new();
        for _ in 0..n {
            let file = *self.rng.pick(mine);
            if !open.contains_key(&file) {
                let mode = match self.files[file].there {
                    false => *self.rng.pick(&[Open::Create, Open::Create, Open::Exclusive, Open::Append]),
                    true => *self.rng.pick(&[Open::Write, Open::Write, Open::Append, Open::Read, Open::Read, Open::Create]),
                };
                if mode == Open::Create {
                    self.files[file] = File::default();
                }
                self.files[file].there = true;
                open.insert(file, ());
                ops.push(Op::Open { file, mode });
            }
            if self.rng.chance(0.06) {
                open.remove(&file);
                ops.push(Op::Close { file });
                continue;
            }
            let op = self.op(file);
            ops.push(op);
        }
        ops
    }
}
fn fault(rng: &mut Rng) -> Fault {
    match rng.below(14) {
        0..=1 => Fault::Short(rng.unit()),
        2..=3 => Fault::Eintr,
        4..=5 => Fault::Eio,
        6 => Fault::Torn(rng.unit()),
        7..=8 => Fault::NoSpace,
        9..=10 => Fault::Slow(1 + rng.below(50) as u64),
        _ => Fault::Crash(rng.unit()),
    }
}
pub fn generate(rng: &mut Rng) -> Case {
    let faulty = rng.chance(0.5);
    let two = rng.chance(0.4);
    let alike = rng.chance(0.4);
    let nsessions = 1 + rng.below(4);
    let seed = rng.next();
    let p = *rng.pick(&[0.0, 0.02, 0.1, 0.3]);
    let mut g = Gen { rng, files: vec![File::default(); 4] };
    let mut sessions = vec![];
    let nfiles = 1 + g.rng.below(2);
    for k in 0..nsessions {
        let n = 2 + g.rng.below(if k == 0 { 14 } else { 8 });
        let mut tasks: Vec<Vec<Op>> = (0..if two { 2 } else { 1 })
            .map(|t| {
                let mine: Vec<usize> = (0..nfiles).map(|j| t + 2 * j).collect();
                g.task(&mine, n)
            })
            .collect();
        // Both do the same, so that they need the same for the first time.
        if two && alike {
            tasks[1] = tasks[0].iter().map(|o| o.with_file(o.file() + 1)).collect();
            for j in [0, 2] {
                g.files[j + 1] = g.files[j].clone();
            }
        }
        let mut plan = Plan::default();
        let mut end = End::Close;
        if faulty && g.rng.chance(0.6) {
            let all: Vec<usize> = (0..4).filter(|f| tasks.iter().flatten().any(|o| o.file() == *f)).collect();
            for _ in 0..g.rng.below(4) {
                let most = *g.rng.pick(&[10, 40, 150]);
                let mut f = fault(g.rng);
                // The others are at any point when one crashes.
                if two && matches!(f, Fault::Crash(_)) {
                    f = Fault::Eio;
                }
                plan.faults.push((*g.rng.pick(&all), g.rng.below(most) as u64, f));
            }
            if g.rng.chance(0.1) {
                plan.capacity = Some(*g.rng.pick(&[0, 96, 800, 2048, 4096, 10_000]));
            }
            plan.locked = g.rng.chance(0.03);
            if g.rng.chance(0.3) {
                end = End::Killed;
            }
            if g.rng.chance(0.15) {
                plan.power = Some((g.rng.next(), g.rng.unit()));
            }
        }
        sessions.push(Session { tasks, plan, end });
    }
    Case { sessions, schedule: Schedule::Random { seed, p } }
}
