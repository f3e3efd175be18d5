//! Cases, by seed.
use crate::case::{Case, Op, Schedule, Values, Who};
use crate::elem::{entry, registry, PARTICLE};
use crate::net::Plan;
use crate::ops::{Call, Coll, Combine, Get, Into, Out};
use simcore::Rng;

fn count(rng: &mut Rng) -> usize {
    match rng.below(12) {
        0 => 0,
        1..=3 => 1,
        4 | 5 => 2,
        6..=9 => 3 + rng.below(6),
        10 => 12 + rng.below(40),
        _ => 100 + rng.below(1500),
    }
}
/// Types whose messages a message of this type can be received as, and the number of elements.
fn other(rng: &mut Rng, t: &str, n: usize, favourites: &[String]) -> String {
    let s = entry(t).shape;
    let fits = |u: &str| {
        let v = entry(u).shape;
        if s == PARTICLE || v == PARTICLE {
            return s == v;
        }
        s[0] == v[0] && (n * s.len()) % v.len() == 0
    };
    let near: Vec<&String> = favourites.iter().filter(|u| fits(u)).collect();
    if !near.is_empty() && rng.chance(0.5) {
        return rng.pick(&near).to_string();
    }
    if rng.chance(0.3) {
        return crate::elem::plain(t).into();
    }
    let all: Vec<&str> = registry().entries.iter().map(|e| e.name.as_str()).filter(|u| fits(u)).collect();
    rng.pick(&all).to_string()
}
pub fn generate(rng: &mut Rng) -> Case {
    let threaded = rng.chance(0.5);
    let ranks: Vec<usize> = (0..rng.range(2, 4)).map(|_| if threaded { 1 + rng.below(3) } else { 1 }).collect();
    let all: Vec<String> = registry().entries.iter().map(|e| e.name.clone()).collect();
    // Few types at a time, mostly of quantities.
    let mut favourites: Vec<String> = (0..rng.range(1, 5)).map(|_| rng.pick(&all).clone()).collect();
    if rng.chance(0.3) {
        favourites.push(rng.pick(&["f32", "f64", "Plain"]).to_string());
    }
    let who = |rng: &mut Rng| -> Who {
        let r = rng.below(ranks.len());
        (r, rng.below(ranks[r]))
    };
    let values = |rng: &mut Rng, n: usize| Values { seed: rng.next(), n };
    let mut ops = vec![];
    for _ in 0..rng.range(1, 9) {
        let a = who(rng);
        let b = loop {
            let b = who(rng);
            if b.0 != a.0 {
                break b;
            }
        };
        let t = rng.pick(&favourites).clone();
        let n = count(rng);
        match rng.below(11) {
            10 if entry(&t).shape.len() == 1 => {
                let c = *rng.pick(&[Combine::Sum, Combine::Product, Combine::Max, Combine::Min]);
                let kind = *rng.pick(&[Coll::Reduce(c), Coll::AllReduce(c), Coll::Scan(c)]);
                let alike: Vec<String> = registry().entries.iter().filter(|e| e.shape == entry(&t).shape).map(|e| e.name.clone()).collect();
                let types: Vec<String> = ranks.iter().map(|_| if rng.chance(0.5) { t.clone() } else { rng.pick(&alike).clone() }).collect();
                let values = ranks.iter().map(|_| values(rng, n)).collect();
                ops.push(Op::Collective { kind, root: rng.below(ranks.len()), types, values });
            }
            0 => {
                let u = other(rng, &t, 0, &favourites);
                // Both parts must be whole numbers of elements for either.
                let (x, y) = (entry(&t).shape.len(), entry(&u).shape.len());
                let k = n.min(30);
                ops.push(Op::Exchange { a, b, av: values(rng, k * y), bv: values(rng, rng.clone().below(9) * x), at: t, bt: u });
            }
            1 | 2 => {
                let kind = *rng.pick(&[Coll::Bcast, Coll::Gather, Coll::Gatherv, Coll::Allgather, Coll::Alltoall, Coll::Scatter]);
                let k = n.min(20);
                let types: Vec<String> = ranks.iter().map(|_| other(rng, &t, 0, &favourites)).collect();
                // Six floats are a whole number of elements of any type; particles are all alike.
                let whole = if entry(&t).shape == PARTICLE { PARTICLE.len() } else { 6 };
                let values = types
                    .iter()
                    .map(|u| {
                        let m = match kind {
                            Coll::Alltoall | Coll::Scatter => k * ranks.len(),
                            Coll::Gatherv => rng.below(5),
                            _ => k,
                        };
                        values(rng, m * whole / entry(u).shape.len())
                    })
                    .collect();
                ops.push(Op::Collective { kind, root: rng.below(ranks.len()), types, values });
            }
            _ => {
                let received = other(rng, &t, n, &favourites);
                let packed = rng.chance(0.12);
                let out = match rng.below(8) {
                    _ if packed => Out::Packed,
                    0 => Out::Vec,
                    1..=3 => Out::Fixed,
                    5 => Out::Lent,
                    4 => Out::Strided(1 + rng.below(3)),
                    _ => Out::Slice,
                };
                let into = match rng.below(8) {
                    _ if packed => Into::Packed,
                    0 | 1 => Into::Vec,
                    2 | 3 => Into::Fixed,
                    4 => Into::Strided(1 + rng.below(3)),
                    _ => Into::Slice(if rng.chance(0.5) { 0 } else { rng.below(5) }),
                };
                ops.push(Op::Send {
                    from: a,
                    to: b,
                    values: values(rng, n),
                    sent: t,
                    call: *rng.pick(&[Call::Send, Call::Send, Call::Ssend, Call::Isend, Call::Issend]),
                    out,
                    received,
                    get: match rng.below(6) {
                        0 => Get::Probe,
                        1 => Get::Mprobe,
                        2 => Get::Irecv(rng.below(6) as u32),
                        3 => Get::Imrecv,
                        _ => Get::Recv,
                    },
                    into,
                    any: rng.chance(0.2),
                });
            }
        }
    }
    Case {
        ranks,
        net: Plan {
            seed: rng.next(),
            delay: if rng.chance(0.6) { 1 + rng.below(50) as u64 } else { 0 },
            rendezvous: *rng.pick(&[0.0, 0.3, 1.0]),
            fragment: if rng.chance(0.5) { 0 } else { 1 + rng.below(4) },
            unlike: rng.chance(0.3),
        },
        ops,
        schedule: Schedule::Random { seed: rng.next(), p: *rng.pick(&[0.02, 0.1, 0.3, 0.7]) },
    }
}
