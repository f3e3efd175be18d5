//! What users do with quantities and MPI, generic over the element.
use crate::access::under_test;
use crate::elem::{Elem, Shape};
use crate::net::{blame, Expect, EXPECT};
use mpi::datatype::{DatatypeRef, MutView, PartitionMut, UserDatatype, View};
use mpi::ffi::MPI_Datatype;
use mpi::point_to_point as p2p;
use mpi::topology::SimpleCommunicator;
use mpi::traits::*;
use mpi::Count;
use serde::{Deserialize, Serialize};
use simdrive::verdict;
use std::any::TypeId;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Call {
    Send,
    Ssend,
    Isend,
    Issend,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Out {
    Slice,
    Vec,
    /// A reference to the element, if it is one; an array, if they are two.
    Fixed,
    /// Every so manyth element of a buffer.
    Strided(usize),
    /// Packed by hand.
    Packed,
    /// Described by the datatype whoever does this first got.
    Lent,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Get {
    Recv,
    Probe,
    Mprobe,
    /// Polled so many times before it waits.
    Irecv(u32),
    Imrecv,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Into {
    /// A buffer with room for so many more.
    Slice(usize),
    Vec,
    Fixed,
    Strided(usize),
    Packed,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Coll {
    Bcast,
    Gather,
    Gatherv,
    Allgather,
    Alltoall,
    Scatter,
    Reduce(Combine),
    AllReduce(Combine),
    Scan(Combine),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Combine {
    Sum,
    Product,
    Max,
    Min,
}
impl Combine {
    fn op(self) -> mpi::collective::SystemOperation {
        use mpi::collective::SystemOperation as O;
        match self {
            Combine::Sum => O::sum(),
            Combine::Product => O::product(),
            Combine::Max => O::max(),
            Combine::Min => O::min(),
        }
    }
    /// Of the bits of two f64 or f32.
    pub fn floats(self, a: u64, b: u64, double: bool) -> u64 {
        fn f<T: PartialOrd + std::ops::Add<Output = T> + std::ops::Mul<Output = T>>(c: Combine, a: T, b: T) -> T {
            match c {
                Combine::Sum => a + b,
                Combine::Product => a * b,
                Combine::Max if a > b => a,
                Combine::Min if a < b => a,
                _ => b,
            }
        }
        if double {
            f(self, f64::from_bits(a), f64::from_bits(b)).to_bits()
        } else {
            f(self, f32::from_bits(a as u32), f32::from_bits(b as u32)).to_bits() as u64
        }
    }
}
pub fn wire(shape: Shape, floats: &[u64]) -> Expect {
    let mut e = Expect { native: vec![], canonical: vec![] };
    for (i, x) in floats.iter().enumerate() {
        if shape[i % shape.len()] {
            e.native.extend(x.to_le_bytes());
            e.canonical.extend(x.to_be_bytes());
        } else {
            e.native.extend((*x as u32).to_le_bytes());
            e.canonical.extend((*x as u32).to_be_bytes());
        }
    }
    e
}
fn expect(e: Option<Expect>) {
    EXPECT.with(|x| *x.borrow_mut() = e);
}
const GUARD: usize = 64;
const OLD: u64 = 0x7ff5_a5a5_7fa5_a5a5;
/// A buffer between guards, whose elements nobody but the messages may change.
struct Guarded<E> {
    v: Vec<E>,
    n: usize,
}
fn old<E: Elem>() -> E {
    let f: Vec<u64> = E::SHAPE.iter().map(|d| if *d { OLD } else { OLD as u32 as u64 }).collect();
    E::make(&f)
}
impl<E: Elem> Guarded<E> {
    fn new(n: usize) -> Self {
        Guarded { v: vec![old::<E>(); n + 2 * GUARD], n }
    }
    fn of(floats: &[u64]) -> Self {
        let items = elems::<E>(floats);
        let mut g = Self::new(items.len());
        g.mid().copy_from_slice(&items);
        g
    }
    fn mid(&mut self) -> &mut [E] {
        &mut self.v[GUARD..GUARD + self.n]
    }
    /// The elements i for which `new(i)`; the others must be as before.
    fn take(&self, new: impl Fn(usize) -> bool) -> Result<Vec<u64>, String> {
        let mut out = vec![];
        let mut before = vec![];
        old::<E>().floats(&mut before);
        for (i, x) in self.v.iter().enumerate() {
            if (GUARD..GUARD + self.n).contains(&i) && new(i - GUARD) {
                x.floats(&mut out);
            } else {
                let mut now = vec![];
                x.floats(&mut now);
                if now != before {
                    return Err(format!("memory that is not part of the message was changed (element {} of a buffer of {})", i as i64 - GUARD as i64, self.n));
                }
            }
        }
        Ok(out)
    }
}
fn elems<E: Elem>(floats: &[u64]) -> Vec<E> {
    floats.chunks(E::SHAPE.len()).map(E::make).collect()
}
fn floats<E: Elem>(es: &[E]) -> Vec<u64> {
    let mut out = vec![];
    es.iter().for_each(|e| e.floats(&mut out));
    out
}
pub type Got = Result<Vec<u64>, String>;

pub struct CollJob<'a> {
    pub kind: Coll,
    pub root: i32,
    pub rank: usize,
    pub size: usize,
    /// What this rank contributes, as floats.
    pub mine: &'a [u64],
    /// Floats each rank contributes (Gatherv: not all the same).
    pub counts: &'a [usize],
}
pub trait Ops: Sync {
    fn send(&self, call: Call, out: Out, dst: i32, tag: i32, f: &[u64]);
    fn recv(&self, get: Get, into: Into, src: Option<i32>, tag: i32, n: usize) -> Got;
    fn exchange(&self, with: i32, stag: i32, rtag: i32, f: &[u64], n: usize) -> Got;
    fn coll(&self, j: &CollJob) -> Got;
}
pub struct Of<E>(PhantomData<fn() -> E>);
impl<E> Default for Of<E> {
    fn default() -> Self {
        Of(PhantomData)
    }
}
fn world() -> SimpleCommunicator {
    SimpleCommunicator::world()
}
/// Datatypes live as long as the process.
fn lent<E: Elem>() -> DatatypeRef<'static> {
    static LENT: Mutex<BTreeMap<TypeId, usize>> = Mutex::new(BTreeMap::new());
    let known = LENT.lock().unwrap().get(&TypeId::of::<E>()).copied();
    let raw = known.unwrap_or_else(|| {
        let t = {
            let _t = under_test(true);
            E::equivalent_datatype().as_raw()
        };
        LENT.lock().unwrap().insert(TypeId::of::<E>(), t.0 as usize);
        t.0 as usize
    });
    unsafe { DatatypeRef::from_raw(MPI_Datatype(raw as _)) }
}
fn dispatch<B: ?Sized + Buffer, D: Destination>(call: Call, d: &D, tag: i32, b: &B) {
    let _t = under_test(true);
    match call {
        Call::Send => d.send_with_tag(b, tag),
        Call::Ssend => d.synchronous_send_with_tag(b, tag),
        Call::Isend | Call::Issend => mpi::request::scope(|s| {
            let r = if call == Call::Isend { d.immediate_send_with_tag(s, b, tag) } else { d.immediate_synchronous_send_with_tag(s, b, tag) };
            match r.test() {
                Ok(_) => {}
                Err(r) => drop(r.wait()),
            }
        }),
    }
}
fn counted<E: Elem>(st: &p2p::Status) -> usize {
    let t = E::equivalent_datatype();
    let n = st.count(t);
    if n < 0 {
        usize::MAX
    } else {
        n as usize
    }
}
fn receive_into<E: Elem, B: ?Sized + BufferMut, S: Source>(get: Get, s: &S, tag: i32, b: &mut B) -> Option<usize> {
    let _t = under_test(true);
    let st = match get {
        Get::Recv => s.receive_into_with_tag(b, tag),
        Get::Probe => {
            let p = s.probe_with_tag(tag);
            let q = s.receive_into_with_tag(b, tag);
            if counted::<E>(&p) != counted::<E>(&q) {
                blame(verdict("count", format!("A probe reports {} elements, receiving the message {}", counted::<E>(&p), counted::<E>(&q))));
            }
            q
        }
        Get::Mprobe => {
            let (m, _) = s.matched_probe_with_tag(tag);
            m.matched_receive_into(b)
        }
        Get::Irecv(polls) => mpi::request::scope(|sc| {
            let mut r = s.immediate_receive_into_with_tag(sc, b, tag);
            for _ in 0..polls {
                match r.test() {
                    Ok(st) => return st,
                    Err(q) => r = q,
                }
            }
            r.wait()
        }),
        Get::Imrecv => {
            let (m, _) = s.matched_probe_with_tag(tag);
            mpi::request::scope(|sc| m.immediate_matched_receive_into(sc, b).wait())
        }
    };
    Some(counted::<E>(&st))
}
fn receive<E: Elem, S: Source>(get: Get, into: Into, s: &S, tag: i32, n: usize) -> Got {
    let right = |k: Option<usize>, of: usize| match k {
        Some(k) if k != of => Err(format!("its receiver counts {k} elements instead of {of}")),
        _ => Ok(()),
    };
    match into {
        Into::Vec => {
            let (v, st) = {
                let _t = under_test(true);
                s.receive_vec_with_tag::<E>(tag)
            };
            right(Some(counted::<E>(&st)), n)?;
            Ok(floats(&v))
        }
        Into::Fixed if n == 1 => {
            let (x, st) = {
                let _t = under_test(true);
                s.receive_with_tag::<E>(tag)
            };
            right(Some(counted::<E>(&st)), n)?;
            Ok(floats(&[x]))
        }
        Into::Fixed if n == 2 => {
            let mut x = [old::<E>(); 2];
            right(receive_into::<E, _, _>(get, s, tag, &mut x), n)?;
            Ok(floats(&x))
        }
        Into::Slice(_) | Into::Fixed => {
            let more = if let Into::Slice(m) = into { m } else { 0 };
            let mut g = Guarded::<E>::new(n + more);
            right(receive_into::<E, _, _>(get, s, tag, g.mid()), n)?;
            g.take(|i| i < n)
        }
        Into::Strided(k) => {
            let mut g = Guarded::<E>::new(n * k);
            {
                let _t = under_test(true);
                let e = E::equivalent_datatype();
                let t = UserDatatype::vector(n as Count, 1, k as Count, &e);
                let mut v = unsafe { MutView::with_count_and_datatype(g.mid(), 1, &t) };
                receive_into::<E, _, _>(get, s, tag, &mut v);
            }
            g.take(|i| i % k == 0)
        }
        Into::Packed => {
            let mut g = Guarded::<E>::new(n);
            let _t = under_test(true);
            let (b, _) = s.receive_vec_with_tag::<u8>(tag);
            let mut pos = 0;
            for x in g.mid() {
                pos = unsafe { world().unpack_into(&b, x, pos) };
            }
            if pos as usize != b.len() {
                return Err(format!("unpacking {n} elements uses {pos} of {} packed bytes", b.len()));
            }
            g.take(|_| true)
        }
    }
}
impl<E: Elem> Ops for Of<E> {
    fn send(&self, call: Call, out: Out, dst: i32, tag: i32, f: &[u64]) {
        let w = world();
        let d = w.process_at_rank(dst);
        let mut e = wire(E::SHAPE, f);
        if out == Out::Packed {
            e.canonical = e.native.clone();
        }
        expect(Some(e));
        let mut g = Guarded::<E>::of(f);
        let n = g.n;
        match out {
            Out::Vec => dispatch(call, &d, tag, &g.mid().to_vec()),
            Out::Fixed if n == 1 => dispatch(call, &d, tag, &g.mid()[0]),
            Out::Fixed if n == 2 => dispatch(call, &d, tag, &[g.mid()[0], g.mid()[1]]),
            Out::Slice | Out::Fixed => dispatch(call, &d, tag, &*g.mid()),
            Out::Strided(k) => {
                let mut h = Guarded::<E>::new(n * k);
                for i in 0..n {
                    h.mid()[i * k] = g.mid()[i];
                }
                let _t = under_test(true);
                let e = E::equivalent_datatype();
                let t = UserDatatype::vector(n as Count, 1, k as Count, &e);
                let v = unsafe { View::with_count_and_datatype(h.mid(), 1, &t) };
                dispatch(call, &d, tag, &v);
            }
            Out::Lent => {
                let t = lent::<E>();
                let v = unsafe { View::with_count_and_datatype(g.mid(), n as Count, &t) };
                dispatch(call, &d, tag, &v);
            }
            Out::Packed => {
                let b = {
                    let _t = under_test(true);
                    w.pack(g.mid())
                };
                dispatch(call, &d, tag, &b[..]);
            }
        }
        expect(None);
    }
    fn recv(&self, get: Get, into: Into, src: Option<i32>, tag: i32, n: usize) -> Got {
        let n = n / E::SHAPE.len();
        let w = world();
        match src {
            Some(s) => receive::<E, _>(get, into, &w.process_at_rank(s), tag, n),
            None => receive::<E, _>(get, into, &w.any_process(), tag, n),
        }
    }
    fn exchange(&self, with: i32, stag: i32, rtag: i32, f: &[u64], n: usize) -> Got {
        let n = n / E::SHAPE.len();
        let w = world();
        let p = w.process_at_rank(with);
        expect(Some(wire(E::SHAPE, f)));
        let mut a = Guarded::<E>::of(f);
        let mut b = Guarded::<E>::new(n);
        let st = {
            let _t = under_test(true);
            p2p::send_receive_into_with_tags(a.mid(), &p, stag, b.mid(), &p, rtag)
        };
        expect(None);
        let k = counted::<E>(&st);
        if k != n {
            return Err(format!("its receiver counts {k} elements instead of {n}"));
        }
        b.take(|_| true)
    }
    fn coll(&self, j: &CollJob) -> Got {
        let w = world();
        let root = w.process_at_rank(j.root);
        let is_root = j.rank as i32 == j.root;
        let s = E::SHAPE.len();
        let each = j.counts.iter().map(|c| c / s).collect::<Vec<_>>();
        let total: usize = each.iter().sum();
        let mut mine = Guarded::<E>::of(j.mine);
        match j.kind {
            Coll::Bcast => {
                let mut b = if is_root { mine } else { Guarded::<E>::new(each[j.root as usize]) };
                if is_root {
                    expect(Some(wire(E::SHAPE, j.mine)));
                }
                {
                    let _t = under_test(true);
                    root.broadcast_into(b.mid());
                }
                expect(None);
                b.take(|_| true)
            }
            Coll::Gather | Coll::Gatherv => {
                expect(Some(wire(E::SHAPE, j.mine)));
                let r = if is_root {
                    let mut b = Guarded::<E>::new(total);
                    let _t = under_test(true);
                    if j.kind == Coll::Gather {
                        root.gather_into_root(mine.mid(), b.mid());
                    } else {
                        let counts: Vec<Count> = each.iter().map(|c| *c as Count).collect();
                        let displs: Vec<Count> = counts.iter().scan(0, |a, c| Some(std::mem::replace(a, *a + c))).collect();
                        let mut part = PartitionMut::new(b.mid(), counts, &displs[..]);
                        root.gather_varcount_into_root(mine.mid(), &mut part);
                    }
                    b.take(|_| true)
                } else {
                    let _t = under_test(true);
                    if j.kind == Coll::Gather {
                        root.gather_into(mine.mid());
                    } else {
                        root.gather_varcount_into(mine.mid());
                    }
                    Ok(vec![])
                };
                expect(None);
                r
            }
            Coll::Allgather => {
                expect(Some(wire(E::SHAPE, j.mine)));
                let mut b = Guarded::<E>::new(total);
                {
                    let _t = under_test(true);
                    w.all_gather_into(mine.mid(), b.mid());
                }
                expect(None);
                b.take(|_| true)
            }
            Coll::Alltoall => {
                let mut b = Guarded::<E>::new(mine.n);
                {
                    let _t = under_test(true);
                    w.all_to_all_into(mine.mid(), b.mid());
                }
                b.take(|_| true)
            }
            Coll::Scatter => {
                let mut b = Guarded::<E>::new(each[j.root as usize] / j.size);
                {
                    let _t = under_test(true);
                    if is_root {
                        root.scatter_into_root(mine.mid(), b.mid());
                    } else {
                        root.scatter_into(b.mid());
                    }
                }
                b.take(|_| true)
            }
            Coll::Reduce(c) => {
                expect(Some(wire(E::SHAPE, j.mine)));
                let r = if is_root {
                    let mut b = Guarded::<E>::new(mine.n);
                    let _t = under_test(true);
                    root.reduce_into_root(mine.mid(), b.mid(), c.op());
                    b.take(|_| true)
                } else {
                    let _t = under_test(true);
                    root.reduce_into(mine.mid(), c.op());
                    Ok(vec![])
                };
                expect(None);
                r
            }
            Coll::AllReduce(c) | Coll::Scan(c) => {
                expect(Some(wire(E::SHAPE, j.mine)));
                let mut b = Guarded::<E>::new(mine.n);
                {
                    let _t = under_test(true);
                    if matches!(j.kind, Coll::Scan(_)) {
                        w.scan_into(mine.mid(), b.mid(), c.op());
                    } else {
                        w.all_reduce_into(mine.mid(), b.mid(), c.op());
                    }
                }
                expect(None);
                b.take(|_| true)
            }
        }
    }
}
