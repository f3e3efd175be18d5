//! The transport: what rsmpi calls of MPI, for ranks that are tasks of one process. Datatypes and packing are the real
//! library's; messages travel as packed bytes (in the canonical representation, between unlike nodes).
#![allow(non_snake_case)]
use mpi::ffi::*;
use serde::{Deserialize, Serialize};
use simcore::{fnv, sched, Rng};
use simdrive::{bump, verdict, Verdict};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::c_void;
use std::os::raw::c_int;
use std::ptr::{addr_of, null_mut};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub seed: u64,
    /// Longest delay of a message; 0: none.
    pub delay: u64,
    /// Part of the standard sends that wait for their receiver.
    pub rendezvous: f64,
    /// Elements packed at once; 0: all.
    pub fragment: usize,
    /// Nodes of different architectures.
    pub unlike: bool,
}
struct Msg {
    id: u64,
    src: c_int,
    dst: c_int,
    tag: c_int,
    ctx: u32,
    bytes: Vec<u8>,
    /// Between unlike nodes, which basic types it consists of.
    signature: Option<Vec<usize>>,
    at: u64,
}
struct Net {
    plan: Plan,
    rng: Rng,
    size: c_int,
    msgs: Vec<Msg>,
    /// Messages whose senders wait.
    waiting: BTreeSet<u64>,
    next: u64,
    last: BTreeMap<(c_int, c_int, u32), u64>,
    seq: Vec<c_int>,
    counts: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
}
static NET: Mutex<Option<Net>> = Mutex::new(None);
static BLAME: Mutex<Option<Verdict>> = Mutex::new(None);
static TYPES: Mutex<(BTreeSet<usize>, BTreeSet<usize>)> = Mutex::new((BTreeSet::new(), BTreeSet::new()));
pub struct Expect {
    pub native: Vec<u8>,
    pub canonical: Vec<u8>,
}
thread_local! {
    static RANK: Cell<c_int> = const { Cell::new(-1) };
    pub static EXPECT: RefCell<Option<Expect>> = const { RefCell::new(None) };
}
pub fn start(plan: &Plan, size: usize) {
    *NET.lock().unwrap() = Some(Net {
        plan: plan.clone(),
        rng: Rng::new(plan.seed),
        size: size as c_int,
        msgs: vec![],
        waiting: BTreeSet::new(),
        next: 0,
        last: BTreeMap::new(),
        seq: vec![0; size],
        counts: BTreeMap::new(),
        faults: BTreeMap::new(),
    });
    *BLAME.lock().unwrap() = None;
}
pub type Stats = BTreeMap<String, u64>;
pub fn end() -> (Option<Verdict>, Stats, Stats) {
    let n = NET.lock().unwrap().take().unwrap();
    (BLAME.lock().unwrap().take(), n.counts, n.faults)
}
pub fn enter(rank: usize) {
    RANK.with(|r| r.set(rank as c_int));
}
pub fn blame(v: Verdict) {
    let mut b = BLAME.lock().unwrap();
    if b.is_none() {
        *b = Some(v);
    }
}
pub fn blamed() -> bool {
    BLAME.lock().unwrap().is_some()
}
fn net<R>(f: impl FnOnce(&mut Net) -> R) -> R {
    f(NET.lock().unwrap_or_else(|e| e.into_inner()).as_mut().expect("a simulation"))
}
fn rank() -> Option<c_int> {
    RANK.try_with(|r| r.get()).ok().filter(|r| *r >= 0)
}
fn me() -> c_int {
    rank().expect("a rank")
}
fn tags(xs: &[u64]) -> u64 {
    let mut f = simcore::Fnv::default();
    xs.iter().for_each(|x| _ = f.u64(*x));
    f.0
}
fn outside() -> crate::access::UnderTest {
    crate::access::under_test(false)
}

/// Whether a datatype can be used; who uses one that cannot is to blame.
unsafe fn usable(t: MPI_Datatype) -> bool {
    let bad = if t.0.is_null() || t == RSMPI_DATATYPE_NULL {
        Some("no datatype (MPI_DATATYPE_NULL)")
    } else {
        let ts = TYPES.lock().unwrap();
        if ts.1.contains(&(t.0 as usize)) {
            Some("a datatype that was freed")
        } else if !ts.0.contains(&(t.0 as usize)) {
            let mut n = [0 as c_int; 4];
            PMPI_Type_get_envelope(t, &mut n[0], &mut n[1], &mut n[2], &mut n[3]);
            (n[3] != MPI_COMBINER_NAMED as c_int).then_some("a datatype that was not committed")
        } else {
            None
        }
    };
    if let Some(b) = bad {
        blame(verdict("datatype", format!("Rank {}: a message is described by {b}", me())));
    }
    bad.is_none()
}
unsafe fn size_of(t: MPI_Datatype) -> usize {
    let mut n = 0;
    PMPI_Type_size(t, &mut n);
    n as usize
}
unsafe fn extent(t: MPI_Datatype) -> isize {
    let (mut lb, mut e) = (0, 0);
    PMPI_Type_get_extent(t, &mut lb, &mut e);
    e
}
const CANONICAL: *const std::os::raw::c_char = c"external32".as_ptr();
unsafe fn pack(buf: *const c_void, count: c_int, t: MPI_Datatype) -> Vec<u8> {
    let (unlike, fragment) = net(|n| (n.plan.unlike, n.plan.fragment));
    let n = size_of(t) * count as usize;
    let mut out = vec![0u8; n + 64];
    let mut pos: isize = 0;
    let step = if fragment == 0 { count.max(1) } else { (fragment as c_int).min(count.max(1)) };
    let mut i = 0;
    while i < count {
        let k = step.min(count - i);
        let at = (buf as *const u8).offset(extent(t) * i as isize) as *const c_void;
        if unlike {
            PMPI_Pack_external(CANONICAL, at, k, t, out.as_mut_ptr() as *mut c_void, out.len() as isize, &mut pos);
        } else {
            let mut p = pos as c_int;
            PMPI_Pack(at, k, t, out.as_mut_ptr() as *mut c_void, out.len() as c_int, &mut p, RSMPI_COMM_WORLD);
            pos = p as isize;
        }
        i += k;
        if i < count {
            net(|n| bump(&mut n.faults, "message fragmented", 1));
            sched::yield_point(tags(&[1, pos as u64]));
        }
    }
    out.truncate(pos as usize);
    out
}
unsafe fn unpack(b: &[u8], buf: *mut c_void, count: c_int, t: MPI_Datatype) {
    let s = size_of(t);
    let n = b.len();
    if n > s * count as usize {
        return blame(verdict("truncated", format!("Rank {}: a message of {n} bytes arrives at a buffer for {count} elements of {s} bytes", me())));
    }
    if s == 0 || n == 0 {
        return;
    }
    if n % s != 0 {
        return blame(verdict("partial", format!("Rank {}: a message of {n} bytes is received as elements of {s} bytes", me())));
    }
    let (unlike, fragment) = net(|n| (n.plan.unlike, n.plan.fragment));
    let count = (n / s) as c_int;
    let step = if fragment == 0 { count } else { (fragment as c_int).min(count) };
    let mut pos: isize = 0;
    let mut i = 0;
    while i < count {
        let k = step.min(count - i);
        let at = (buf as *mut u8).offset(extent(t) * i as isize) as *mut c_void;
        if unlike {
            PMPI_Unpack_external(CANONICAL, b.as_ptr() as *const c_void, n as isize, &mut pos, at, k, t);
        } else {
            let mut p = pos as c_int;
            PMPI_Unpack(b.as_ptr() as *const c_void, n as c_int, &mut p, at, k, t, RSMPI_COMM_WORLD);
            pos = p as isize;
        }
        i += k;
        if i < count {
            sched::yield_point(tags(&[2, pos as u64]));
        }
    }
}
/// Appends the basic types an element consists of.
unsafe fn signature(t: MPI_Datatype, out: &mut Vec<usize>) {
    let (mut ni, mut na, mut nt, mut comb) = (0, 0, 0, 0);
    PMPI_Type_get_envelope(t, &mut ni, &mut na, &mut nt, &mut comb);
    let is = |c: u32| comb as u32 == c;
    if is(MPI_COMBINER_NAMED as u32) {
        return out.push(t.0 as usize);
    }
    let (mut ints, mut addrs, mut types) = (vec![0 as c_int; ni as usize + 1], vec![0 as MPI_Aint; na as usize + 1], vec![t; nt as usize]);
    PMPI_Type_get_contents(t, ni, na, nt, ints.as_mut_ptr(), addrs.as_mut_ptr(), types.as_mut_ptr());
    let n = ints[0] as usize;
    let sum = |x: &[c_int]| x.iter().map(|k| *k as usize).sum::<usize>();
    let blocks: Vec<usize> = if is(MPI_COMBINER_STRUCT as u32) {
        ints[1..1 + n].iter().map(|k| *k as usize).collect()
    } else if is(MPI_COMBINER_CONTIGUOUS as u32) {
        vec![n]
    } else if [MPI_COMBINER_INDEXED, MPI_COMBINER_HINDEXED].iter().any(|c| is(*c as u32)) {
        vec![sum(&ints[1..1 + n])]
    } else if [MPI_COMBINER_VECTOR, MPI_COMBINER_HVECTOR, MPI_COMBINER_INDEXED_BLOCK, MPI_COMBINER_HINDEXED_BLOCK].iter().any(|c| is(*c as u32)) {
        vec![n * ints[1] as usize]
    } else if is(MPI_COMBINER_SUBARRAY as u32) {
        vec![ints[1 + n..1 + 2 * n].iter().map(|k| *k as usize).product()]
    } else {
        vec![1]
    };
    for (k, u) in blocks.into_iter().zip(&mut types) {
        let mut one = vec![];
        signature(*u, &mut one);
        (0..k).for_each(|_| out.extend(&one));
        let mut c = [0 as c_int; 4];
        PMPI_Type_get_envelope(*u, &mut c[0], &mut c[1], &mut c[2], &mut c[3]);
        if c[3] as u32 != MPI_COMBINER_NAMED as u32 {
            PMPI_Type_free(u);
        }
    }
}
unsafe fn signatures(t: MPI_Datatype, count: usize) -> Vec<usize> {
    let mut one = vec![];
    signature(t, &mut one);
    one.iter().cycle().take(one.len() * count).copied().collect()
}
/// Hands a message to the network; returns its number.
unsafe fn post(buf: *const c_void, count: c_int, t: MPI_Datatype, dst: c_int, tag: c_int, ctx: u32, hold: bool) -> Option<u64> {
    if !usable(t) {
        return None;
    }
    let bytes = pack(buf, count, t);
    let unlike = net(|n| n.plan.unlike);
    let bad = EXPECT.with(|e| {
        e.borrow().as_ref().and_then(|e| {
            let want = if unlike { &e.canonical } else { &e.native };
            (*want != bytes).then(|| format!("{:02x?} instead of {:02x?}", short(&bytes), short(want)))
        })
    });
    if let Some(b) = bad {
        blame(verdict("wire", format!("Rank {}: the bytes sent are {b}{}", me(), if unlike { " (canonical representation)" } else { "" })));
    }
    let src = me();
    let signature = unlike.then(|| signatures(t, count as usize));
    let id = net(|n| {
        n.next += 1;
        let mut at = sched::now();
        if n.plan.delay > 0 && n.rng.chance(0.7) {
            at += 1 + n.rng.below(n.plan.delay as usize) as u64;
            bump(&mut n.faults, "message delayed", 1);
        }
        let last = n.last.entry((src, dst, ctx)).or_insert(0);
        at = at.max(*last);
        *last = at;
        if n.msgs.iter().any(|m| m.dst == dst && m.at > at) {
            bump(&mut n.faults, "message overtakes one of another sender", 1);
        }
        bump(&mut n.counts, "messages", 1);
        bump(&mut n.counts, "bytes sent", bytes.len() as u64);
        if unlike {
            bump(&mut n.counts, "messages between unlike nodes", 1);
        }
        if hold {
            n.waiting.insert(n.next);
        }
        n.msgs.push(Msg { id: n.next, src, dst, tag, ctx, bytes, signature, at });
        n.next
    });
    let f = net(|n| n.msgs.last().map(|m| fnv(&m.bytes)).unwrap_or(0));
    sched::notify(1000 + dst as u64);
    sched::yield_point(tags(&[3, src as u64, dst as u64, tag as u64, f]));
    Some(id)
}
fn short(b: &[u8]) -> &[u8] {
    &b[..b.len().min(48)]
}
/// Standard sends may or may not wait for their receiver.
fn may_hold() -> bool {
    net(|n| {
        let p = n.plan.rendezvous;
        let h = p > 0.0 && n.rng.chance(p);
        if h {
            bump(&mut n.faults, "standard send waits for its receiver", 1);
        }
        h
    })
}
fn await_receiver(id: u64) {
    while net(|n| n.waiting.contains(&id)) {
        sched::block(1 << 40 | id);
    }
}
/// Index of a matching message that has arrived, or when the first one will.
fn find(src: c_int, tag: c_int, ctx: u32) -> Result<usize, Option<u64>> {
    let (any_src, any_tag) = unsafe { (RSMPI_ANY_SOURCE, RSMPI_ANY_TAG) };
    let to = me();
    let now = sched::now();
    net(|n| {
        let mut heads: BTreeMap<c_int, usize> = BTreeMap::new();
        for (i, m) in n.msgs.iter().enumerate() {
            if m.dst == to && m.ctx == ctx && (src == any_src || m.src == src) && (tag == any_tag || m.tag == tag) {
                heads.entry(m.src).or_insert(i);
            }
        }
        let ready: Vec<usize> = heads.values().copied().filter(|i| n.msgs[*i].at <= now).collect();
        if ready.is_empty() {
            return Err(heads.values().map(|i| n.msgs[*i].at).min());
        }
        Ok(ready[if ready.len() > 1 { n.rng.below(ready.len()) } else { 0 }])
    })
}
fn take(i: usize) -> Msg {
    let (m, held) = net(|n| {
        let m = n.msgs.remove(i);
        let held = n.waiting.remove(&m.id);
        (m, held)
    });
    if held {
        sched::notify(1 << 40 | m.id);
    }
    sched::log(tags(&[4, m.id, me() as u64]));
    m
}
fn await_message(src: c_int, tag: c_int, ctx: u32) -> usize {
    loop {
        match find(src, tag, ctx) {
            Ok(i) => return i,
            Err(Some(t)) => sched::sleep(t.saturating_sub(sched::now()).max(1)),
            Err(None) => sched::block(1000 + me() as u64),
        }
    }
}
unsafe fn report(m: &Msg, status: *mut MPI_Status) {
    if !status.is_null() && status != RSMPI_STATUS_IGNORE {
        *status = std::mem::zeroed();
        (*status).MPI_SOURCE = m.src;
        (*status).MPI_TAG = m.tag;
        (*status)._ucount = m.bytes.len();
    }
}
unsafe fn deliver(m: Msg, buf: *mut c_void, count: c_int, t: MPI_Datatype, status: *mut MPI_Status) {
    report(&m, status);
    if usable(t) {
        if let Some(s) = m.signature.as_ref().filter(|s| !s.is_empty()) {
            if !signatures(t, count as usize).starts_with(s) {
                blame(verdict("signature", format!("Rank {}: a message of {} basic values is received as other basic types than it was sent as, which nodes of unlike architecture cannot convert", me(), s.len())));
            }
        }
        unpack(&m.bytes, buf, count, t);
    }
    sched::yield_point(tags(&[5, m.id]));
}

#[no_mangle]
unsafe extern "C" fn MPI_Comm_rank(c: MPI_Comm, r: *mut c_int) -> c_int {
    match rank() {
        Some(x) => *r = x,
        None => return PMPI_Comm_rank(c, r),
    }
    0
}
#[no_mangle]
unsafe extern "C" fn MPI_Comm_size(c: MPI_Comm, r: *mut c_int) -> c_int {
    if rank().is_none() {
        return PMPI_Comm_size(c, r);
    }
    let _o = outside();
    *r = net(|n| n.size);
    0
}
macro_rules! sends {
    ($($f:ident $hold:expr;)*) => { $(
        #[no_mangle]
        unsafe extern "C" fn $f(buf: *const c_void, count: c_int, t: MPI_Datatype, dst: c_int, tag: c_int, _c: MPI_Comm) -> c_int {
            let _o = outside();
            let hold = $hold;
            if let (Some(id), true) = (post(buf, count, t, dst, tag, 0, hold), hold) {
                await_receiver(id);
            }
            0
        }
    )* };
}
sends! { MPI_Send may_hold(); MPI_Ssend true; MPI_Bsend false; MPI_Rsend false; }

enum Req {
    Sent(Option<u64>),
    Recv { buf: *mut c_void, count: c_int, t: MPI_Datatype, src: c_int, tag: c_int },
    Matched { buf: *mut c_void, count: c_int, t: MPI_Datatype, msg: Box<Msg> },
}
unsafe fn request(r: Req, out: *mut MPI_Request) -> c_int {
    *out = MPI_Request(Box::into_raw(Box::new(r)) as _);
    0
}
macro_rules! isends {
    ($($f:ident $hold:expr;)*) => { $(
        #[no_mangle]
        unsafe extern "C" fn $f(buf: *const c_void, count: c_int, t: MPI_Datatype, dst: c_int, tag: c_int, _c: MPI_Comm, req: *mut MPI_Request) -> c_int {
            let _o = outside();
            let hold = $hold;
            let id = post(buf, count, t, dst, tag, 0, hold);
            request(Req::Sent(id.filter(|_| hold)), req)
        }
    )* };
}
isends! { MPI_Isend may_hold(); MPI_Issend true; MPI_Ibsend false; MPI_Irsend false; }

#[no_mangle]
unsafe extern "C" fn MPI_Recv(buf: *mut c_void, count: c_int, t: MPI_Datatype, src: c_int, tag: c_int, _c: MPI_Comm, st: *mut MPI_Status) -> c_int {
    let _o = outside();
    let m = take(await_message(src, tag, 0));
    deliver(m, buf, count, t, st);
    0
}
unsafe fn own(t: MPI_Datatype) -> MPI_Datatype {
    // A datatype may be freed while an operation that uses it is pending.
    let mut d = t;
    if usable(t) {
        PMPI_Type_dup(t, &mut d);
        let mut ts = TYPES.lock().unwrap();
        ts.1.remove(&(d.0 as usize));
        ts.0.insert(d.0 as usize);
    }
    d
}
unsafe fn disown(mut t: MPI_Datatype) {
    if usable(t) {
        TYPES.lock().unwrap().0.remove(&(t.0 as usize));
        PMPI_Type_free(&mut t);
    }
}
#[no_mangle]
unsafe extern "C" fn MPI_Irecv(buf: *mut c_void, count: c_int, t: MPI_Datatype, src: c_int, tag: c_int, _c: MPI_Comm, req: *mut MPI_Request) -> c_int {
    let _o = outside();
    sched::yield_point(6);
    request(Req::Recv { buf, count, t: own(t), src, tag }, req)
}
unsafe fn complete(req: *mut MPI_Request, st: *mut MPI_Status, wait: bool) -> bool {
    sched::yield_point(7);
    if *req == RSMPI_REQUEST_NULL {
        return true;
    }
    match &*((*req).0 as *mut Req) {
        Req::Sent(Some(id)) => {
            if !wait && net(|n| n.waiting.contains(id)) {
                return false;
            }
            await_receiver(*id);
        }
        Req::Recv { src, tag, .. } => {
            if !wait && find(*src, *tag, 0).is_err() {
                return false;
            }
        }
        _ => {}
    }
    let r = Box::from_raw((*req).0 as *mut Req);
    *req = RSMPI_REQUEST_NULL;
    match *r {
        Req::Sent(_) => {
            if st != RSMPI_STATUS_IGNORE {
                *st = std::mem::zeroed();
            }
        }
        Req::Recv { buf, count, t, src, tag } => {
            let m = take(await_message(src, tag, 0));
            deliver(m, buf, count, t, st);
            disown(t);
        }
        Req::Matched { buf, count, t, msg } => {
            deliver(*msg, buf, count, t, st);
            disown(t);
        }
    }
    true
}
#[no_mangle]
unsafe extern "C" fn MPI_Wait(req: *mut MPI_Request, st: *mut MPI_Status) -> c_int {
    let _o = outside();
    complete(req, st, true);
    0
}
#[no_mangle]
unsafe extern "C" fn MPI_Test(req: *mut MPI_Request, flag: *mut c_int, st: *mut MPI_Status) -> c_int {
    let _o = outside();
    *flag = complete(req, st, false) as c_int;
    0
}
#[no_mangle]
unsafe extern "C" fn MPI_Probe(src: c_int, tag: c_int, _c: MPI_Comm, st: *mut MPI_Status) -> c_int {
    let _o = outside();
    let i = await_message(src, tag, 0);
    NET.lock().unwrap().as_ref().map(|n| report(&n.msgs[i], st));
    sched::yield_point(8);
    0
}
#[no_mangle]
unsafe extern "C" fn MPI_Iprobe(src: c_int, tag: c_int, _c: MPI_Comm, flag: *mut c_int, st: *mut MPI_Status) -> c_int {
    let _o = outside();
    sched::yield_point(9);
    let f = find(src, tag, 0);
    *flag = f.is_ok() as c_int;
    if let Ok(i) = f {
        NET.lock().unwrap().as_ref().map(|n| report(&n.msgs[i], st));
    }
    0
}
unsafe fn matched(i: usize, msg: *mut MPI_Message, st: *mut MPI_Status) {
    let m = Box::new(take(i));
    report(&m, st);
    *msg = MPI_Message(Box::into_raw(m) as _);
    sched::yield_point(10);
}
#[no_mangle]
unsafe extern "C" fn MPI_Mprobe(src: c_int, tag: c_int, _c: MPI_Comm, msg: *mut MPI_Message, st: *mut MPI_Status) -> c_int {
    let _o = outside();
    matched(await_message(src, tag, 0), msg, st);
    0
}
#[no_mangle]
unsafe extern "C" fn MPI_Improbe(src: c_int, tag: c_int, _c: MPI_Comm, flag: *mut c_int, msg: *mut MPI_Message, st: *mut MPI_Status) -> c_int {
    let _o = outside();
    sched::yield_point(11);
    let f = find(src, tag, 0);
    *flag = f.is_ok() as c_int;
    if let Ok(i) = f {
        matched(i, msg, st);
    }
    0
}
#[no_mangle]
unsafe extern "C" fn MPI_Mrecv(buf: *mut c_void, count: c_int, t: MPI_Datatype, msg: *mut MPI_Message, st: *mut MPI_Status) -> c_int {
    let _o = outside();
    let m = Box::from_raw((*msg).0 as *mut Msg);
    *msg = RSMPI_MESSAGE_NULL;
    deliver(*m, buf, count, t, st);
    0
}
#[no_mangle]
unsafe extern "C" fn MPI_Imrecv(buf: *mut c_void, count: c_int, t: MPI_Datatype, msg: *mut MPI_Message, req: *mut MPI_Request) -> c_int {
    let _o = outside();
    let m = Box::from_raw((*msg).0 as *mut Msg);
    *msg = RSMPI_MESSAGE_NULL;
    request(Req::Matched { buf, count, t: own(t), msg: m }, req)
}
#[no_mangle]
unsafe extern "C" fn MPI_Sendrecv(
    sb: *const c_void, sc: c_int, st: MPI_Datatype, dst: c_int, stag: c_int, rb: *mut c_void, rc: c_int, rt: MPI_Datatype, src: c_int, rtag: c_int, _c: MPI_Comm,
    status: *mut MPI_Status,
) -> c_int {
    let _o = outside();
    post(sb, sc, st, dst, stag, 0, false);
    let m = take(await_message(src, rtag, 0));
    deliver(m, rb, rc, rt, status);
    0
}

// Collective operations, of messages of their own.
unsafe fn cast(p: *const c_void, elems: isize, t: MPI_Datatype) -> *mut c_void {
    (p as *mut u8).offset(elems * extent(t)) as *mut c_void
}
fn collective() -> (c_int, c_int, c_int) {
    let r = me();
    let (s, n) = net(|n| {
        n.seq[r as usize] += 1;
        bump(&mut n.counts, "parts in collective operations", 1);
        (n.seq[r as usize], n.size)
    });
    sched::yield_point(tags(&[12, r as u64]));
    (r, n, s)
}
unsafe fn own_part(sb: *const c_void, sc: c_int, st: MPI_Datatype, rb: *mut c_void, rc: c_int, rt: MPI_Datatype) {
    if usable(st) && usable(rt) {
        let b = pack(sb, sc, st);
        unpack(&b, rb, rc, rt);
    }
}
unsafe fn get(src: c_int, tag: c_int, buf: *mut c_void, count: c_int, t: MPI_Datatype) {
    let m = take(await_message(src, tag, 1));
    deliver(m, buf, count, t, null_mut());
}
fn order(n: c_int, but: c_int) -> Vec<c_int> {
    let mut o: Vec<c_int> = (0..n).filter(|i| *i != but).collect();
    net(|n| n.rng.shuffle(&mut o));
    o
}
#[no_mangle]
unsafe extern "C" fn MPI_Bcast(buf: *mut c_void, count: c_int, t: MPI_Datatype, root: c_int, _c: MPI_Comm) -> c_int {
    let _o = outside();
    let (me, n, s) = collective();
    if me == root {
        for d in order(n, me) {
            post(buf, count, t, d, s, 1, false);
        }
    } else {
        get(root, s, buf, count, t);
    }
    0
}
unsafe fn gather(sb: *const c_void, sc: c_int, st: MPI_Datatype, place: impl Fn(c_int) -> (isize, c_int), rb: *mut c_void, rt: MPI_Datatype, root: c_int) {
    let (me, n, s) = collective();
    if me != root {
        post(sb, sc, st, root, s, 1, false);
        return;
    }
    let (at, k) = place(me);
    own_part(sb, sc, st, cast(rb, at, rt), k, rt);
    for i in order(n, me) {
        let (at, k) = place(i);
        get(i, s, cast(rb, at, rt), k, rt);
    }
}
#[no_mangle]
unsafe extern "C" fn MPI_Gather(sb: *const c_void, sc: c_int, st: MPI_Datatype, rb: *mut c_void, rc: c_int, rt: MPI_Datatype, root: c_int, _c: MPI_Comm) -> c_int {
    let _o = outside();
    gather(sb, sc, st, |i| (i as isize * rc as isize, rc), rb, rt, root);
    0
}
#[no_mangle]
unsafe extern "C" fn MPI_Gatherv(
    sb: *const c_void, sc: c_int, st: MPI_Datatype, rb: *mut c_void, rcs: *const c_int, ds: *const c_int, rt: MPI_Datatype, root: c_int, _c: MPI_Comm,
) -> c_int {
    let _o = outside();
    gather(sb, sc, st, |i| (*ds.offset(i as isize) as isize, *rcs.offset(i as isize)), rb, rt, root);
    0
}
unsafe fn all_to_all(
    sb: *const c_void, st: MPI_Datatype, out: impl Fn(c_int) -> (isize, c_int), rb: *mut c_void, rt: MPI_Datatype, place: impl Fn(c_int) -> (isize, c_int),
) {
    let (me, n, s) = collective();
    for d in order(n, me) {
        let (at, k) = out(d);
        post(cast(sb, at, st), k, st, d, s, 1, false);
    }
    let ((a, k), (b, l)) = (out(me), place(me));
    own_part(cast(sb, a, st), k, st, cast(rb, b, rt), l, rt);
    for i in order(n, me) {
        let (at, k) = place(i);
        get(i, s, cast(rb, at, rt), k, rt);
    }
}
#[no_mangle]
unsafe extern "C" fn MPI_Allgather(sb: *const c_void, sc: c_int, st: MPI_Datatype, rb: *mut c_void, rc: c_int, rt: MPI_Datatype, _c: MPI_Comm) -> c_int {
    let _o = outside();
    all_to_all(sb, st, |_| (0, sc), rb, rt, |i| (i as isize * rc as isize, rc));
    0
}
#[no_mangle]
unsafe extern "C" fn MPI_Alltoall(sb: *const c_void, sc: c_int, st: MPI_Datatype, rb: *mut c_void, rc: c_int, rt: MPI_Datatype, _c: MPI_Comm) -> c_int {
    let _o = outside();
    all_to_all(sb, st, |i| (i as isize * sc as isize, sc), rb, rt, |i| (i as isize * rc as isize, rc));
    0
}
#[no_mangle]
unsafe extern "C" fn MPI_Scatter(sb: *const c_void, sc: c_int, st: MPI_Datatype, rb: *mut c_void, rc: c_int, rt: MPI_Datatype, root: c_int, _c: MPI_Comm) -> c_int {
    let _o = outside();
    let (me, n, s) = collective();
    if me == root {
        for d in order(n, me) {
            post(cast(sb, d as isize * sc as isize, st), sc, st, d, s, 1, false);
        }
        own_part(cast(sb, me as isize * sc as isize, st), sc, st, rb, rc, rt);
    } else {
        get(root, s, rb, rc, rt);
    }
    0
}

unsafe fn bytes_of(p: *const c_void, count: c_int, t: MPI_Datatype) -> Vec<u8> {
    std::slice::from_raw_parts(p as *const u8, extent(t) as usize * count as usize).to_vec()
}
/// Everybody's part, reduced in the order of the ranks up to `upto`, at whoever `wants` it.
unsafe fn reduce(sb: *const c_void, rb: *mut c_void, count: c_int, t: MPI_Datatype, op: MPI_Op, upto: impl Fn(c_int) -> c_int, wants: impl Fn(c_int) -> bool) {
    let (me, n, s) = collective();
    for d in order(n, me) {
        if wants(d) && me <= upto(d) {
            post(sb, count, t, d, s, 1, false);
        }
    }
    if !wants(me) || !usable(t) {
        return;
    }
    let mut parts: BTreeMap<c_int, Vec<u8>> = BTreeMap::new();
    parts.insert(me, bytes_of(sb, count, t));
    for i in order(n, me) {
        if i <= upto(me) {
            let mut b = vec![0u8; extent(t) as usize * count as usize + 8];
            get(i, s, b.as_mut_ptr() as *mut c_void, count, t);
            parts.insert(i, b);
        }
    }
    let mut acc: Option<Vec<u8>> = None;
    for (_, mut b) in parts {
        if let Some(a) = &acc {
            PMPI_Reduce_local(a.as_ptr() as *const c_void, b.as_mut_ptr() as *mut c_void, count, t, op);
        }
        acc = Some(b);
    }
    let n = extent(t) as usize * count as usize;
    std::ptr::copy_nonoverlapping(acc.unwrap().as_ptr(), rb as *mut u8, n);
}
#[no_mangle]
unsafe extern "C" fn MPI_Reduce(sb: *const c_void, rb: *mut c_void, count: c_int, t: MPI_Datatype, op: MPI_Op, root: c_int, _c: MPI_Comm) -> c_int {
    let _o = outside();
    reduce(sb, rb, count, t, op, |_| c_int::MAX, |r| r == root);
    0
}
#[no_mangle]
unsafe extern "C" fn MPI_Allreduce(sb: *const c_void, rb: *mut c_void, count: c_int, t: MPI_Datatype, op: MPI_Op, _c: MPI_Comm) -> c_int {
    let _o = outside();
    reduce(sb, rb, count, t, op, |_| c_int::MAX, |_| true);
    0
}
#[no_mangle]
unsafe extern "C" fn MPI_Scan(sb: *const c_void, rb: *mut c_void, count: c_int, t: MPI_Datatype, op: MPI_Op, _c: MPI_Comm) -> c_int {
    let _o = outside();
    reduce(sb, rb, count, t, op, |r| r, |_| true);
    0
}

// Datatypes: the library's, but tasks may switch before and after, and their ends are noted.
fn point(tag: u64) {
    if rank().is_some() {
        sched::yield_point(tag);
    }
}
unsafe fn made(new: *mut MPI_Datatype, committed: bool) {
    let mut ts = TYPES.lock().unwrap();
    ts.1.remove(&((*new).0 as usize));
    ts.0.remove(&((*new).0 as usize));
    if committed {
        ts.0.insert((*new).0 as usize);
    }
    drop(ts);
    if rank().is_some() {
        net(|n| bump(&mut n.counts, "datatypes made", 1));
    }
    point(21);
}
macro_rules! makers {
    ($($f:ident = $p:ident ($($a:ident: $t:ty),*);)*) => { $(
        #[no_mangle]
        unsafe extern "C" fn $f($($a: $t,)* new: *mut MPI_Datatype) -> c_int {
            let _o = outside();
            point(20);
            let r = $p($($a,)* new);
            made(new, false);
            r
        }
    )* };
}
type Ints = *const c_int;
type Aints = *const MPI_Aint;
makers! {
    MPI_Type_contiguous = PMPI_Type_contiguous(n: c_int, t: MPI_Datatype);
    MPI_Type_vector = PMPI_Type_vector(n: c_int, b: c_int, s: c_int, t: MPI_Datatype);
    MPI_Type_create_hvector = PMPI_Type_create_hvector(n: c_int, b: c_int, s: MPI_Aint, t: MPI_Datatype);
    MPI_Type_indexed = PMPI_Type_indexed(n: c_int, b: Ints, d: Ints, t: MPI_Datatype);
    MPI_Type_create_hindexed = PMPI_Type_create_hindexed(n: c_int, b: Ints, d: Aints, t: MPI_Datatype);
    MPI_Type_create_indexed_block = PMPI_Type_create_indexed_block(n: c_int, b: c_int, d: Ints, t: MPI_Datatype);
    MPI_Type_create_hindexed_block = PMPI_Type_create_hindexed_block(n: c_int, b: c_int, d: Aints, t: MPI_Datatype);
    MPI_Type_create_struct = PMPI_Type_create_struct(n: c_int, b: Ints, d: Aints, t: *const MPI_Datatype);
    MPI_Type_create_resized = PMPI_Type_create_resized(t: MPI_Datatype, lb: MPI_Aint, e: MPI_Aint);
    MPI_Type_create_subarray = PMPI_Type_create_subarray(n: c_int, a: Ints, b: Ints, d: Ints, o: c_int, t: MPI_Datatype);
}
#[no_mangle]
unsafe extern "C" fn MPI_Type_dup(t: MPI_Datatype, new: *mut MPI_Datatype) -> c_int {
    let _o = outside();
    point(22);
    let r = PMPI_Type_dup(t, new);
    let c = TYPES.lock().unwrap().0.contains(&(t.0 as usize));
    let mut n = [0 as c_int; 4];
    PMPI_Type_get_envelope(t, &mut n[0], &mut n[1], &mut n[2], &mut n[3]);
    made(new, c || n[3] == MPI_COMBINER_NAMED as c_int);
    r
}
#[no_mangle]
unsafe extern "C" fn MPI_Type_commit(t: *mut MPI_Datatype) -> c_int {
    let _o = outside();
    point(23);
    let r = PMPI_Type_commit(t);
    TYPES.lock().unwrap().0.insert((*t).0 as usize);
    point(24);
    r
}
#[no_mangle]
unsafe extern "C" fn MPI_Type_free(t: *mut MPI_Datatype) -> c_int {
    let _o = outside();
    point(25);
    {
        let mut ts = TYPES.lock().unwrap();
        ts.0.remove(&((*t).0 as usize));
        ts.1.insert((*t).0 as usize);
    }
    if rank().is_some() {
        net(|n| bump(&mut n.counts, "datatypes freed", 1));
    }
    let r = PMPI_Type_free(t);
    point(26);
    r
}
#[no_mangle]
unsafe extern "C" fn MPI_Pack(b: *const c_void, n: c_int, t: MPI_Datatype, out: *mut c_void, size: c_int, pos: *mut c_int, c: MPI_Comm) -> c_int {
    let _o = outside();
    point(27);
    if rank().is_some() && !usable(t) {
        return 1;
    }
    PMPI_Pack(b, n, t, out, size, pos, c)
}
#[no_mangle]
unsafe extern "C" fn MPI_Unpack(b: *const c_void, size: c_int, pos: *mut c_int, out: *mut c_void, n: c_int, t: MPI_Datatype, c: MPI_Comm) -> c_int {
    let _o = outside();
    point(28);
    if rank().is_some() && !usable(t) {
        return 1;
    }
    PMPI_Unpack(b, size, pos, out, n, t, c)
}
/// The functions above must be in the program even if only rsmpi uses them.
pub fn keep() -> usize {
    addr_of!(NET) as usize
}
