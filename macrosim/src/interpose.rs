//! The operating system as the macro sees it. Exported, so that the macro's own copy of std finds these first.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

static KEY: AtomicU64 = AtomicU64::new(1);
static CALLS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK: AtomicU64 = AtomicU64::new(0);
pub static RANDOM_CALLS: AtomicU64 = AtomicU64::new(0);

pub fn set_key(k: u64) {
    KEY.store(k, SeqCst);
    CALLS.store(0, SeqCst);
    CLOCK.store(k.wrapping_mul(0x9e3779b97f4a7c15) >> 24, SeqCst);
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    RANDOM_CALLS.fetch_add(1, SeqCst);
    let n = CALLS.fetch_add(1, SeqCst);
    let mut r = simcore::Rng::derive(KEY.load(SeqCst), "getrandom", n);
    for i in 0..len {
        *buf.add(i) = r.next() as u8;
    }
    len as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_clk: i32, ts: *mut [i64; 2]) -> i32 {
    let t = CLOCK.fetch_add(12345, SeqCst);
    *ts = [1_700_000_000 + (t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64];
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut [i64; 2], _tz: *mut u8) -> i32 {
    let t = CLOCK.fetch_add(12345, SeqCst);
    *tv = [1_700_000_000 + (t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64 / 1000];
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let x = 1_700_000_000 + (CLOCK.fetch_add(12345, SeqCst) / 1_000_000_000) as i64;
    if !t.is_null() {
        *t = x;
    }
    x
}
#[no_mangle]
pub extern "C" fn getpid() -> i32 {
    (KEY.load(SeqCst) % 30000) as i32 + 2
}
