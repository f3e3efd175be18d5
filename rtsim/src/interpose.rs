//! System calls std makes through libc's `syscall`: the locks of the code under test are the scheduler's business.
use simcore::sched;

pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    core::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
    );
    r
}
extern "C" {
    fn __errno_location() -> *mut i32;
}
fn answer(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        unsafe { *__errno_location() = -r as i32 };
        -1
    } else {
        r
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    const FUTEX: i64 = 202;
    if n == FUTEX {
        let _o = crate::access::under_test(false);
        if let Some(r) = sched::futex(a as *const u32, b as i32, c as u32) {
            return answer(match r {
                Ok(r) => r,
                Err(e) => -(e as i64),
            });
        }
    }
    answer(raw(n, a, b, c, d, e, f))
}
