//! Preemption at accesses to shared memory: see access.c.
extern "C" {
    fn rtsim_under_test(on: i32) -> i32;
}
pub struct UnderTest(i32);
/// Until dropped, this thread runs the code under test (or, on = false, the simulator).
pub fn under_test(on: bool) -> UnderTest {
    UnderTest(unsafe { rtsim_under_test(on as i32) })
}
impl Drop for UnderTest {
    fn drop(&mut self) {
        unsafe { rtsim_under_test(self.0) };
    }
}
#[no_mangle]
extern "C" fn rtsim_access(tag: u64) {
    simcore::sched::access(tag);
}
