//! Common parts of all simulators: seeded randomness, evidence, replay files,
//! minimisation, and the deterministic task scheduler.
pub mod evidence;
pub mod minimise;
pub mod proc;
pub mod rng;
pub mod sched;
pub use evidence::{Ctx, Json};
pub use rng::Rng;

/// FNV-1a, for fingerprints of event logs and states (never a std hasher: those are randomly seeded).
#[derive(Clone, Copy)]
pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Fnv {
    pub fn bytes(&mut self, b: &[u8]) -> &mut Self {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        self
    }
    pub fn u64(&mut self, x: u64) -> &mut Self {
        self.bytes(&x.to_le_bytes())
    }
}
pub fn fnv(b: &[u8]) -> u64 {
    Fnv::default().bytes(b).0
}
