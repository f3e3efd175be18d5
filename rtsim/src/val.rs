use serde::{Deserialize, Serialize};
use simcore::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Storage {
    F64,
    F32,
    Vec2,
    DVec2,
    Vec3,
    DVec3,
}
impl Storage {
    pub fn len(self) -> usize {
        match self {
            Storage::F64 | Storage::F32 => 1,
            Storage::Vec2 | Storage::DVec2 => 2,
            _ => 3,
        }
    }
    pub fn single(self) -> bool {
        matches!(self, Storage::F32 | Storage::Vec2 | Storage::Vec3)
    }
    pub fn scalar(self) -> bool {
        self.len() == 1
    }
}
/// A value by its bits (those of f32 in the lower half).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Val {
    pub st: Storage,
    pub bits: [u64; 3],
}
impl Val {
    pub fn new(st: Storage, xs: &[f64]) -> Val {
        let mut bits = [0; 3];
        for (b, x) in bits.iter_mut().zip(xs) {
            *b = if st.single() { (*x as f32).to_bits() as u64 } else { x.to_bits() };
        }
        Val { st, bits }
    }
    pub fn f64(&self, i: usize) -> f64 {
        if self.st.single() {
            self.f32(i) as f64
        } else {
            f64::from_bits(self.bits[i])
        }
    }
    pub fn f32(&self, i: usize) -> f32 {
        f32::from_bits(self.bits[i] as u32)
    }
    pub fn raw(&self, i: usize) -> f64 {
        f64::from_bits(self.bits[i])
    }
    /// Bit for bit; any NaN is a NaN.
    pub fn same(&self, o: &Val) -> bool {
        self.st == o.st && (0..self.st.len()).all(|i| self.bits[i] == o.bits[i] || self.f64(i).is_nan() && o.f64(i).is_nan())
    }
    pub fn show(&self) -> String {
        (0..self.st.len()).map(|i| format!("{:?}", self.f64(i))).collect::<Vec<_>>().join(" ")
    }
}
pub fn random_bits(rng: &mut Rng, single: bool) -> u64 {
    if single {
        (match rng.below(12) {
            0 => *rng.pick(&[0.0f32, -0.0, 1.0, -1.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, -1e-45, f32::EPSILON]),
            1 => *rng.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 16777216.0, 16777215.0]),
            2 | 3 => rng.range(-1000, 1000) as f32,
            4 => (rng.unit() * 1e3) as f32,
            5 => (rng.range(-99999, 99999) as f32) / 100.0,
            6 => f32::from_bits(rng.next() as u32 & 0x807fffff),
            _ => f32::from_bits(rng.next() as u32),
        })
        .to_bits() as u64
    } else {
        (match rng.below(12) {
            0 => *rng.pick(&[0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::EPSILON]),
            1 => *rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 9007199254740992.0, 9007199254740993.0, 1e21, 1e22, 1e16]),
            2 | 3 => rng.range(-1000, 1000) as f64,
            4 => rng.unit() * 1e3,
            5 => (rng.range(-99999, 99999) as f64) / 100.0,
            6 => f64::from_bits(rng.next() & 0x800fffffffffffff),
            _ => f64::from_bits(rng.next()),
        })
        .to_bits()
    }
}
impl Val {
    pub fn random(rng: &mut Rng, st: Storage) -> Val {
        let mut bits = [0; 3];
        for b in bits.iter_mut().take(st.len()) {
            *b = random_bits(rng, st.single());
        }
        // Components that have something in common.
        if st.len() > 1 && rng.chance(0.15) {
            let (from, to) = (rng.below(st.len()), rng.below(st.len()));
            bits[to] = bits[from];
            if rng.chance(0.3) {
                bits[to] ^= 1 << if st.single() { 31 } else { 63 };
            }
        }
        Val { st, bits }
    }
}
