//! The types of the code under test that the simulation exercises, behind tables of functions.
use crate::ops::{Fm, RandHow};
use crate::seams::{SimRng, SimSink, SourceFailed};
use crate::tlv;
use crate::val::{Storage, Val};
use crate::weird::Weird;
use rand::distributions::uniform::{SampleUniform, UniformSampler};
use rand::distributions::{Distribution, Uniform};
use rand::Rng as _;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::BTreeMap;
use std::fmt;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub trait Quant: Sized + Clone + fmt::Debug + Serialize + DeserializeOwned {
    type Bare: fmt::Display;
    const ST: Storage;
    fn mk(v: &Val) -> Self;
    fn val(&self) -> Val;
    fn bare(v: &Val) -> Self::Bare;
}
pub fn bare_f64(v: &Val) -> f64 {
    v.raw(0)
}
pub fn bare_f32(v: &Val) -> f32 {
    v.f32(0)
}
pub fn bits(st: Storage, b: &[u64]) -> Val {
    let mut bits = [0; 3];
    bits[..b.len()].copy_from_slice(b);
    Val { st, bits }
}

macro_rules! quant_impls {
    ($m:ident, $q:ident, $d:ident) => {
        quant_impls!(@one $m, $q, $d, f64, F64, |v: &crate::val::Val| v.raw(0), |x: f64| crate::probe::bits(crate::val::Storage::F64, &[x.to_bits()]));
        quant_impls!(@one $m, $q, $d, f32, F32, |v: &crate::val::Val| v.f32(0), |x: f32| crate::probe::bits(crate::val::Storage::F32, &[x.to_bits() as u64]));
        quant_impls!(@one $m, $q, $d, glam::Vec2, Vec2, |v: &crate::val::Val| glam::Vec2::new(v.f32(0), v.f32(1)),
            |x: glam::Vec2| crate::probe::bits(crate::val::Storage::Vec2, &[x.x.to_bits() as u64, x.y.to_bits() as u64]));
        quant_impls!(@one $m, $q, $d, glam::DVec2, DVec2, |v: &crate::val::Val| glam::DVec2::new(v.raw(0), v.raw(1)),
            |x: glam::DVec2| crate::probe::bits(crate::val::Storage::DVec2, &[x.x.to_bits(), x.y.to_bits()]));
        quant_impls!(@one $m, $q, $d, glam::Vec3, Vec3, |v: &crate::val::Val| glam::Vec3::new(v.f32(0), v.f32(1), v.f32(2)),
            |x: glam::Vec3| crate::probe::bits(crate::val::Storage::Vec3, &[x.x.to_bits() as u64, x.y.to_bits() as u64, x.z.to_bits() as u64]));
        quant_impls!(@one $m, $q, $d, glam::DVec3, DVec3, |v: &crate::val::Val| glam::DVec3::new(v.raw(0), v.raw(1), v.raw(2)),
            |x: glam::DVec3| crate::probe::bits(crate::val::Storage::DVec3, &[x.x.to_bits(), x.y.to_bits(), x.z.to_bits()]));
    };
    (@one $m:ident, $q:ident, $d:ident, $t:ty, $st:ident, $from:expr, $to:expr) => {
        impl<const D: $m::$d> crate::probe::Quant for $m::$q<$t, D> {
            type Bare = $t;
            const ST: crate::val::Storage = crate::val::Storage::$st;
            fn mk(v: &crate::val::Val) -> Self {
                Self::new_unchecked(($from)(v))
            }
            fn val(&self) -> crate::val::Val {
                ($to)(*self.value_unchecked_ref())
            }
            fn bare(v: &crate::val::Val) -> $t {
                ($from)(v)
            }
        }
    };
}
pub(crate) use quant_impls;

type E = String;
pub type JsonDe<'a> = serde_json::Deserializer<serde_json::de::IoRead<&'a mut dyn std::io::Read>>;
pub struct Table {
    pub name: String,
    pub system: usize,
    pub dim: String,
    pub st: Storage,
    pub fmt: fn(&Val, usize, &mut SimSink) -> fmt::Result,
    pub ser: fn(&Val, Fm, &mut dyn std::io::Write) -> Result<(), E>,
    pub to_text: fn(&Val, Fm) -> Result<String, E>,
    pub json: for<'a, 'b> fn(&'a mut JsonDe<'b>) -> Result<Val, E>,
    pub yaml: for<'a> fn(serde_yaml::Deserializer<'a>) -> Result<Val, E>,
    pub tlv: fn(&mut tlv::Source<'_>) -> Result<Val, E>,
    pub from_text: fn(&[u8], Fm) -> Result<Val, E>,
    pub rand: Option<RandFn>,
}
pub type RandFn = fn(RandHow, &Val, &Val, u32, &mut SimRng) -> Vec<Option<Val>>;
pub struct WeirdTable {
    pub name: String,
    pub system: usize,
    pub dim: String,
    pub fmt: Box<dyn Fn(Weird, usize, &mut SimSink) -> fmt::Result + Send + Sync>,
}
#[derive(Default)]
pub struct Registry {
    pub tables: Vec<Table>,
    pub weird: Vec<WeirdTable>,
    pub by: BTreeMap<String, usize>,
    pub weird_by: BTreeMap<String, usize>,
}
fn text<X: fmt::Display>(e: X) -> E {
    e.to_string()
}
fn json_slice<Q: Quant>(b: &[u8]) -> Result<Val, E> {
    serde_json::from_slice::<Q>(b).map(|q| q.val()).map_err(text)
}
impl Registry {
    fn table<Q: Quant>(k: usize, dim: &str) -> Table {
        Table {
            name: format!("s{k}/{:?}/{dim}", Q::ST),
            system: k,
            dim: dim.into(),
            st: Q::ST,
            fmt: |v, spec, s| spec_fmt(&Q::mk(v), spec, s),
            ser: |v, f, w| {
                let q = Q::mk(v);
                match f {
                    Fm::Json => serde_json::to_writer(w, &q).map_err(text),
                    Fm::JsonPretty => serde_json::to_writer_pretty(w, &q).map_err(text),
                    Fm::Yaml => serde_yaml::to_writer(w, &q).map_err(text),
                    Fm::Tlv(m) => tlv::write(w, &q, m & 1 == 0).map_err(text),
                }
            },
            to_text: |v, f| {
                let q = Q::mk(v);
                match f {
                    Fm::Json => serde_json::to_string(&q).map_err(text),
                    Fm::JsonPretty => serde_json::to_string_pretty(&q).map_err(text),
                    Fm::Yaml => serde_yaml::to_string(&q).map_err(text),
                    Fm::Tlv(_) => serde_json::to_value(&q).map_err(text).map(|v| v.to_string()),
                }
            },
            json: |d| Q::deserialize(d).map(|q| q.val()).map_err(text),
            yaml: |d| Q::deserialize(d).map(|q| q.val()).map_err(text),
            tlv: |d| Q::deserialize(d).map(|q| q.val()).map_err(text),
            from_text: |b, f| match f {
                Fm::Json => json_slice::<Q>(b),
                Fm::JsonPretty => serde_json::from_str::<Q>(std::str::from_utf8(b).map_err(text)?).map(|q| q.val()).map_err(text),
                Fm::Yaml => serde_yaml::from_slice::<Q>(b).map(|q| q.val()).map_err(text),
                Fm::Tlv(_) => serde_json::from_slice::<serde_json::Value>(b)
                    .map_err(text)
                    .and_then(|v| serde_json::from_value::<Q>(v).map(|q| q.val()).map_err(text)),
            },
            rand: None,
        }
    }
    fn put(&mut self, t: Table) {
        self.by.insert(t.name.clone(), self.tables.len());
        self.tables.push(t);
    }
    pub fn add<Q: Quant>(&mut self, k: usize, dim: &str) {
        self.put(Self::table::<Q>(k, dim));
    }
    pub fn add_rand<Q>(&mut self, k: usize, dim: &str)
    where
        Q: Quant + SampleUniform + PartialOrd + Copy,
        Q::Sampler: Clone,
    {
        let mut t = Self::table::<Q>(k, dim);
        t.rand = Some(|h, lo, hi, n, r| sample::<Q>(h, Q::mk(lo), Q::mk(hi), n, r, |q| q.val()));
        self.put(t);
    }
    pub fn add_weird<Q: fmt::Debug>(&mut self, k: usize, dim: &str, make: fn(Weird) -> Q)
    where
        Q: 'static,
    {
        let name = format!("s{k}/Weird/{dim}");
        self.weird_by.insert(name.clone(), self.weird.len());
        let fmt = Box::new(move |w: Weird, spec: usize, s: &mut SimSink| spec_fmt(&make(w), spec, s));
        self.weird.push(WeirdTable { name, system: k, dim: dim.into(), fmt });
    }
}

/// Draws `n` values; None where the source of randomness gave up.
pub fn sample<T>(h: RandHow, lo: T, hi: T, n: u32, r: &mut SimRng, f: impl Fn(&T) -> Val) -> Vec<Option<Val>>
where
    T: SampleUniform + PartialOrd + Copy,
    T::Sampler: Clone,
{
    fn attempt<T>(r: &mut SimRng, g: impl FnOnce(&mut SimRng) -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(|| g(r))) {
            Ok(x) => Some(x),
            Err(p) if p.is::<SourceFailed>() => None,
            Err(p) => resume_unwind(p),
        }
    }
    let mut out = vec![];
    macro_rules! draws {
        (|$r:ident| $e:expr) => {
            for _ in 0..n {
                out.push(attempt(r, |$r| -> T { $e }).map(|x| f(&x)));
            }
        };
    }
    match h {
        RandHow::Range => draws!(|r| r.gen_range(lo..hi)),
        RandHow::RangeInclusive => draws!(|r| r.gen_range(lo..=hi)),
        RandHow::New => {
            let u = Uniform::new(lo, hi);
            draws!(|r| u.sample(r))
        }
        RandHow::NewInclusive => {
            let u = Uniform::new_inclusive(lo, hi);
            draws!(|r| r.sample(&u))
        }
        RandHow::FromRange => {
            let u = Uniform::from(lo..hi);
            let c = u.clone();
            let mut k = 0;
            draws!(|r| {
                k += 1;
                if k % 2 == 0 { u.sample(r) } else { c.sample(r) }
            })
        }
        RandHow::FromRangeInclusive => {
            let u = Uniform::from(lo..=hi);
            draws!(|r| (&u).sample_iter(r).next().unwrap())
        }
        RandHow::Sampler => {
            let u = T::Sampler::new(&lo, &hi);
            draws!(|r| u.sample(r))
        }
        RandHow::SamplerInclusive => {
            let u = T::Sampler::new_inclusive(&lo, &hi);
            draws!(|r| u.sample(r))
        }
        RandHow::Single => draws!(|r| T::Sampler::sample_single(lo, hi, r)),
        RandHow::SingleInclusive => draws!(|r| T::Sampler::sample_single_inclusive(lo, hi, r)),
    }
    out
}

/// The format strings formatting is tried with; the same for a value that is shown with Debug or Display.
macro_rules! specs {
    ($($n:literal => $d:literal, $p:literal);* $(;)?) => {
        pub const SPECS: &[&str] = &[$($d),*];
        pub fn spec_fmt<T: fmt::Debug>(x: &T, spec: usize, s: &mut dyn fmt::Write) -> fmt::Result {
            match spec {
                $($n => write!(s, $d, x),)*
                _ => s.write_fmt(format_args!("{:?}", x)),
            }
        }
        pub fn spec_display<T: fmt::Display>(x: &T, spec: usize, s: &mut dyn fmt::Write) -> fmt::Result {
            match spec {
                $($n => write!(s, $p, x),)*
                _ => s.write_fmt(format_args!("{}", x)),
            }
        }
    };
}
specs! {
    0 => "{:?}", "{}";
    1 => "{:.3?}", "{:.3}";
    2 => "{:10?}", "{:10}";
    3 => "{:<14?}", "{:<14}";
    4 => "{:^+17.2?}", "{:^+17.2}";
    5 => "{:#?}", "{:#}";
    6 => "{:012.2?}", "{:012.2}";
    7 => "{:+?}", "{:+}";
    8 => "{:*>20?}", "{:*>20}";
    9 => "{:.0?}", "{:.0}";
    10 => "{:é^25?}", "{:é^25}";
    11 => "{:.17?}", "{:.17}";
    12 => "{:#?}", "{:#}";
    13 => "{:-^30.1?}", "{:-^30.1}";
}
