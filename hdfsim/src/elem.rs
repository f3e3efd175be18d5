//! Everything that can be an element of a dataset, as the floats it is made of.
use hdf5::types::VarLenArray;
use hdf5::H5Type;

/// `shape`: for each of its floats whether it is an f64; `make` and `floats` use their bits.
pub trait Elem: H5Type + Clone + Send + Sync + 'static {
    fn shape() -> Vec<bool>;
    fn make(b: &[u64]) -> Self;
    fn floats(&self, out: &mut Vec<u64>);
    /// Names of the fields of a structure.
    fn fields() -> Vec<&'static str> {
        vec![]
    }
    /// Where its bytes mean something, when it begins at `at`.
    fn used(at: usize, out: &mut Vec<(usize, usize)>) {
        out.push((at, at + std::mem::size_of::<Self>()));
    }
}
/// What is between the fields must not depend on what happened to be in memory: it would end up in files.
pub fn clear_padding<E: Elem>(v: &mut [E]) {
    let mut used = vec![];
    E::used(0, &mut used);
    used.sort();
    let size = std::mem::size_of::<E>();
    for x in v {
        let b = x as *mut E as *mut u8;
        let mut at = 0;
        for (from, to) in used.iter().copied().chain([(size, size)]) {
            if from > at {
                // Between fields.
                unsafe { std::ptr::write_bytes(b.add(at), 0, from - at) };
            }
            at = at.max(to);
        }
    }
}
impl Elem for f32 {
    fn shape() -> Vec<bool> {
        vec![false]
    }
    fn make(b: &[u64]) -> Self {
        f32::from_bits(b[0] as u32)
    }
    fn floats(&self, out: &mut Vec<u64>) {
        out.push(self.to_bits() as u64)
    }
}
impl Elem for f64 {
    fn shape() -> Vec<bool> {
        vec![true]
    }
    fn make(b: &[u64]) -> Self {
        f64::from_bits(b[0])
    }
    fn floats(&self, out: &mut Vec<u64>) {
        out.push(self.to_bits())
    }
}
impl<E: Elem, const N: usize> Elem for [E; N] {
    fn shape() -> Vec<bool> {
        E::shape().repeat(N)
    }
    fn make(b: &[u64]) -> Self {
        let n = E::shape().len();
        std::array::from_fn(|i| E::make(&b[i * n..]))
    }
    fn floats(&self, out: &mut Vec<u64>) {
        self.iter().for_each(|x| x.floats(out))
    }
    fn used(at: usize, out: &mut Vec<(usize, usize)>) {
        (0..N).for_each(|i| E::used(at + i * std::mem::size_of::<E>(), out))
    }
}
/// As many as the first of the floats says, at most three.
impl<E: Elem + Copy> Elem for VarLenArray<E> {
    fn shape() -> Vec<bool> {
        let mut s = vec![true];
        s.extend(E::shape().repeat(3));
        s
    }
    fn make(b: &[u64]) -> Self {
        let n = E::shape().len();
        let v: Vec<E> = (0..b[0] as usize % 4).map(|i| E::make(&b[1 + i * n..])).collect();
        VarLenArray::from_slice(&v)
    }
    fn floats(&self, out: &mut Vec<u64>) {
        out.push(self.len() as u64);
        let at = out.len();
        self.iter().take(3).for_each(|x| x.floats(out));
        out.resize(at + 3 * E::shape().len(), 0);
    }
}
/// Storage types.
pub trait Parts: Copy + 'static {
    fn shape() -> Vec<bool>;
    fn make(b: &[u64]) -> Self;
    fn floats(&self, out: &mut Vec<u64>);
}
macro_rules! vec_parts {
    ($t:ty, $f:ident, $($x:ident $i:tt),*) => {
        impl Parts for $t {
            fn shape() -> Vec<bool> {
                vec![$( { let _ = $i; <$f as Elem>::shape()[0] } ),*]
            }
            fn make(b: &[u64]) -> Self {
                <$t>::new($(<$f as Elem>::make(&b[$i..])),*)
            }
            fn floats(&self, out: &mut Vec<u64>) {
                $( Elem::floats(&self.$x, out); )*
            }
        }
    };
}
vec_parts!(glam::Vec2, f32, x 0, y 1);
vec_parts!(glam::DVec2, f64, x 0, y 1);
vec_parts!(glam::Vec3, f32, x 0, y 1, z 2);
vec_parts!(glam::DVec3, f64, x 0, y 1, z 2);
macro_rules! float_parts {
    ($f:ident) => {
        impl Parts for $f {
            fn shape() -> Vec<bool> {
                <$f as Elem>::shape()
            }
            fn make(b: &[u64]) -> Self {
                <$f as Elem>::make(b)
            }
            fn floats(&self, out: &mut Vec<u64>) {
                Elem::floats(self, out)
            }
        }
    };
}
float_parts!(f32);
float_parts!(f64);
macro_rules! elems {
    ($m:ident, $q:ident, $d:ident) => {
        elems!(@one $m, $q, $d, f32);
        elems!(@one $m, $q, $d, f64);
        elems!(@one $m, $q, $d, glam::Vec2);
        elems!(@one $m, $q, $d, glam::DVec2);
        elems!(@one $m, $q, $d, glam::Vec3);
        elems!(@one $m, $q, $d, glam::DVec3);
    };
    (@one $m:ident, $q:ident, $d:ident, $t:ty) => {
        impl<const D: $m::$d> crate::elem::Elem for $m::$q<$t, D> {
            fn shape() -> Vec<bool> {
                <$t as crate::elem::Parts>::shape()
            }
            fn make(b: &[u64]) -> Self {
                Self::new_unchecked(<$t as crate::elem::Parts>::make(b))
            }
            fn floats(&self, out: &mut Vec<u64>) {
                crate::elem::Parts::floats(self.value_unchecked_ref(), out)
            }
        }
    };
}
pub(crate) use elems;
/// Structures, field by field.
macro_rules! structure {
    ($(#[$a:meta])* $n:ident { $($f:ident: $t:ty),* $(,)? }) => {
        $(#[$a])*
        #[derive(Clone, Copy, hdf5::H5Type)]
        pub struct $n {
            $( $f: $t, )*
        }
        impl crate::elem::Elem for $n {
            fn shape() -> Vec<bool> {
                let mut s = vec![];
                $( s.extend(<$t as crate::elem::Elem>::shape()); )*
                s
            }
            fn make(b: &[u64]) -> Self {
                let mut at = 0;
                $(
                    let $f = <$t as crate::elem::Elem>::make(&b[at..]);
                    at += <$t as crate::elem::Elem>::shape().len();
                )*
                let _ = at;
                $n { $($f),* }
            }
            fn floats(&self, out: &mut Vec<u64>) {
                $( let x = self.$f; crate::elem::Elem::floats(&x, out); )*
            }
            fn fields() -> Vec<&'static str> {
                vec![$( stringify!($f) ),*]
            }
            fn used(at: usize, out: &mut Vec<(usize, usize)>) {
                $( <$t as crate::elem::Elem>::used(at + std::mem::offset_of!($n, $f), out); )*
            }
        }
    };
}
pub(crate) use structure;
macro_rules! particle {
    ($a:ident, $b:ident) => {
        crate::elem::structure! {
            #[repr(C)]
            Particle {
                weight: $a<f32>,
                position: $a<glam::DVec3>,
                velocity: $b<glam::Vec2>,
                mass: $b<f64>,
                history: [$a<glam::DVec2>; 2],
                plain: f32,
                spin: $b<glam::Vec3>,
            }
        }
        crate::elem::structure! {
            #[repr(packed)]
            Packed {
                weight: $b<f32>,
                mass: $a<f64>,
                spin: $a<glam::Vec3>,
                position: $b<glam::DVec2>,
            }
        }
        // Part of the fields of a Particle.
        crate::elem::structure! {
            #[repr(C)]
            Part {
                mass: $b<f64>,
                weight: $b<f32>,
            }
        }
        crate::elem::structure! {
            #[repr(transparent)]
            Wrapper {
                inner: $a<glam::DVec3>,
            }
        }
        crate::elem::structure! {
            #[repr(C)]
            Nested {
                part: Part,
                wrapper: Wrapper,
                pair: [$b<f32>; 3],
            }
        }
        pub fn register(r: &mut crate::elem::Registry, system: &str) {
            r.add::<Packed>(&format!("{system}/Packed"));
            r.add::<Part>(&format!("{system}/Part"));
            r.add::<Wrapper>(&format!("{system}/Wrapper"));
            r.add::<Nested>(&format!("{system}/Nested"));
            r.add::<[$a<f64>; 4]>(&format!("{system}/f64x4"));
            r.add::<[$b<glam::Vec2>; 2]>(&format!("{system}/Vec2x2"));
            r.add::<hdf5::types::VarLenArray<$a<f64>>>(&format!("{system}/Vlen64"));
            r.add::<hdf5::types::VarLenArray<$b<glam::Vec3>>>(&format!("{system}/VlenVec3"));
        }
    };
}
pub(crate) use particle;
/// The same without quantities.
mod plain {
    use super::structure;
    structure! { #[repr(C)] Particle { weight: f32, position: [f64; 3], velocity: [f32; 2], mass: f64, history: [[f64; 2]; 2], plain: f32, spin: [f32; 3] } }
    structure! { #[repr(packed)] Packed { weight: f32, mass: f64, spin: [f32; 3], position: [f64; 2] } }
    structure! { #[repr(C)] Part { mass: f64, weight: f32 } }
    structure! { #[repr(transparent)] Wrapper { inner: [f64; 3] } }
    structure! { #[repr(C)] Nested { part: Part, wrapper: Wrapper, pair: [f32; 3] } }
}
pub struct Entry {
    pub name: String,
    pub shape: Vec<bool>,
    pub fields: Vec<&'static str>,
    pub ops: &'static dyn crate::ops::Ops,
}
#[derive(Default)]
pub struct Registry {
    pub entries: Vec<Entry>,
}
impl Registry {
    pub fn add<E: Elem>(&mut self, name: &str) {
        self.entries.push(Entry { name: name.into(), shape: E::shape(), fields: E::fields(), ops: Box::leak(Box::new(crate::ops::Of::<E>::default())) });
    }
}
pub fn registry() -> &'static Registry {
    static R: std::sync::OnceLock<Registry> = std::sync::OnceLock::new();
    R.get_or_init(|| {
        let mut r = Registry::default();
        r.add::<f32>("f32");
        r.add::<f64>("f64");
        r.add::<[f32; 2]>("Vec2");
        r.add::<[f64; 2]>("DVec2");
        r.add::<[f32; 3]>("Vec3");
        r.add::<[f64; 3]>("DVec3");
        r.add::<[f64; 4]>("f64x4");
        r.add::<[[f32; 2]; 2]>("Vec2x2");
        r.add::<VarLenArray<f64>>("Vlen64");
        r.add::<VarLenArray<[f32; 3]>>("VlenVec3");
        r.add::<plain::Particle>("Particle");
        r.add::<plain::Packed>("Packed");
        r.add::<plain::Part>("Part");
        r.add::<plain::Wrapper>("Wrapper");
        r.add::<plain::Nested>("Nested");
        crate::systems::register(&mut r);
        r
    })
}
pub fn entry(name: &str) -> &'static Entry {
    registry().entries.iter().find(|e| e.name == name).unwrap_or_else(|| panic!("unknown type {name}"))
}
/// The type without quantities that has the same floats.
pub fn plain(name: &str) -> &str {
    name.rsplit('/').next().unwrap()
}
