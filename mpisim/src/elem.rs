//! Everything that can be an element of a message, as the floats it is made of.
use mpi::datatype::Equivalence;

pub type Shape = &'static [bool];
/// SHAPE: for each of its floats whether it is an f64; `make` and `floats` use their bits.
pub trait Elem: Equivalence + Copy + 'static {
    const SHAPE: Shape;
    fn make(b: &[u64]) -> Self;
    fn floats(&self, out: &mut Vec<u64>);
}
impl Elem for f32 {
    const SHAPE: Shape = &[false];
    fn make(b: &[u64]) -> Self {
        f32::from_bits(b[0] as u32)
    }
    fn floats(&self, out: &mut Vec<u64>) {
        out.push(self.to_bits() as u64)
    }
}
impl Elem for f64 {
    const SHAPE: Shape = &[true];
    fn make(b: &[u64]) -> Self {
        f64::from_bits(b[0])
    }
    fn floats(&self, out: &mut Vec<u64>) {
        out.push(self.to_bits())
    }
}
macro_rules! vec_floats {
    ($t:ty, $f:ident, $d:expr, $($x:ident $i:tt),*) => {
        impl crate::elem::Parts for $t {
            const SHAPE: crate::elem::Shape = &[$( { let _ = $i; $d } ),*];
            fn make(b: &[u64]) -> Self {
                <$t>::new($(<$f as crate::elem::Elem>::make(&b[$i..])),*)
            }
            fn floats(&self, out: &mut Vec<u64>) {
                $( crate::elem::Elem::floats(&self.$x, out); )*
            }
        }
    };
}
/// Storage types.
pub trait Parts: Copy + 'static {
    const SHAPE: Shape;
    fn make(b: &[u64]) -> Self;
    fn floats(&self, out: &mut Vec<u64>);
}
vec_floats!(glam::Vec2, f32, false, x 0, y 1);
vec_floats!(glam::DVec2, f64, true, x 0, y 1);
vec_floats!(glam::Vec3, f32, false, x 0, y 1, z 2);
vec_floats!(glam::DVec3, f64, true, x 0, y 1, z 2);
macro_rules! float_parts {
    ($f:ident) => {
        impl Parts for $f {
            const SHAPE: Shape = <$f as Elem>::SHAPE;
            fn make(b: &[u64]) -> Self {
                <$f as Elem>::make(b)
            }
            fn floats(&self, out: &mut Vec<u64>) {
                Elem::floats(self, out)
            }
        }
    };
}
float_parts!(f32);
float_parts!(f64);
macro_rules! elems {
    ($m:ident, $q:ident, $d:ident) => {
        elems!(@one $m, $q, $d, f32);
        elems!(@one $m, $q, $d, f64);
        elems!(@one $m, $q, $d, glam::Vec2);
        elems!(@one $m, $q, $d, glam::DVec2);
        elems!(@one $m, $q, $d, glam::Vec3);
        elems!(@one $m, $q, $d, glam::DVec3);
    };
    (@one $m:ident, $q:ident, $d:ident, $t:ty) => {
        impl<const D: $m::$d> crate::elem::Elem for $m::$q<$t, D> {
            const SHAPE: crate::elem::Shape = <$t as crate::elem::Parts>::SHAPE;
            fn make(b: &[u64]) -> Self {
                Self::new_unchecked(<$t as crate::elem::Parts>::make(b))
            }
            fn floats(&self, out: &mut Vec<u64>) {
                crate::elem::Parts::floats(self.value_unchecked_ref(), out)
            }
        }
    };
}
pub(crate) use elems;
pub const PARTICLE: Shape = &[true, true, true, false, false, true, false, true, true, true, true, false];
macro_rules! particle {
    ($a:ident, $b:ident) => {
        #[derive(Clone, Copy, mpi::traits::Equivalence)]
        pub struct Particle {
            position: $a<glam::DVec3>,
            velocity: $b<glam::Vec2>,
            mass: $b<f64>,
            weight: $a<f32>,
            history: [$a<glam::DVec2>; 2],
            plain: f32,
        }
        impl crate::elem::Elem for Particle {
            const SHAPE: crate::elem::Shape = crate::elem::PARTICLE;
            fn make(b: &[u64]) -> Self {
                use crate::elem::Elem;
                Particle {
                    position: Elem::make(b),
                    velocity: Elem::make(&b[3..]),
                    mass: Elem::make(&b[5..]),
                    weight: Elem::make(&b[6..]),
                    history: [Elem::make(&b[7..]), Elem::make(&b[9..])],
                    plain: Elem::make(&b[11..]),
                }
            }
            fn floats(&self, out: &mut Vec<u64>) {
                use crate::elem::Elem;
                self.position.floats(out);
                self.velocity.floats(out);
                self.mass.floats(out);
                self.weight.floats(out);
                self.history[0].floats(out);
                self.history[1].floats(out);
                self.plain.floats(out);
            }
        }
    };
}
pub(crate) use particle;
/// The same without quantities.
#[derive(Clone, Copy, mpi::traits::Equivalence)]
pub struct Plain {
    position: [f64; 3],
    velocity: [f32; 2],
    mass: f64,
    weight: f32,
    history: [f64; 4],
    plain: f32,
}
impl Elem for Plain {
    const SHAPE: Shape = PARTICLE;
    fn make(b: &[u64]) -> Self {
        let d = |i: usize| f64::from_bits(b[i]);
        let f = |i: usize| f32::from_bits(b[i] as u32);
        Plain { position: [d(0), d(1), d(2)], velocity: [f(3), f(4)], mass: d(5), weight: f(6), history: [d(7), d(8), d(9), d(10)], plain: f(11) }
    }
    fn floats(&self, out: &mut Vec<u64>) {
        self.position.iter().for_each(|x| out.push(x.to_bits()));
        self.velocity.iter().for_each(|x| out.push(x.to_bits() as u64));
        out.push(self.mass.to_bits());
        out.push(self.weight.to_bits() as u64);
        self.history.iter().for_each(|x| out.push(x.to_bits()));
        out.push(self.plain.to_bits() as u64);
    }
}
pub struct Entry {
    pub name: String,
    pub shape: Shape,
    pub ops: &'static dyn crate::ops::Ops,
}
#[derive(Default)]
pub struct Registry {
    pub entries: Vec<Entry>,
}
impl Registry {
    pub fn add<E: Elem>(&mut self, name: &str) {
        self.entries.push(Entry { name: name.into(), shape: E::SHAPE, ops: Box::leak(Box::new(crate::ops::Of::<E>::default())) });
    }
}
pub fn registry() -> &'static Registry {
    static R: std::sync::OnceLock<Registry> = std::sync::OnceLock::new();
    R.get_or_init(|| {
        let mut r = Registry::default();
        r.add::<f32>("f32");
        r.add::<f64>("f64");
        r.add::<Plain>("Plain");
        crate::systems::register(&mut r);
        r
    })
}
pub fn entry(name: &str) -> &'static Entry {
    registry().entries.iter().find(|e| e.name == name).unwrap_or_else(|| panic!("unknown type {name}"))
}
/// The type without quantities that has the same floats.
pub fn plain(name: &str) -> &'static str {
    match entry(name).shape {
        s if s == PARTICLE => "Plain",
        s if s[0] => "f64",
        _ => "f32",
    }
}
