//! Conversions between units, written by hand for the SI system.
use diman::si::dimensions::*;
use diman::si::units::*;

pub const KINDS: u32 = 16;
pub fn conv(which: u32, x: u64) -> Vec<u64> {
    let v = f64::from_bits(x);
    let w = f32::from_bits(x as u32);
    let two = |a: f64, b: f64| vec![a.to_bits(), b.to_bits()];
    let twof = |a: f32, b: f32| vec![a.to_bits() as u64, b.to_bits() as u64];
    match which % KINDS {
        0 => two((v * kilometers).value_in(meters), (v * meters).value_in(kilometers)),
        1 => two((v * hours).value_in(seconds), days.new(v).value_in(minutes)),
        2 => twof((w * kilometers).value_in(meters), (w * grams).value_in(kilograms)),
        3 => {
            let a: Area<f64> = (v * meters) * (3.0 * kilometers);
            two(a.value_in(square_meters), (v * meters / (2.0f64 * hours)).value_in(meters_per_second))
        }
        4 => two((v * joules).value_in(electronvolts), (v * electronvolts).value_in(joules)),
        5 => {
            let l: Length<f64> = v.abs() * kilometers;
            let q = l * l;
            two(q.sqrt().value_in(meters), l.powi::<3>().cbrt().value_in(meters))
        }
        6 => {
            let p = glam::DVec2::new(v, 2.0) * kilometers;
            two(p.x().value_in(meters), (p / (2.0f64 * seconds)).y().value_in(meters_per_second))
        }
        7 => {
            let p = glam::Vec3::new(w, 2.0, 3.0) * meters;
            twof(p.x().value_in(kilometers), p.dot(p).value_in(square_meters))
        }
        8 => {
            let a: Length<f64> = v * meters;
            let b = 1.0f64 * kilometers;
            two((a + b).value_in(meters), (a - b).value_in(kilometers))
        }
        9 => {
            let a: Length<f64> = v * meters;
            let b = 1.0f64 * kilometers;
            two((a / b).value(), a.max(b).value_in(meters))
        }
        10 => two((v * newtons * (2.0f64 * meters)).value_in(joules), (v * watts * (3.0f64 * hours)).value_in(joules)),
        11 => two((v * celsius_like()).value_in(kelvins), (v * pascals).value_in(hectopascals)),
        12 => {
            let c = std::panic::catch_unwind(|| (v * seconds).clamp(1.0 * seconds, 1.0 * hours).value_in(seconds));
            two(c.unwrap_or(-1.0), 0.0)
        }
        13 => {
            let xs = [v * meters, 2.0f64 * kilometers, 3.0f64 * meters];
            let s: Length<f64> = xs.iter().copied().sum();
            two(s.value_in(meters), xs.iter().map(|x| x.value_in(meters)).sum())
        }
        14 => twof((w * hours).value_in(seconds), (w * meters / (2.0f32 * seconds)).value_in(meters_per_second)),
        _ => two((v * radians).value(), (v * degrees).value_in(radians)),
    }
}
fn celsius_like() -> Temperature<f64> {
    1.0 * kelvins
}
