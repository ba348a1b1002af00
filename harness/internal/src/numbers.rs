//! P28: numeric conversions and clamps.
use crate::pts::Fl;
use auto_palette::verif::numbers::Clamp;
use auto_palette::verif::{Float, Number};
use vcommon::rng::Rng;
use vcommon::runner::{guard, Ctx};

trait Num: Number + Clamp + Copy + std::fmt::Debug + PartialEq {
    const NAME: &'static str;
    const MAX_U64: u64;
    /// The value as f64 (exact where the tests need it) and whether it equals an integer.
    fn is(self, n: u64) -> bool;
    fn pick(rng: &mut Rng) -> Self;
    fn max_of(a: Self, b: Self) -> Self {
        if a < b { b } else { a }
    }
}
macro_rules! int {
    ($t:ty, $max:expr) => {
        impl Num for $t {
            const NAME: &'static str = stringify!($t);
            const MAX_U64: u64 = $max;
            fn is(self, n: u64) -> bool {
                self as u128 == n as u128
            }
            fn pick(rng: &mut Rng) -> $t {
                match rng.below(4) {
                    0 => 0,
                    1 => <$t>::MAX,
                    2 => rng.below(6) as $t,
                    _ => rng.u64() as $t,
                }
            }
        }
    };
}
int!(u8, u8::MAX as u64);
int!(u16, u16::MAX as u64);
int!(u32, u32::MAX as u64);
int!(u64, u64::MAX);
int!(u128, u64::MAX);
macro_rules! flt {
    ($t:ty) => {
        impl Num for $t {
            const NAME: &'static str = stringify!($t);
            const MAX_U64: u64 = u64::MAX;
            fn is(self, n: u64) -> bool {
                // nearest representable value: no neighbour is nearer
                let d = |x: $t| -> i128 { (x as i128 - n as i128).abs() };
                let up = <$t>::from_bits(self.to_bits() + 1);
                let down = if self > 0.0 { <$t>::from_bits(self.to_bits() - 1) } else { self };
                self >= 0.0 && self.fract() == 0.0 && d(self) <= d(up) && (down.fract() != 0.0 || d(self) <= d(down))
                    && (n >= 1 << 24 || d(self) == 0)
            }
            fn pick(rng: &mut Rng) -> $t {
                match rng.below(6) {
                    0 => *rng.pick(&[0.0, -0.0, 1.0, -1.0]),
                    1 => *rng.pick(&[<$t>::MAX, <$t>::MIN, <$t>::INFINITY, <$t>::NEG_INFINITY]),
                    2 => *rng.pick(&[<$t>::MIN_POSITIVE, -<$t>::MIN_POSITIVE, <$t>::EPSILON]),
                    3 => rng.below(6) as $t - 3.0,
                    _ => rng.fr(-300.0, 300.0) as $t,
                }
            }
        }
    };
}
flt!(f32);
flt!(f64);

fn numbers<T: Num>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
    for _ in 0..200 {
        let n = match rng.below(5) {
            0 => rng.below(300) as u64,
            1 => u64::MAX - rng.below(3) as u64,
            2 => (1u64 << rng.below(64)).wrapping_add(rng.below(3) as u64).wrapping_sub(1),
            _ => rng.u64() >> rng.below(64),
        };
        let n = if n > T::MAX_U64 { n % (T::MAX_U64 + 1) } else { n };
        let mut bad = Vec::new();
        if !T::from_u64(n).is(n) {
            bad.push(format!("from_u64({n}) is {:?}", T::from_u64(n)));
        }
        if !T::from_usize(n as usize).is(n) {
            bad.push(format!("from_usize({n}) is {:?}", T::from_usize(n as usize)));
        }
        let b = n as u8;
        if !T::from_u8(b).is(b as u64) {
            bad.push(format!("from_u8({b}) is {:?}", T::from_u8(b)));
        }
        if n <= u32::MAX as u64 && !T::from_u32(n as u32).is(n) {
            bad.push(format!("from_u32({n}) is {:?}", T::from_u32(n as u32)));
        }
        let (x, p, q) = (T::pick(rng), T::pick(rng), T::pick(rng));
        let (lo, hi) = if p <= q { (p, q) } else { (q, p) };
        let got = Clamp::clamp(x, lo, hi);
        let want = if x < lo { lo } else if x > hi { hi } else { x };
        if got != want {
            bad.push(format!("{x:?} clamped to {lo:?}..{hi:?} is {got:?}"));
        }
        if x >= lo && x <= hi {
            c.add("clamps_inside", 1);
        } else {
            c.add("clamps_outside", 1);
        }
        if lo < hi {
            c.add("inverted_ranges", 1);
            if guard(|| Clamp::clamp(x, hi, lo)).is_ok() {
                bad.push(format!("the range {hi:?}..{lo:?} is accepted"));
            }
        }
        c.eval(vcommon::rng::mix(&[n, T::NAME.len() as u64, T::NAME.as_bytes()[1] as u64]), true);
        if !bad.is_empty() {
            return c.violate(idx, format!("{}: {}", T::NAME, bad.join("; ")));
        }
    }
    c.add(&format!("type_{}", T::NAME), 200);
    c.sample(|| format!("case {idx}: 200 values and clamps of {}", T::NAME));
}

fn floats<F: Fl>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
    for _ in 0..200 {
        let x = match rng.below(4) {
            0 => rng.fr(-1.0, 1.0) * 10f64.powf(rng.fr(-30.0, 30.0)),
            1 => rng.below(1000) as f64 / 8.0,
            _ => rng.fr(-500.0, 500.0),
        };
        let got = <F as Float>::from_f64(x).up();
        let y = x as f32;
        if got != F::of(x).up() || <F as Float>::from_f32(y).up() != y as f64 {
            return c.violate(idx, format!("{}: from_f64({x}) is {got}, from_f32({y}) is {}", F::NAME, <F as Float>::from_f32(y).up()));
        }
    }
    c.add("float_conversions", 400);
}

pub fn p28(c: &mut Ctx) {
    c.run(|c, idx, rng| match rng.below(9) {
        0 => numbers::<u8>(c, idx, rng),
        1 => numbers::<u16>(c, idx, rng),
        2 => numbers::<u32>(c, idx, rng),
        3 => numbers::<u64>(c, idx, rng),
        4 => numbers::<u128>(c, idx, rng),
        5 => numbers::<f32>(c, idx, rng),
        6 => numbers::<f64>(c, idx, rng),
        7 => floats::<f32>(c, idx, rng),
        _ => floats::<f64>(c, idx, rng),
    });
}
