//! P33: the texts of colours and points.
use crate::dispatch;
use crate::hooks::colors::{Lab, Rgba, D65, XYZ};
use crate::pts::{Fl, Pt};
use std::fmt::{Debug, Display};
use std::str::FromStr;
use vcommon::rng::{mix, Rng};
use vcommon::runner::{guard, Ctx};

/// Components of `Name(a, b, c)`.
fn parts<T: FromStr>(name: &str, text: &str) -> Option<Vec<T>> {
    let inner = text.strip_prefix(name)?.strip_prefix('(')?.strip_suffix(')')?;
    inner.split(", ").map(|x| x.parse().ok()).collect()
}

fn check<T: FromStr + Debug + Copy>(c: &mut Ctx, idx: u64, name: &str, value: &dyn Display, want: &[T], bits: impl Fn(T) -> u64) {
    let text = match guard(|| value.to_string()) {
        Ok(t) => t,
        Err(e) => return c.violate(idx, format!("the text of {name} {want:?} ended in {e}")),
    };
    c.add(&format!("texts_of_{}", name.to_lowercase()), 1);
    let all = |v: &[T]| v.iter().map(|x| bits(*x)).collect::<Vec<_>>();
    let read = parts::<T>(name, &text);
    c.eval(mix(&all(want)), true);
    if read.as_ref().map(|v| all(v)) != Some(all(want)) {
        c.violate(idx, format!("the text of {name} {want:?} is {text:?}, which reads back as {read:?}"));
    }
}

fn value(rng: &mut Rng, within: (f64, f64)) -> f64 {
    match rng.below(8) {
        0 => *rng.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 100.0, -128.0, 127.0, 255.0]),
        1 => rng.fr(-1.0, 1.0) * 10f64.powi(rng.range(0, 60) as i32 - 30),
        2 => rng.range(0, 200) as f64 - 100.0,
        3 => (rng.range(0, 2000) as f64 - 1000.0) / 8.0,
        _ => rng.fr(within.0, within.1),
    }
}

fn case<F: Fl + Display + FromStr, P: Pt<F> + Display>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
    let bits = |x: F| x.up().to_bits();
    for _ in 0..100 {
        let name = ["", "", "Point2", "Point3", "", "Point5"][P::D];
        let mut v: Vec<f64> = (0..P::D).map(|_| value(rng, (-2.0, 2.0))).collect();
        if rng.chance(0.1) {
            let k = rng.below(P::D);
            v[k] = *rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE]);
        }
        let p = P::mk(&v);
        let want: Vec<F> = (0..P::D).map(|k| p[k]).collect();
        check(c, idx, name, &p, &want, bits);
        let mut f = |a, b| F::of(value(rng, (a, b)));
        let l: Lab<F> = Lab::new(f(0.0, 100.0), f(-128.0, 127.0), f(-128.0, 127.0));
        check(c, idx, "Lab", &l, &[l.l, l.a, l.b], bits);
        let x: XYZ<F, D65> = XYZ::new(f(0.0, 0.95), f(0.0, 1.0), f(0.0, 1.09));
        check(c, idx, "XYZ", &x, &[x.x, x.y, x.z], bits);
        let r = Rgba::new(rng.byte(), rng.byte(), rng.byte(), rng.byte());
        check(c, idx, "Rgba", &r, &[r.r, r.g, r.b, r.a], |x| x as u64);
    }
    c.sample(|| format!("case {idx}: 400 texts of {} {}d", F::NAME, P::D));
}

pub fn p33(c: &mut Ctx) {
    c.run(|c, idx, rng| dispatch!(rng.below(6), case, c, idx, rng));
}
