//! P25: distances and point arithmetic.
use crate::dispatch;
use crate::pts::{d2, metric, Fl, Pt};
use auto_palette::verif::DistanceMetric;
use vcommon::rng::Rng;
use vcommon::runner::{guard, Ctx};

fn value<F: Fl>(rng: &mut Rng) -> f64 {
    let v = match rng.below(8) {
        0 => 0.0,
        1 => rng.below(7) as f64 - 3.0,
        2 => 10f64.powf(rng.fr(-6.0, 6.0)),
        3 => -(10f64.powf(rng.fr(-6.0, 6.0))),
        _ => rng.fr(-10.0, 10.0),
    };
    F::of(v).up()
}

fn case<F: Fl, P: Pt<F>>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
    let d = P::D;
    let mut vec = |rng: &mut Rng| -> Vec<f64> {
        if rng.chance(0.1) {
            // a single non-zero coordinate
            let k = rng.below(d);
            let v = value::<F>(rng);
            (0..d).map(|i| if i == k { v } else { 0.0 }).collect()
        } else {
            (0..d).map(|_| value::<F>(rng)).collect()
        }
    };
    let (a, b, e) = (vec(rng), vec(rng), vec(rng));
    let most = if F::EPS > 1e-10 { 30.0 } else { 290.0 };
    let s = match rng.below(8) {
        0 => F::of(10f64.powf(rng.fr(-most, most))).up(),
        1 => F::of(-(10f64.powf(rng.fr(-most, 0.0)))).up(),
        _ => value::<F>(rng),
    };
    let (p, q, t) = (P::mk(&a), P::mk(&b), P::mk(&e));
    let who = || format!("{} {}d {a:?} {b:?} {e:?} scalar {s}", F::NAME, d);
    c.eval(vcommon::runner::hash_f64s(a.iter().chain(&b).copied().chain([s])), a != b);
    let rel = 4.0 * F::EPS;
    // the spacing of the smallest numbers
    let tiny = if F::EPS > 1e-10 { 1e-44 } else { 1e-322 };
    let near = |x: f64, y: f64| x == y || (x - y).abs() <= rel * y.abs().max(x.abs()) + tiny;
    let r = guard(|| {
        let mut bad: Vec<String> = Vec::new();
        // access
        if p.dim() != d || p.to_vec().iter().map(|x| x.up()).collect::<Vec<_>>() != a || p.vec() != a {
            bad.push(format!("coordinates {:?}", p.vec()));
        }
        if P::zero().vec() != vec![0.0; d] || !P::zero().is_zero() || p.is_zero() != a.iter().all(|x| *x == 0.0) {
            bad.push("zero point".into());
        }
        // however small a coordinate is, it is not zero
        let small = F::of(if s == 0.0 || !s.is_normal() { 1.0 } else { s.abs() % 1.0 } * F::min_positive_value().up() * 2.0).up();
        let v: Vec<f64> = (0..d).map(|i| if i == idx as usize % d { small } else { 0.0 }).collect();
        if small > 0.0 && P::mk(&v).is_zero() {
            bad.push(format!("{v:?} counts as the zero point"));
        }
        // distances
        let eu = |x: &P, y: &P| DistanceMetric::Euclidean.measure(x, y).up();
        let sq = |x: &P, y: &P| DistanceMetric::SquaredEuclidean.measure(x, y).up();
        let want = d2(&a, &b);
        if (sq(&p, &q) - want).abs() > F::TOL * want + 1e-40 {
            bad.push(format!("squared distance {} instead of {want}", sq(&p, &q)));
        }
        if (eu(&p, &q) - want.sqrt()).abs() > F::TOL * want.sqrt() + 1e-20 {
            bad.push(format!("distance {} instead of {}", eu(&p, &q), want.sqrt()));
        }
        if sq(&p, &q) != sq(&q, &p) || eu(&p, &q) != eu(&q, &p) {
            bad.push("asymmetric distance".into());
        }
        if sq(&p, &p) != 0.0 || eu(&p, &p) != 0.0 {
            bad.push("a point is not at distance zero from itself".into());
        }
        if eu(&p, &t) > (eu(&p, &q) + eu(&q, &t)) * (1.0 + 4.0 * F::TOL) {
            bad.push("triangle inequality".into());
        }
        // arithmetic
        let all = |got: Vec<f64>, f: &dyn Fn(usize) -> f64| (0..d).all(|k| near(got[k], F::of(f(k)).up()));
        let mut m = p;
        m += q;
        if !all((p + q).vec(), &|k| a[k] + b[k]) || !all(m.vec(), &|k| a[k] + b[k]) {
            bad.push(format!("sum {:?} / {:?}", (p + q).vec(), m.vec()));
        }
        let mut m = p;
        m -= q;
        if !all((p - q).vec(), &|k| a[k] - b[k]) || !all(m.vec(), &|k| a[k] - b[k]) {
            bad.push(format!("difference {:?} / {:?}", (p - q).vec(), m.vec()));
        }
        let fs = F::of(s);
        let mut m = p;
        m *= fs;
        if !all(p.mul_v(fs).vec(), &|k| a[k] * s) || !all(m.vec(), &|k| a[k] * s) {
            bad.push(format!("product {:?} / {:?}", p.mul_v(fs).vec(), m.vec()));
        }
        if s != 0.0 {
            let mut m = p;
            m /= fs;
            if !all(p.div_v(fs).vec(), &|k| a[k] / s) || !all(m.vec(), &|k| a[k] / s) {
                bad.push(format!("quotient {:?} / {:?}", p.div_v(fs).vec(), m.vec()));
            }
        }
        let mut m = p;
        m.set_zero();
        if m.vec() != vec![0.0; d] || (p + P::zero()).vec() != a {
            bad.push("zero is not neutral".into());
        }
        bad
    });
    match r {
        Ok(bad) if bad.is_empty() => {}
        Ok(bad) => c.violate(idx, format!("{}: {}", who(), bad.join("; "))),
        Err(m) => c.violate(idx, format!("{}: ended in {m}", who())),
    }
    let zero = if rng.chance(0.5) { 0.0 } else { -0.0 };
    let by_value = guard(|| p.div_v(F::of(zero)).vec());
    let in_place = guard(|| {
        let mut m = p;
        m /= F::of(zero);
        m.vec()
    });
    c.add("divisions_by_zero", 2);
    if by_value.is_ok() || in_place.is_ok() {
        c.violate(idx, format!("{}: division by {zero} gives {by_value:?} / {in_place:?}", who()));
    }
    // a component the point does not have
    let beyond = match rng.below(4) {
        0 => d,
        1 => usize::MAX,
        2 => d + rng.below(5),
        _ => d + (1usize << rng.below(63)),
    };
    c.add("components_beyond_the_dimension", 1);
    if let Ok(v) = guard(|| p[beyond].up()) {
        c.violate(idx, format!("{}: component {beyond} is {v}", who()));
    }
    let _ = metric;
    c.sample(|| format!("case {idx}: {}", who()));
}

pub fn p25(c: &mut Ctx) {
    c.run(|c, idx, rng| {
        for _ in 0..20 {
            dispatch!(rng.below(6), case, c, idx, rng)
        }
    });
}
