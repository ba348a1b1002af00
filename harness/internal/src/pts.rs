//! Generic access to the point types of the library, and data set families.
use auto_palette::verif::{DistanceMetric, Float, Point, Point2, Point3, Point5};
use num_traits::Zero;
use vcommon::rng::Rng;

pub trait Fl: Float + Send + Sync + 'static {
    const NAME: &'static str;
    /// Relative tolerance of a computed distance.
    const TOL: f64;
    const EPS: f64;
    fn of(x: f64) -> Self;
    fn up(self) -> f64;
    fn sqrt_of(x: f64) -> f64;
}
impl Fl for f32 {
    const NAME: &'static str = "f32";
    const TOL: f64 = 4e-6;
    const EPS: f64 = 6.0e-8;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn up(self) -> f64 {
        self as f64
    }
    fn sqrt_of(x: f64) -> f64 {
        (x as f32).sqrt() as f64
    }
}
impl Fl for f64 {
    const NAME: &'static str = "f64";
    const TOL: f64 = 1e-13;
    const EPS: f64 = 1.2e-16;
    fn of(x: f64) -> f64 {
        x
    }
    fn up(self) -> f64 {
        self
    }
    fn sqrt_of(x: f64) -> f64 {
        x.sqrt()
    }
}

pub trait Pt<F: Fl>: Point<F> + Zero {
    const D: usize;
    fn mk(v: &[f64]) -> Self;
    fn mul_v(self, s: F) -> Self;
    fn div_v(self, s: F) -> Self;
    fn vec(&self) -> Vec<f64> {
        (0..Self::D).map(|k| self[k].up()).collect()
    }
}
macro_rules! pt {
    ($t:ident, $d:expr, $($i:expr),+) => {
        impl<F: Fl> Pt<F> for $t<F> {
            const D: usize = $d;
            fn mk(v: &[f64]) -> Self {
                $t::new($(F::of(v[$i])),+)
            }
            fn mul_v(self, s: F) -> Self {
                self * s
            }
            fn div_v(self, s: F) -> Self {
                self / s
            }
        }
    };
}
pt!(Point2, 2, 0, 1);
pt!(Point3, 3, 0, 1, 2);
pt!(Point5, 5, 0, 1, 2, 3, 4);

/// Calls `$f::<F, P>(args)` for one of the six combinations of precision and dimension.
#[macro_export]
macro_rules! dispatch {
    ($which:expr, $f:ident, $($arg:expr),*) => {{
        use auto_palette::verif::{Point2, Point3, Point5};
        match $which % 6 {
            0 => $f::<f64, Point2<f64>>($($arg),*),
            1 => $f::<f32, Point5<f32>>($($arg),*),
            2 => $f::<f64, Point5<f64>>($($arg),*),
            3 => $f::<f32, Point2<f32>>($($arg),*),
            4 => $f::<f64, Point3<f64>>($($arg),*),
            _ => $f::<f32, Point3<f32>>($($arg),*),
        }
    }};
}

pub fn d2(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum()
}

/// A data set; `exact` when all distances are computed without rounding (small integers).
#[derive(Clone, Debug)]
pub struct Data {
    pub rows: Vec<Vec<f64>>,
    pub exact: bool,
    pub family: &'static str,
    pub scale: f64,
}

impl Data {
    pub fn n(&self) -> usize {
        self.rows.len()
    }
    pub fn points<F: Fl, P: Pt<F>>(&self) -> Vec<P> {
        self.rows.iter().map(|r| P::mk(r)).collect()
    }
    pub fn hash(&self) -> u64 {
        vcommon::runner::hash_f64s(self.rows.iter().flatten().copied())
    }
    /// Distance as the metric defines it, rounded to F where that is exact anyway.
    pub fn dist<F: Fl>(&self, m: &DistanceMetric, a: &[f64], b: &[f64]) -> f64 {
        let s = d2(a, b);
        match m {
            DistanceMetric::SquaredEuclidean => s,
            DistanceMetric::Euclidean => {
                if self.exact {
                    F::sqrt_of(s)
                } else {
                    s.sqrt()
                }
            }
        }
    }
    pub fn show(&self) -> String {
        if self.n() <= 24 {
            format!("{} {:?}", self.family, self.rows)
        } else {
            format!("{} n={} [{:?}, {:?}, ..]", self.family, self.n(), self.rows[0], self.rows[1])
        }
    }
}

pub fn size(rng: &mut Rng, max: usize) -> usize {
    let n = match rng.below(12) {
        0 => rng.below(4),
        1..=4 => rng.range(1, 20),
        5..=8 => rng.range(10, 80),
        _ => {
            let top = if rng.chance(0.3) { max } else { max / 4 };
            rng.range(20, top.max(21))
        }
    };
    n.min(max)
}

/// Like `size`, with an occasional much larger data set (and, rarely, one of 65 to 70 thousand).
pub fn size_with_large(rng: &mut Rng, max: usize, large: usize, huge: bool) -> usize {
    if huge && rng.chance(0.003) {
        rng.range(65_000, 70_000)
    } else if large > max && rng.chance(0.03) {
        rng.range(max, large)
    } else {
        size(rng, max)
    }
}

/// Data set families; coordinates are representable in F.
pub fn data<F: Fl>(rng: &mut Rng, d: usize, n: usize) -> Data {
    let fam = rng.below(12);
    let mut exact = false;
    let mut scale = 1.0;
    let mut rows: Vec<Vec<f64>> = Vec::with_capacity(n);
    let family;
    match fam {
        0 | 1 => {
            family = "uniform";
            scale = *rng.pick(&[1.0, 1e-3, 10.0, 255.0, 1e4]);
            let off = if rng.chance(0.3) { rng.fr(-5.0, 5.0) * scale } else { 0.0 };
            for _ in 0..n {
                rows.push((0..d).map(|_| off + rng.fr(-1.0, 1.0) * scale).collect());
            }
        }
        2 | 3 => {
            family = "clustered";
            scale = *rng.pick(&[1.0, 1e-3, 1e3]);
            let k = rng.range(1, 6);
            let centers: Vec<Vec<f64>> = (0..k).map(|_| (0..d).map(|_| rng.fr(-1.0, 1.0) * scale).collect()).collect();
            let spread = *rng.pick(&[0.01, 0.05, 0.2]) * scale;
            for _ in 0..n {
                let c = rng.pick(&centers).clone();
                let s = if rng.chance(0.1) { spread * 8.0 } else { spread };
                rows.push(c.iter().map(|x| x + rng.fr(-1.0, 1.0) * s).collect());
            }
        }
        4..=6 => {
            family = "integer grid";
            exact = true;
            let side = *rng.pick(&[2usize, 3, 5, 9, 20, 150]);
            scale = side as f64;
            let off = *rng.pick(&[0i64, 0, -3, 50]);
            for _ in 0..n {
                rows.push((0..d).map(|_| rng.below(side) as f64 + off as f64).collect());
            }
        }
        7 => {
            family = "collinear";
            exact = rng.chance(0.5);
            scale = 50.0;
            let axis = rng.below(d);
            let diagonal = rng.chance(0.4);
            for _ in 0..n {
                let t = if exact { rng.below(60) as f64 } else { rng.fr(-30.0, 30.0) };
                rows.push((0..d).map(|k| if diagonal || k == axis { t } else { 2.0 }).collect());
            }
        }
        8 => {
            family = "identical";
            exact = true;
            let p: Vec<f64> = (0..d).map(|_| rng.below(7) as f64 - 3.0).collect();
            rows = vec![p; n];
        }
        9 => {
            family = "few distinct";
            let k = rng.range(1, 6);
            let ps: Vec<Vec<f64>> = (0..k).map(|_| (0..d).map(|_| rng.fr(-2.0, 2.0)).collect()).collect();
            for _ in 0..n {
                rows.push(rng.pick(&ps).clone());
            }
        }
        10 => {
            family = "image-like";
            let w = (n as f64).sqrt().ceil().max(1.0) as usize;
            let k = rng.range(1, 4);
            let cols: Vec<Vec<f64>> = (0..k).map(|_| vec![rng.f(), rng.fr(-0.5, 0.5), rng.fr(-0.5, 0.5)]).collect();
            for i in 0..n {
                let c = &cols[(i % w) * k / w];
                let mut full = vec![(i % w) as f64 / w as f64, (i / w) as f64 / w as f64];
                full.extend(c.iter().map(|v| v + rng.fr(-0.01, 0.01)));
                full.truncate(d);
                rows.push(full);
            }
        }
        _ => {
            family = "chain";
            // a path with small steps: clusters that are only connected through many hops
            let mut p: Vec<f64> = vec![0.0; d];
            for _ in 0..n {
                let k = rng.below(d);
                p[k] += rng.fr(0.0, 1.0) * if rng.chance(0.05) { 4.0 } else { 1.0 };
                rows.push(p.clone());
            }
            scale = n as f64;
            rng.shuffle(&mut rows);
        }
    }
    // Sorted and reversed inputs as well as shuffled ones.
    match rng.below(5) {
        0 => rows.sort_by(|a, b| a.partial_cmp(b).unwrap()),
        1 => rows.sort_by(|a, b| b.partial_cmp(a).unwrap()),
        _ => {}
    }
    // duplicate some points
    if n > 2 && rng.chance(0.25) {
        for _ in 0..rng.range(1, n / 2) {
            let (a, b) = (rng.below(n), rng.below(n));
            rows[a] = rows[b].clone();
        }
    }
    for r in rows.iter_mut() {
        for v in r.iter_mut() {
            *v = F::of(*v).up();
        }
    }
    Data { rows, exact, family, scale }
}

/// A query: a data point, a point near one, a grid point, or far away.
pub fn query<F: Fl>(rng: &mut Rng, data: &Data, d: usize) -> Vec<f64> {
    let mut q: Vec<f64> = if data.n() > 0 && rng.chance(0.8) {
        data.rows[rng.below(data.n())].clone()
    } else {
        (0..d).map(|_| rng.fr(-2.0, 2.0) * data.scale).collect()
    };
    if data.exact {
        for v in q.iter_mut() {
            *v = v.round();
            if rng.chance(0.4) {
                *v += rng.below(7) as f64 - 3.0;
            }
        }
    } else if rng.chance(0.6) {
        let s = *rng.pick(&[0.01, 0.1, 0.7]) * data.scale;
        for v in q.iter_mut() {
            *v += rng.fr(-1.0, 1.0) * s;
        }
    } else if data.n() > 1 && rng.chance(0.3) {
        // halfway between two data points: ties
        let o = &data.rows[rng.below(data.n())];
        for (v, w) in q.iter_mut().zip(o) {
            *v = (*v + w) / 2.0;
        }
    }
    for v in q.iter_mut() {
        *v = F::of(*v).up();
    }
    q
}

pub fn metric(rng: &mut Rng) -> DistanceMetric {
    if rng.chance(0.5) {
        DistanceMetric::Euclidean
    } else {
        DistanceMetric::SquaredEuclidean
    }
}
