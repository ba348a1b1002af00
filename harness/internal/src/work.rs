//! P31: how much work the searches and clusterings do, counted by instrumented points and weights.
use crate::hooks::*;
use num_traits::Zero;
use rand::rngs::StdRng;
use rand::SeedableRng;
use std::cell::Cell;
use std::ops::{Add, AddAssign, Div, DivAssign, Index, Mul, MulAssign, Sub, SubAssign};
use vcommon::rng::Rng;
use vcommon::runner::{guard, hash_f64s, Ctx};

thread_local! {
    static OPS: Cell<u64> = const { Cell::new(0) };
    static RECENT: Cell<[u64; 4]> = const { Cell::new([0; 4]) };
    static NEXT: Cell<u64> = const { Cell::new(1) };
}
/// A point is taken into hand: reading it again while it is among the last few costs nothing, so that it does
/// not matter how often or by which operators its coordinates are read.
fn touch(id: u64) {
    RECENT.with(|r| {
        let [a, b, c, d] = r.get();
        if id == a {
        } else if id == b {
            r.set([b, a, c, d]);
        } else if id == c {
            r.set([c, a, b, d]);
        } else {
            if id != d {
                OPS.with(|o| o.set(o.get() + 1));
            }
            r.set([id, a, b, c]);
        }
    });
}
/// The number of a new point, which is in hand without being counted.
fn fresh() -> u64 {
    let id = NEXT.with(|n| {
        n.set(n.get() + 1);
        n.get()
    });
    RECENT.with(|r| {
        let [a, b, c, _] = r.get();
        r.set([id, a, b, c]);
    });
    id
}
fn counted<T>(f: impl FnOnce() -> T) -> Result<(T, u64), String> {
    let before = OPS.with(|o| o.get());
    let r = guard(f)?;
    Ok((r, OPS.with(|o| o.get()) - before))
}

// Bounds (visits per 1,000 points and the like), each well above what is observed and well below the work of the next worse complexity.
const BUILD: u64 = 300;
const NEAREST: u64 = 600;
const RADIUS: u64 = 150;
const KMEANS: u64 = 6;
const WEIGHTS: u64 = 2;

/// A point that counts how often it is taken into hand.
#[derive(Clone, Copy, Debug)]
pub struct Counted<const D: usize>([f64; D], u64);

impl<const D: usize> Counted<D> {
    fn of(x: [f64; D]) -> Self {
        Counted(x, fresh())
    }
}
impl<const D: usize> PartialEq for Counted<D> {
    fn eq(&self, o: &Self) -> bool {
        touch(self.1);
        touch(o.1);
        self.0 == o.0
    }
}
impl<const D: usize> Index<usize> for Counted<D> {
    type Output = f64;
    fn index(&self, i: usize) -> &f64 {
        touch(self.1);
        &self.0[i]
    }
}
macro_rules! by_point {
    ($t:ident, $f:ident, $ta:ident, $fa:ident, $o:tt) => {
        impl<const D: usize> $t for Counted<D> {
            type Output = Self;
            fn $f(self, r: Self) -> Self {
                touch(self.1);
                touch(r.1);
                Counted::of(std::array::from_fn(|i| self.0[i] $o r.0[i]))
            }
        }
        impl<const D: usize> $ta for Counted<D> {
            fn $fa(&mut self, r: Self) {
                *self = *self $o r;
            }
        }
    };
}
macro_rules! by_scalar {
    ($t:ident, $f:ident, $ta:ident, $fa:ident, $o:tt) => {
        impl<const D: usize> $t<f64> for Counted<D> {
            type Output = Self;
            fn $f(self, r: f64) -> Self {
                touch(self.1);
                Counted::of(std::array::from_fn(|i| self.0[i] $o r))
            }
        }
        impl<const D: usize> $ta<f64> for Counted<D> {
            fn $fa(&mut self, r: f64) {
                *self = *self $o r;
            }
        }
    };
}
by_point!(Add, add, AddAssign, add_assign, +);
by_point!(Sub, sub, SubAssign, sub_assign, -);
by_scalar!(Mul, mul, MulAssign, mul_assign, *);
by_scalar!(Div, div, DivAssign, div_assign, /);
impl<const D: usize> Zero for Counted<D> {
    fn zero() -> Self {
        Counted::of([0.0; D])
    }
    fn is_zero(&self) -> bool {
        self.0.iter().all(|x| *x == 0.0)
    }
}
impl<const D: usize> Point<f64> for Counted<D> {
    fn dim(&self) -> usize {
        D
    }
    fn to_vec(&self) -> Vec<f64> {
        touch(self.1);
        self.0.to_vec()
    }
}

/// Points spread out over the unit cube, in any order.
fn spread<const D: usize>(rng: &mut Rng, n: usize) -> (&'static str, Vec<Counted<D>>) {
    let kind = rng.below(4);
    let side = (n as f64).powf(1.0 / D as f64).ceil() as usize;
    let centres: Vec<[f64; D]> = (0..rng.range(3, 20)).map(|_| std::array::from_fn(|_| rng.f())).collect();
    let mut v: Vec<Counted<D>> = (0..n)
        .map(|i| match kind {
            0 => Counted::of(std::array::from_fn(|_| rng.f())),
            1 => Counted::of(std::array::from_fn(|k| ((i / side.pow(k as u32)) % side) as f64 / side as f64)),
            2 => {
                let c = *rng.pick(&centres);
                Counted::of(std::array::from_fn(|k| c[k] + rng.fr(-0.05, 0.05)))
            }
            // a curve through space
            _ => Counted::of(std::array::from_fn(|k| (i as f64 / n as f64 * (k + 1) as f64).sin() + rng.fr(0.0, 1e-4))),
        })
        .collect();
    let order = rng.below(4);
    match order {
        0 => rng.shuffle(&mut v),
        1 => v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap()),
        2 => v.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap()),
        _ => {}
    }
    (["uniform", "grid", "clustered", "curve"][kind], v)
}

fn neighbourhoods<const D: usize>(c: &mut Ctx, idx: u64, rng: &mut Rng, what: &str, pts: &[Counted<D>], m: DistanceMetric) {
    let (n, pts) = (pts.len(), &pts.to_vec());
    let eps = 0.02f64;
    let eps = if matches!(m, DistanceMetric::Euclidean) { eps } else { eps * eps };
    let qs: Vec<_> = pts.iter().map(|p| Query::Radius(*p, eps)).collect();
    let Ok((_, all)) = counted(|| kdtree::<f64, _>(&pts, &m, &qs)) else { return c.add("panics", 1) };
    let min = rng.range(1, 12);
    let Ok((_, ops)) = counted(|| dbscan::<f64, _>(&pts, min, eps, m)) else { return c.add("panics", 1) };
    c.max("dbscan_percent_of_one_search_each", 100 * ops / all);
    if ops > 25 * all / 10 + 40 * n as u64 {
        return c.violate(idx, format!("{what}: {}", format!("DBSCAN (min_points {min}, radius {eps}) looks at points {ops} times, one search for each point {all} times")));
    }
    // core distances
    let k = rng.range(1, 8);
    let qs: Vec<_> = pts.iter().map(|p| Query::Nearest(*p, k + 1)).collect();
    let Ok((_, all)) = counted(|| kdtree::<f64, _>(&pts, &m, &qs)) else { return c.add("panics", 1) };
    let Ok((_, ops)) = counted(|| core_distances::<f64, _>(&pts, k, &m)) else { return c.add("panics", 1) };
    c.max("core_distances_percent_of_one_search_each", 100 * ops / all);
    if ops > 15 * all / 10 + 40 * n as u64 {
        return c.violate(idx, format!("{what}: {}", format!("core distances (m = {k}) look at points {ops} times, one search for each point {all} times")));
    }
}

fn case<const D: usize>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
    let n = rng.range(1500, 4500);
    let (family, pts) = spread::<D>(rng, n);
    let m = if rng.chance(0.5) { DistanceMetric::Euclidean } else { DistanceMetric::SquaredEuclidean };
    let key = hash_f64s(pts.iter().flat_map(|p| p.0));
    let what = format!("{family} n={n} {D}d {m:?}");
    c.eval(key, true);
    let fail = |c: &mut Ctx, text: String| c.violate(idx, format!("{what}: {text}"));

    // building alone, also of equal points
    let log = (n as f64).log2();
    let few: Vec<Counted<D>> = { let m = *rng.pick(&[1usize, 2, 30]); (0..n).map(|i| Counted::of(pts[i % m].0)).collect() };
    let mut build = 0;
    for (name, set) in [("equal points", &few), ("points", &pts)] {
        let Ok((_, reads)) = counted(|| kdtree::<f64, _>(set, &m, &[])) else { return c.add("panics", 1) };
        build = reads;
        let percent = (100.0 * reads as f64 / (n as f64 * log * log)) as u64;
        c.max("building_percent_of_n_log2_n_squared", percent);
        if percent > BUILD {
            return fail(c, format!("building a tree of {n} {name} looks at points {reads} times"));
        }
    }

    // searches from everywhere
    let from = |rng: &mut Rng| -> Counted<D> {
        let p = pts[rng.below(n)].0;
        let by = if rng.chance(0.5) { 0.0 } else { 0.01 };
        Counted::of(std::array::from_fn(|k| p[k] + rng.fr(-by, by)))
    };
    for kind in 0..2 {
        let qs: Vec<Query<f64, Counted<D>>> = (0..40)
            .map(|_| {
                let q = from(rng);
                if kind == 0 {
                    if rng.chance(0.3) { Query::Single(q) } else { Query::Nearest(q, rng.range(1, 10)) }
                } else {
                    // a radius that holds about ten points
                    let mut d: Vec<f64> = pts.iter().map(|p| p.0.iter().zip(&q.0).map(|(a, b)| (a - b) * (a - b)).sum::<f64>()).collect();
                    let k = rng.range(1, 10);
                    d.select_nth_unstable_by(k, |a, b| a.partial_cmp(b).unwrap());
                    let r = d[k] * 0.999999;
                    Query::Radius(q, if matches!(m, DistanceMetric::Euclidean) { r.sqrt() } else { r })
                }
            })
            .collect();
        let Ok((_, total)) = counted(|| kdtree::<f64, _>(&pts, &m, &qs)) else { return c.add("panics", 1) };
        let each = total.saturating_sub(build) as f64 / qs.len() as f64;
        let name = ["nearest", "radius"][kind];
        let per = (each / n as f64 * 1000.0) as u64;
        c.add("searches_counted", qs.len() as u64);
        if kind == 1 || family == "uniform" || family == "grid" {
            c.max(&format!("{name}_visits_per_1000_points"), per);
            if per > [NEAREST, RADIUS][kind] {
                return fail(c, format!("a {name} search looks at {each:.0} points on average, a scan at {n}"));
            }
        }
    }
    if idx % 3 == 0 {
        neighbourhoods(c, idx, rng, &what, &pts, m);
    }
    // k-means
    let k = rng.range(1, 12);
    let it = rng.range(0, 8);
    let cfg = KmeansConfig { k, metric: m, plus_plus: rng.chance(0.5), max_iterations: it, tolerance: 1e-9 };
    let seed = rng.u64();
    let Ok((_, ops)) = counted(|| kmeans::<f64, _, _>(&pts, &cfg, StdRng::seed_from_u64(seed))) else { return c.add("panics", 1) };
    let pairs = (n * k * (it + 1 + if cfg.plus_plus { k } else { 0 })) as u64;
    c.max("kmeans_visits_per_100_pairs", 100 * ops / pairs);
    if ops > KMEANS * pairs {
        return fail(c, format!("k-means looks at points {ops} times for {cfg:?}"));
    }
    // trees over weights
    let small = rng.range(50, 200);
    let calls = Cell::new(0u64);
    let w = |u: usize, v: usize| {
        calls.set(calls.get() + 1);
        pts[u].0.iter().zip(&pts[v].0).map(|(a, b)| (a - b).abs()).sum::<f64>()
    };
    let _ = guard(|| spanning_tree(small, &w));
    let all = (small * small) as u64;
    c.max("spanning_tree_weights_percent_of_pairs", 100 * calls.get() / all);
    if calls.get() > WEIGHTS * all {
        return fail(c, format!("a spanning tree of {small} vertices asks for {} weights", calls.get()));
    }
    calls.set(0);
    let _ = guard(|| hierarchy(small, &w, &[1, 5, small]));
    c.max("hierarchy_weights_percent_of_pairs", 100 * calls.get() / all);
    if calls.get() > WEIGHTS * all {
        return fail(c, format!("a hierarchy of {small} points asks for {} weights", calls.get()));
    }
    c.sample(|| format!("case {idx}: {what}"));
}

pub fn p31(c: &mut Ctx) {
    c.run(|c, idx, rng| {
        if idx % 2 == 0 {
            case::<2>(c, idx, rng)
        } else {
            case::<3>(c, idx, rng)
        }
    });
}
