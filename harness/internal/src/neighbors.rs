//! P13, P14, P19: neighbour searches and core distances.
use crate::dispatch;
use crate::pts::{data, metric, query, size_with_large, Data, Fl, Pt};
use crate::hooks::{core_distances, kdtree, linear, DistanceMetric, Query};
use vcommon::rng::Rng;
use vcommon::runner::{guard, Ctx};

fn nmax(c: &Ctx) -> usize {
    if c.scale < 1.0 {
        60
    } else if c.thorough {
        3000
    } else {
        1200
    }
}

fn close<F: Fl>(data: &Data, got: f64, want: f64) -> bool {
    if data.exact {
        (got - want).abs() <= 2.0 * F::EPS * want.abs()
    } else {
        (got - want).abs() <= F::TOL * want.abs() + 1e-30
    }
}

pub fn check_knn<F: Fl>(data: &Data, m: &DistanceMetric, q: &[f64], k: usize, got: &[(usize, F)]) -> Result<(), String> {
    let n = data.n();
    if got.len() != k.min(n) {
        return Err(format!("{} neighbours returned, {} expected", got.len(), k.min(n)));
    }
    let mut seen = vec![false; n];
    let mut last = f64::NEG_INFINITY;
    let mut worst: f64 = 0.0;
    for (i, d) in got {
        if *i >= n || seen[*i] {
            return Err(format!("index {i} is repeated or out of range"));
        }
        seen[*i] = true;
        let want = data.dist::<F>(m, q, &data.rows[*i]);
        if !close::<F>(data, d.up(), want) {
            return Err(format!("point {i} has distance {want}, reported {}", d.up()));
        }
        if d.up() < last {
            return Err(format!("distances are not ascending: {} after {last}", d.up()));
        }
        last = d.up();
        worst = worst.max(want);
    }
    if k == 0 {
        return Ok(());
    }
    for i in 0..n {
        if !seen[i] {
            let want = data.dist::<F>(m, q, &data.rows[i]);
            let slack = if data.exact { 0.0 } else { 2.0 * F::TOL * worst };
            if want < worst - slack {
                return Err(format!("point {i} at {want} is omitted although one at {worst} is returned"));
            }
        }
    }
    Ok(())
}

pub fn check_radius<F: Fl>(data: &Data, m: &DistanceMetric, q: &[f64], r: f64, got: &[(usize, F)]) -> Result<(), String> {
    let n = data.n();
    let mut seen = vec![false; n];
    for (i, d) in got {
        if *i >= n || seen[*i] {
            return Err(format!("index {i} is repeated or out of range"));
        }
        seen[*i] = true;
        let want = data.dist::<F>(m, q, &data.rows[*i]);
        if !close::<F>(data, d.up(), want) {
            return Err(format!("point {i} has distance {want}, reported {}", d.up()));
        }
    }
    for i in 0..n {
        let want = data.dist::<F>(m, q, &data.rows[i]);
        let slack = if data.exact { 0.0 } else { 2.0 * F::TOL * r.abs() + 1e-30 };
        let inside = r >= 0.0 && want <= r;
        if r < 0.0 {
            if seen[i] {
                return Err(format!("point {i} found within a negative radius"));
            }
        } else if seen[i] != inside && (data.exact || want == 0.0 || r.is_infinite() || (want - r).abs() > slack) {
            return Err(format!("point {i} at distance {want} is {} for radius {r}", if seen[i] { "returned" } else { "missing" }));
        }
    }
    Ok(())
}

/// Rejects cases whose squared distances leave the range in which F is accurate.
fn sane<F: Fl>(data: &Data) -> bool {
    data.rows.iter().flatten().all(|v| v.is_finite())
}

pub fn p13(c: &mut Ctx) {
    fn case<F: Fl, P: Pt<F>>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
        let n = size_with_large(rng, nmax(c), 0, c.scale >= 1.0);
        let data = data::<F>(rng, P::D, n);
        if !sane::<F>(&data) {
            return;
        }
        let pts: Vec<P> = data.points();
        let m = metric(rng);
        let count = if n > 300 { 12 } else { 8 };
        let mut qs = Vec::new();
        let mut raw = Vec::new();
        for _ in 0..count {
            let q = query::<F>(rng, &data, P::D);
            let single = rng.chance(0.2);
            let k = match rng.below(8) {
                0 => 0,
                1 => 1,
                2 => n,
                3 => n + 5,
                4 => usize::MAX - rng.below(2),
                5 => rng.range(1, n.max(1)),
                _ => rng.range(1, 12),
            };
            qs.push(if single { Query::Single(P::mk(&q)) } else { Query::Nearest(P::mk(&q), k) });
            raw.push((q, if single { 1 } else { k }, single));
        }
        for (name, r) in [
            ("tree", guard(|| kdtree(&pts, &m, &qs))),
            ("linear", guard(|| linear(&pts, &m, &qs))),
        ] {
            let r = match r {
                Ok(r) => r,
                Err(e) => {
                    c.violate(idx, format!("{name} search over {} ({:?}) with queries {:?} ended in {e}", data.show(), m, raw));
                    return;
                }
            };
            for ((q, k, single), got) in raw.iter().zip(&r) {
                c.eval(data.hash() ^ (*k as u64).wrapping_mul(77) ^ vcommon::runner::hash_f64s(q.iter().copied()), n > *k && *k > 0);
                c.add(&format!("{name}_{}", if *single { "single" } else { "knn" }), 1);
                if let Err(e) = check_knn::<F>(&data, &m, q, *k, got) {
                    c.violate(idx, format!("{} {}d {:?} {name} {} query {:?} k={k} over {}: {e}", F::NAME, P::D, m, if *single { "single" } else { "k-nearest" }, q, data.show()));
                    return;
                }
            }
        }
        c.max("points", n as u64);
        c.add(&format!("family_{}", data.family), 1);
        c.sample(|| format!("case {idx}: {} {}d {:?} over {} points ({}), queries (k) {:?}", F::NAME, P::D, m, n, data.family, raw.iter().map(|r| r.1).collect::<Vec<_>>()));
    }
    c.run(|c, idx, rng| dispatch!(rng.below(6), case, c, idx, rng));
}

pub fn p14(c: &mut Ctx) {
    fn case<F: Fl, P: Pt<F>>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
        let n = size_with_large(rng, nmax(c), 0, c.scale >= 1.0);
        let data = data::<F>(rng, P::D, n);
        let pts: Vec<P> = data.points();
        let m = metric(rng);
        let mut qs = Vec::new();
        let mut raw = Vec::new();
        for _ in 0..10 {
            let q = query::<F>(rng, &data, P::D);
            let mut ds: Vec<f64> = data.rows.iter().map(|p| data.dist::<F>(&m, &q, p)).collect();
            ds.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let mut r = match rng.below(10) {
                0 => 0.0,
                4 if rng.chance(0.5) => *rng.pick(&[f64::INFINITY, f64::MAX, f32::MAX as f64, 1e30]),
                1 => -rng.fr(0.01, 3.0),
                2 => data.scale * rng.fr(0.0, 3.0),
                3 if n > 0 => 2.0 * ds[n - 1] + 1.0,
                _ if n > 0 => {
                    // at, or between, actual distances
                    let i = if rng.chance(0.6) { rng.below(n.min(30)) } else { rng.below(n) };
                    if data.exact { ds[i] } else { ds[i] * rng.fr(1.0, 1.01) }
                }
                _ => rng.fr(0.0, 2.0),
            };
            if data.exact && m == DistanceMetric::Euclidean && r > 0.0 {
                // the boundary only where the radius itself is exact
                if r.fract() != 0.0 {
                    r = if rng.chance(0.5) { r.round() } else { r * 1.000_1 };
                }
            }
            r = F::of(r).up();
            qs.push(Query::Radius(P::mk(&q), F::of(r)));
            raw.push((q, r));
        }
        for (name, res) in [
            ("tree", guard(|| kdtree(&pts, &m, &qs))),
            ("linear", guard(|| linear(&pts, &m, &qs))),
        ] {
            let res = match res {
                Ok(r) => r,
                Err(e) => {
                    c.violate(idx, format!("{name} radius search over {} ({:?}) with queries {:?} ended in {e}", data.show(), m, raw));
                    return;
                }
            };
            for ((q, r), got) in raw.iter().zip(&res) {
                let nontrivial = !got.is_empty() && got.len() < n;
                c.eval(data.hash() ^ vcommon::runner::hash_f64s(q.iter().copied().chain([*r])), nontrivial);
                c.add(&format!("{name}_radius"), 1);
                c.add("points_returned", got.len() as u64);
                if data.exact {
                    c.add("points_on_the_boundary", got.iter().filter(|g| g.1.up() == *r).count() as u64);
                }
                if let Err(e) = check_radius::<F>(&data, &m, q, *r, got) {
                    c.violate(idx, format!("{} {}d {:?} {name} radius query {:?} r={r} over {}: {e}", F::NAME, P::D, m, q, data.show()));
                    return;
                }
            }
        }
        c.max("points", n as u64);
        c.add(&format!("family_{}", data.family), 1);
        c.sample(|| format!("case {idx}: {} {}d {:?} over {} points ({}), radii {:?}", F::NAME, P::D, m, n, data.family, raw.iter().map(|r| r.1).collect::<Vec<_>>()));
    }
    c.run(|c, idx, rng| dispatch!(rng.below(6), case, c, idx, rng));
}

pub fn p19(c: &mut Ctx) {
    fn case<F: Fl, P: Pt<F>>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
        let n = size_with_large(rng, nmax(c).min(600), 2500, false);
        let huge = c.scale >= 1.0 && P::D == 2 && idx % 301 == 300;
        let data = if huge {
            // many points, but not in families that degenerate the tree
            let n = rng.range(8_000, 10_000);
            let side = F::of(100.0).up();
            let rows = (0..n).map(|_| (0..P::D).map(|_| F::of(rng.fr(-side, side)).up()).collect()).collect();
            c.add("huge_data_sets", 1);
            Data { rows, family: "uniform", exact: false, scale: side }
        } else {
            data::<F>(rng, P::D, n)
        };
        let n = data.n();
        let pts: Vec<P> = data.points();
        let m = metric(rng);
        let ms = match rng.below(7) {
            _ if huge => rng.range(1, 6),
            0 => 1,
            1 => n.saturating_sub(1).max(1),
            2 => n + rng.below(4),
            3 => usize::MAX - rng.below(2),
            4 => rng.range(1, n.max(1)),
            _ => rng.range(1, 12),
        }
        .max(1);

        let got = match guard(|| core_distances(&pts, ms, &m)) {
            Ok(g) => g,
            Err(e) => {
                c.violate(idx, format!("core distances of {} with m={ms} {:?} ended in {e}", data.show(), m));
                return;
            }
        };
        if got.len() != n {
            c.violate(idx, format!("{} core distances for {} points", got.len(), n));
            return;
        }
        c.eval(data.hash() ^ ms as u64, n > ms);
        c.add("core_distances", n as u64);
        c.max("points", n as u64);
        // all points, or an even sample of a large data set
        for i in (0..n).step_by(1 + n / if huge { 60 } else { 1000 }) {
            let mut ds: Vec<f64> = (0..n).filter(|j| *j != i).map(|j| data.dist::<F>(&m, &data.rows[i], &data.rows[j])).collect();
            ds.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let want = if ds.is_empty() { 0.0 } else { ds[(ms - 1).min(ds.len() - 1)] };
            if !close::<F>(&data, got[i].up(), want) {
                c.violate(idx, format!("{} {}d {:?} m={ms}: point {i} has core distance {want}, reported {}; data {}", F::NAME, P::D, m, got[i].up(), data.show()));
                return;
            }
        }
        c.sample(|| format!("case {idx}: {} {}d {:?} n={n} m={ms} ({})", F::NAME, P::D, m, data.family));
    }
    c.run(|c, idx, rng| dispatch!(rng.below(6), case, c, idx, rng));
}
