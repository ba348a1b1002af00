//! P15 (DBSCAN), P16 and P17 (k-means), P18 (seeding).
use crate::dispatch;
use crate::pts::{d2, data, metric, size_with_large, Data, Fl, Pt};
use crate::hooks::{dbscan, kmeans, seeds, DistanceMetric, KmeansConfig};
use rand::rngs::StdRng;
use rand::SeedableRng;
use vcommon::density::density;
use vcommon::rng::Rng;
use vcommon::runner::{guard, Ctx};

/// Perfect matching between `n` left and right nodes.
pub fn perfect(adj: &[Vec<usize>], right: usize) -> bool {
    let mut owner = vec![usize::MAX; right];
    fn aug(s: usize, adj: &[Vec<usize>], owner: &mut [usize], seen: &mut [bool]) -> bool {
        for &g in &adj[s] {
            if !seen[g] {
                seen[g] = true;
                if owner[g] == usize::MAX || aug(owner[g], adj, owner, seen) {
                    owner[g] = s;
                    return true;
                }
            }
        }
        false
    }
    (0..adj.len()).all(|s| aug(s, adj, &mut owner, &mut vec![false; right]))
}

struct Comp {
    members: Vec<usize>,
    shared: Vec<usize>,
}

/// Whether `count` points with mean `mean` can be the certain members plus some shared ones.
fn explains<F: Fl>(rows: &[Vec<f64>], mag: f64, comp: &Comp, count: usize, mean: &[f64]) -> bool {
    let base = comp.members.len();
    if count < base || count > base + comp.shared.len() {
        return false;
    }
    let extra = count - base;
    let tol = mag * F::EPS * 2.0 * (count as f64 + 8.0);
    let d = mean.len();
    let sum: Vec<f64> = (0..d).map(|k| comp.members.iter().map(|i| rows[*i][k]).sum()).collect();
    let is = |s: &[f64]| (0..d).all(|k| (s[k] / count as f64 - mean[k]).abs() <= tol);
    if comp.shared.len() <= 8 {
        (0u32..1 << comp.shared.len()).any(|m| {
            m.count_ones() as usize == extra && {
                let mut s = sum.clone();
                for (t, i) in comp.shared.iter().enumerate() {
                    if m >> t & 1 == 1 {
                        for k in 0..d {
                            s[k] += rows[*i][k];
                        }
                    }
                }
                is(&s)
            }
        })
    } else {
        (0..d).all(|k| {
            let mut v: Vec<f64> = comp.shared.iter().map(|i| rows[*i][k]).collect();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let lo = sum[k] + v.iter().take(extra).sum::<f64>();
            let hi = sum[k] + v.iter().rev().take(extra).sum::<f64>();
            mean[k] >= lo / count as f64 - tol && mean[k] <= hi / count as f64 + tol
        })
    }
}

/// More than 65,536 points that are all farther apart than the radius: one cluster each, or no cluster.
fn isolated<F: Fl, P: Pt<F>>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
    let n = rng.range(65_530, 70_000);
    let side = 300usize;
    let mut rows: Vec<Vec<f64>> = (0..n)
        .map(|i| (0..P::D).map(|a| if a == 0 { (i % side) as f64 } else if a == 1 { (i / side) as f64 } else { 0.0 }).collect())
        .collect();
    for i in (1..n).rev() {
        rows.swap(i, rng.below(i + 1));
    }
    let pts: Vec<P> = rows.iter().map(|r| P::mk(r)).collect();
    let m = metric(rng);
    let min = rng.range(1, 2);
    let what = format!("{} {}d {m:?} {n} isolated points min={min} eps=0.5", F::NAME, P::D);
    match guard(|| dbscan(&pts, min, F::of(0.5), m)) {
        Err(e) => c.violate(idx, format!("{what}: ended in {e}")),
        Ok((cents, counts, out)) => {
            let key = |v: &[f64]| v[0] as u64 * side as u64 + v[1] as u64;
            let mut seen: Vec<u64> = cents.iter().map(|p| key(&p.vec())).collect();
            seen.sort_unstable();
            let mut want: Vec<u64> = rows.iter().map(|r| key(r)).collect();
            want.sort_unstable();
            let mut o = out.clone();
            o.sort_unstable();
            let ok = if min == 1 {
                seen == want && counts.len() == n && counts.iter().all(|k| *k == 1) && out.is_empty()
            } else {
                cents.is_empty() && counts.is_empty() && o.iter().copied().eq(0..n)
            };
            if !ok {
                c.violate(idx, format!("{what}: {} centroids, {} counts adding up to {}, {} outliers", cents.len(), counts.len(), counts.iter().sum::<usize>(), out.len()));
            }
            c.eval(rows.iter().take(50).fold(n as u64, |h, r| vcommon::rng::mix(&[h, key(r)])), true);
            c.add("isolated_data_sets", 1);
            c.max("clusters", cents.len() as u64);
            c.max("points", n as u64);
        }
    }
}

/// More than 65,536 points in one cluster.
fn united<F: Fl, P: Pt<F>>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
    let n = rng.range(65_600, 70_000);
    let side = 260usize;
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, rng.below(i + 1));
    }
    let row = |i: usize| -> Vec<f64> {
        (0..P::D).map(|a| if a == 0 { (i % side) as f64 } else if a == 1 { (i / side) as f64 } else { 0.0 }).collect()
    };
    let pts: Vec<P> = order.iter().map(|i| P::mk(&row(*i))).collect();
    let m = metric(rng);
    let min = rng.range(2, 3);
    let what = format!("{} {}d {m:?} {n} points of a grid, min={min} eps=1", F::NAME, P::D);
    match guard(|| dbscan(&pts, min, F::of(1.0), m)) {
        Err(e) => c.violate(idx, format!("{what}: ended in {e}")),
        Ok((cents, counts, out)) => {
            let mean = |a: usize| (0..n).map(|i| row(i)[a]).sum::<f64>() / n as f64;
            let ok = cents.len() == 1 && counts == [n] && out.is_empty()
                && (0..2).all(|a| (cents[0].vec()[a] - mean(a)).abs() <= 300.0 * 4.0 * F::EPS);
            if !ok {
                c.violate(idx, format!("{what}: centroids {:?}, counts {counts:?}, {} outliers", cents.iter().take(3).map(|p| p.vec()).collect::<Vec<_>>(), out.len()));
            }
            c.eval(rng.u64(), true);
            c.max("points_of_a_cluster", n as u64);
        }
    }
}

pub fn p15(c: &mut Ctx) {
    fn case<F: Fl, P: Pt<F>>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
        if c.scale >= 1.0 && idx % 1501 == 9 {
            return united::<F, P>(c, idx, rng);
        }
        if c.scale >= 1.0 && idx % 1501 == 1500 {
            return isolated::<F, P>(c, idx, rng);
        }
        let n = size_with_large(rng, if c.scale < 1.0 { 50 } else if c.thorough { 900 } else { 400 }, 2500, false);
        let data = data::<F>(rng, P::D, n);
        let pts: Vec<P> = data.points();
        let m = metric(rng);
        let min_points = match rng.below(6) {
            0 => 1,
            1 => 2,
            2 => rng.range(1, n.max(1) + 2),
            3 => rng.range(3, 8),
            _ => rng.range(2, 5),
        };
        // a radius in the region where the clustering is interesting
        let mut eps = if n < 2 || rng.chance(0.1) {
            *rng.pick(&[0.0, 0.5, 1.0])
        } else if rng.chance(0.06) {
            0.0
        } else {
            let probe = rng.below(n);
            let mut ds: Vec<f64> = (0..n).map(|j| data.dist::<F>(&m, &data.rows[probe], &data.rows[j])).collect();
            ds.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let at = (min_points + rng.below(4)).min(n - 1);
            if data.exact { ds[at] } else { ds[at] * rng.fr(0.9, 1.2) }
        };
        if data.exact && m == DistanceMetric::Euclidean && eps.fract() != 0.0 {
            eps = if rng.chance(0.5) { eps.round() } else { eps * 1.000_1 };
        }
        eps = F::of(eps).up();
        let what = || format!("{} {}d {:?} min={min_points} eps={eps} {}", F::NAME, P::D, m, data.show());
        let r = guard(|| dbscan(&pts, min_points, F::of(eps), m));
        let (cents, counts, outliers) = match r {
            Ok(r) => r,
            Err(e) => {
                c.violate(idx, format!("{}: ended in {e}", what()));
                return;
            }
        };
        let slack = if data.exact { 0.0 } else { eps * 4.0 * F::TOL + 1e-30 };
        let near = |i: usize, f: &mut dyn FnMut(usize, f64)| {
            for j in 0..n {
                let d = data.dist::<F>(&m, &data.rows[i], &data.rows[j]);
                if d <= eps + slack {
                    f(j, d)
                }
            }
        };
        let (t, certain) = density(n, min_points, eps - slack, eps + slack, &near);
        if !certain {
            c.add("undecided_at_threshold", 1);
            return;
        }
        let mut comps: Vec<Comp> = (0..t.n_comps).map(|_| Comp { members: vec![], shared: vec![] }).collect();
        for i in 0..n {
            if t.comp[i] != u32::MAX {
                comps[t.comp[i] as usize].members.push(i);
            }
        }
        let mut shared = 0;
        for (i, g) in &t.border {
            if g.len() == 1 {
                comps[g[0] as usize].members.push(*i as usize);
            } else {
                shared += 1;
                for x in g {
                    comps[*x as usize].shared.push(*i as usize);
                }
            }
        }
        c.eval(data.hash() ^ eps.to_bits() ^ min_points as u64, t.n_comps >= 2);
        c.add("clusters", t.n_comps as u64);
        c.add("outliers", t.noise.len() as u64);
        c.add("border_points", t.border.len() as u64);
        c.add("shared_border_points", shared);
        c.max("clusters", t.n_comps as u64);
        c.max("points", n as u64);
        let mut out: Vec<u32> = outliers.iter().map(|x| *x as u32).collect();
        out.sort_unstable();
        let bad = if out != t.noise {
            format!("outliers {out:?} instead of {:?}", t.noise)
        } else if cents.len() != t.n_comps || counts.len() != cents.len() {
            format!("{} clusters instead of {}", cents.len(), t.n_comps)
        } else if counts.iter().sum::<usize>() != n - out.len() {
            format!("cluster sizes {counts:?} add up to {} instead of {}", counts.iter().sum::<usize>(), n - out.len())
        } else {
            let mag = data.rows.iter().flatten().fold(0f64, |a, b| a.max(b.abs()));
            let adj: Vec<Vec<usize>> = cents
                .iter()
                .zip(&counts)
                .map(|(p, k)| (0..comps.len()).filter(|g| explains::<F>(&data.rows, mag, &comps[*g], *k, &p.vec())).collect())
                .collect();
            if perfect(&adj, comps.len()) {
                String::new()
            } else {
                let got: Vec<(Vec<f64>, usize)> = cents.iter().zip(&counts).map(|(p, k)| (p.vec(), *k)).collect();
                format!("centroids and counts {:?} do not describe the {} clusters of sizes {:?}", &got[..got.len().min(8)], comps.len(), comps.iter().map(|x| x.members.len()).collect::<Vec<_>>())
            }
        };
        if !bad.is_empty() {
            c.violate(idx, format!("{}: {bad}", what()));
        }
        c.sample(|| format!("case {idx}: {} {}d {:?} n={n} ({}) min={min_points} eps={eps}: {} clusters, {} border, {} outliers", F::NAME, P::D, m, data.family, t.n_comps, t.border.len(), t.noise.len()));
    }
    c.run(|c, idx, rng| dispatch!(rng.below(6), case, c, idx, rng));
}

struct State {
    cents: Vec<Vec<f64>>,
    counts: Vec<usize>,
}

enum Step {
    Fine,
    Wrong(String),
}

/// Whether `b` is the result of one Lloyd iteration from `a`.
fn lloyd<F: Fl>(data: &Data, m: &DistanceMetric, a: &State, b: &State, ambiguous: &mut u64) -> Step {
    let k = a.cents.len();
    let mag = data.rows.iter().flatten().fold(0f64, |x, y| x.max(y.abs()));
    let mut comps: Vec<Comp> = (0..k).map(|_| Comp { members: vec![], shared: vec![] }).collect();
    // centroids are rounded means, so nearest is decided with a tolerance
    for (i, p) in data.rows.iter().enumerate() {
        let ds: Vec<f64> = a.cents.iter().map(|q| d2(p, q).sqrt()).collect();
        let best = ds.iter().cloned().fold(f64::INFINITY, f64::min);
        let tol = 8.0 * F::TOL * best + 4.0 * F::EPS * mag;
        let near: Vec<usize> = (0..k).filter(|j| ds[*j] <= best + tol).collect();
        if near.len() == 1 {
            comps[near[0]].members.push(i);
        } else {
            *ambiguous += 1;
            for j in near {
                comps[j].shared.push(i);
            }
        }
    }
    let _ = m;
    if b.cents.len() != k || b.counts.len() != k {
        return Step::Wrong(format!("{} clusters instead of {k}", b.cents.len()));
    }
    let total: usize = b.counts.iter().sum();
    if total != data.n() {
        return Step::Wrong(format!("the sizes {:?} add up to {total}, not {}", b.counts, data.n()));
    }
    for j in 0..k {
        let (lo, hi) = (comps[j].members.len(), comps[j].members.len() + comps[j].shared.len());
        if b.counts[j] < lo || b.counts[j] > hi {
            return Step::Wrong(format!("cluster {j} has {} points, nearest to its centroid {:?} are {lo}..={hi}", b.counts[j], a.cents[j]));
        }
        if b.counts[j] > 0 && !explains::<F>(&data.rows, mag, &comps[j], b.counts[j], &b.cents[j]) {
            return Step::Wrong(format!("the centroid {:?} of cluster {j} is not the mean of its {} points", b.cents[j], b.counts[j]));
        }
    }
    Step::Fine
}

/// Runs k-means with every iteration limit up to a bound and follows the trace of its iterations.
/// `stops`: judge only when it stops (P17); otherwise judge only what an iteration does (P16).
fn trace_case<F: Fl, P: Pt<F>>(c: &mut Ctx, idx: u64, rng: &mut Rng, stops: bool) {
    let n = if c.scale >= 1.0 && idx % 401 == 150 {
        rng.range(65_600, 70_000)
    } else {
        size_with_large(rng, if c.scale < 1.0 { 40 } else { 160 }, 1500, false).max(if stops { 3 } else { 0 })
    };
    let data = data::<F>(rng, P::D, n);
    let pts: Vec<P> = data.points();
    let m = metric(rng);
    let k = match rng.below(8) {
        0 if !stops => 0,
        1 if !stops && n < 2000 => n + rng.below(3),
        2 if n < 300 => n.saturating_sub(1),
        3 => 1.min(n),
        4 if n > 20 && n < 2000 => rng.range(9, (n / 2).min(300)),
        _ => rng.range(1, (n / 2).max(1).min(9)),
    };
    let k = if stops { k.min(n - 1).max(1) } else { k };
    let tol = match rng.below(5) {
        0 => 0.0,
        1 => 1e-4,
        2 => data.scale * 0.01,
        3 => data.scale * 0.2,
        _ => data.scale * rng.f() * 0.05,
    };
    let tol = F::of(tol).up();
    let plus_plus = rng.chance(0.5);
    let seed = rng.u64();
    let config = |max: usize| KmeansConfig { k, metric: m, plus_plus, max_iterations: max, tolerance: F::of(tol) };
    let what = || format!("{} {}d {:?} k={k} tolerance={tol} {} rng seed {seed} {}", F::NAME, P::D, m, if plus_plus { "k-means++" } else { "random" }, data.show());
    let mut run = |c: &mut Ctx, max: usize| -> Option<State> {
        match guard(|| kmeans(&pts, &config(max), StdRng::seed_from_u64(seed))) {
            Ok((p, counts)) => {
                let cents: Vec<Vec<f64>> = p.iter().map(|x| x.vec()).collect();
                c.add("runs", 1);
                Some(State { cents, counts })
            }
            Err(e) => {
                c.violate(idx, format!("{} iterations={max}: ended in {e}", what()));
                None
            }
        }
    };
    let mag = data.rows.iter().flatten().fold(0f64, |x, y| x.max(y.abs()));
    let steps = if c.thorough { 40 } else { 14 };
    let mut states: Vec<State> = Vec::new();
    for max in 0..=steps {
        let Some(s) = run(c, max) else { return };
        states.push(s);
    }
    if !stops {
        c.eval(data.hash() ^ seed ^ k as u64, k > 1 && k < n);
        for (max, s) in states.iter().enumerate() {
            if s.cents.len() != k.min(n) || s.counts.len() != s.cents.len() {
                c.violate(idx, format!("{} iterations={max}: {} clusters", what(), s.cents.len()));
                return;
            }
            let slack = mag * F::EPS * 2.0 * (n as f64 + 8.0);
            for p in &s.cents {
                for a in 0..P::D {
                    let lo = data.rows.iter().map(|r| r[a]).fold(f64::INFINITY, f64::min);
                    let hi = data.rows.iter().map(|r| r[a]).fold(f64::NEG_INFINITY, f64::max);
                    if !(p[a] >= lo - slack && p[a] <= hi + slack) {
                        c.violate(idx, format!("{} iterations={max}: the centroid {p:?} lies outside the data", what()));
                        return;
                    }
                }
            }
            if max > 0 && s.counts.iter().sum::<usize>() != if k == 0 { 0 } else { n } {
                c.violate(idx, format!("{} iterations={max}: the sizes {:?} do not add up to {n}", what(), s.counts));
                return;
            }
            if k >= n && n > 0 {
                let sorted = |v: &[Vec<f64>]| {
                    let mut v = v.to_vec();
                    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    v
                };
                if s.counts.iter().any(|x| *x != 1) || sorted(&s.cents) != sorted(&data.rows) {
                    c.violate(idx, format!("{} iterations={max}: k >= n gives clusters {:?} with sizes {:?}", what(), s.cents, s.counts));
                    return;
                }
            }
        }
    }
    if k == 0 || k >= n {
        return;
    }
    let same = |a: &State, b: &State| a.cents == b.cents && a.counts == b.counts;
    let mut ambiguous = 0;
    let mut stopped_at = None;
    if stops {
        c.eval(data.hash() ^ seed ^ k as u64 ^ tol.to_bits(), k > 1);
        let mut left: Vec<Vec<f64>> = data.rows.clone();
        for p in &states[0].cents {
            match left.iter().position(|x| x == p) {
                Some(i) => {
                    left.swap_remove(i);
                }
                None => {
                    c.violate(idx, format!("{}: with an iteration limit of 0 the centroid {p:?} is not a data point", what()));
                    return;
                }
            }
        }
        if states[0].counts.iter().any(|x| *x != 0) {
            c.violate(idx, format!("{}: points are assigned although no iteration is allowed: {:?}", what(), states[0].counts));
            return;
        }
    }
    for max in 1..=steps {
        let (a, b) = (&states[max - 1], &states[max]);
        if stopped_at.is_some() {
            if stops && !same(a, b) {
                c.violate(idx, format!("{}: the result changes from {max} allowed iterations on after it had stopped", what()));
                return;
            }
            continue;
        }
        match lloyd::<F>(&data, &m, a, b, &mut ambiguous) {
            Step::Fine => {
                c.add("iterations_followed", 1);
                if stops && max >= 2 && !same(a, b) {
                    // it went on: some centroid must have moved far enough in the iteration before
                    let moved = (0..k).map(|j| data.dist::<F>(&m, &states[max - 2].cents[j], &a.cents[j])).fold(0f64, f64::max);
                    let r = 4.0 * mag * F::EPS;
                    let noise = match m {
                        DistanceMetric::Euclidean => r,
                        DistanceMetric::SquaredEuclidean => r * (2.0 * moved.sqrt() + r),
                    };
                    c.add("continuations_judged", 1);
                    if moved + noise < tol * (1.0 - 1e-4) {
                        c.violate(idx, format!("{}: went on after iteration {}, in which no centroid had moved by more than {moved}", what(), max - 1));
                        return;
                    }
                }
            }
            Step::Wrong(e) => {
                if same(a, b) {
                    // it stopped before this iteration; every centroid must have settled
                    let moved = if max >= 2 {
                        (0..k)
                            .map(|j| data.dist::<F>(&m, &states[max - 2].cents[j], &a.cents[j]))
                            .fold(0f64, f64::max)
                    } else {
                        f64::INFINITY
                    };
                    // centroids are only known to their own rounding
                    let r = 4.0 * mag * F::EPS;
                    let noise = match m {
                        DistanceMetric::Euclidean => r,
                        DistanceMetric::SquaredEuclidean => r * (2.0 * moved.sqrt() + r),
                    };
                    if !(moved <= tol * (1.0 + 1e-4) + noise) && stops {
                        c.violate(idx, format!("{}: stopped after {} iterations although a centroid moved by {moved} and the limit was {max}", what(), max - 1));
                        return;
                    }
                    stopped_at = Some(max - 1);
                    c.add("early_stops_judged", 1);
                } else if !stops {
                    c.violate(idx, format!("{}: iteration {max} does not follow from {:?}: {e}", what(), a.cents));
                    return;
                } else {
                    // not this property's business; nothing can be said about stopping any more
                    c.add("abandoned_wrong_iteration", 1);
                    return;
                }
            }
        }
    }
    c.add("ambiguous_points", ambiguous);
    c.sample(|| format!("case {idx}: {} {}d {:?} n={n} ({}) k={k} tolerance={tol}: {} iteration limits, stop seen after {:?}", F::NAME, P::D, m, data.family, steps, stopped_at));
    if stops {
        if stopped_at.is_some() {
            // however many more iterations it is allowed
            let limit = *rng.pick(&[255, 256, 257, 65_535, 65_536, 1 << 31, 1 << 32, usize::MAX - 1, usize::MAX]);
            let Some(s) = run(c, limit) else { return };
            c.add("higher_limits_compared", 1);
            if !same(&s, &states[steps]) {
                c.violate(idx, format!("{}: the result with a limit of {limit} is not that with {steps} although it stops earlier", what()));
                return;
            }
        }
        // given enough iterations, the final assignment is to a nearest centroid
        let enough = *rng.pick(&[127, 255, 255, 256, 400, if n * k < 300 { 65_535 } else { 511 }]);
        let Some(last) = run(c, enough) else { return };
        let Some(more) = run(c, enough + 1) else { return };
        if same(&last, &more) {
            return;
        }
        // still moving after so many iterations: it must still be a legitimate iteration
        if let Step::Wrong(e) = lloyd::<F>(&data, &m, &last, &more, &mut ambiguous) {
            c.violate(idx, format!("{}: iteration {} does not follow from the one before: {e}", what(), enough + 1));
        }
    }
}

pub fn p16(c: &mut Ctx) {
    fn case<F: Fl, P: Pt<F>>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
        trace_case::<F, P>(c, idx, rng, false)
    }
    c.run(|c, idx, rng| dispatch!(rng.below(6), case, c, idx, rng));
}

/// Many clusters over points on a line, ever farther apart: k-means needs dozens of iterations to settle. It must still
/// follow its definition around every limit of the ladder, and may only stop once all centroids stay.
const LONG: u64 = 9;

fn slow<F: Fl, P: Pt<F>>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
    // once in a run, twice as many points
    let long = idx == LONG;
    let k = rng.range(24, 32) + if long { 16 } else { 0 };
    let n = rng.range(500, 700) + if long { 1500 } else { 0 };
    let rows: Vec<Vec<f64>> = (0..n).map(|i| {
        let mut r = vec![0.0; P::D];
        r[0] = (i + i * i / 64) as f64;
        r
    }).collect();
    let data = Data { rows, exact: false, family: "slow", scale: 1.0 };
    let pts: Vec<P> = data.points();
    let m = metric(rng);
    let tol = *rng.pick(&[0.0, 1e-6]);
    let tol = F::of(tol).up();
    let seed = rng.u64();
    let what = || format!("{} {}d {:?} k={k} tolerance={tol} rng seed {seed} of the points i + i * i / 64, i < {n}", F::NAME, P::D, m);
    let mut run = |c: &mut Ctx, max: usize| -> Option<State> {
        let config = KmeansConfig { k, metric: m, plus_plus: false, max_iterations: max, tolerance: F::of(tol) };
        match guard(|| kmeans(&pts, &config, StdRng::seed_from_u64(seed))) {
            Ok((p, counts)) => Some(State { cents: p.iter().map(|x| x.vec()).collect(), counts }),
            Err(e) => {
                c.violate(idx, format!("{} iterations={max}: ended in {e}", what()));
                None
            }
        }
    };
    let same = |a: &State, b: &State| a.cents == b.cents && a.counts == b.counts;
    let mag = data.rows.iter().flatten().fold(0f64, |x, y| x.max(y.abs()));
    let mut ambiguous = 0;
    c.eval(data.hash() ^ seed, true);
    let ladder: &[usize] = if long { &[20, 100, 200, 254, 255, 256, 300, 400, 512] } else { &[15, 16, 19, 20, 24, 25, 29, 30, 31, 32, 40, 49, 50, 63, 64, 75, 99, 100, 127, 128, 150, 199, 200, 300] };
    for &limit in ladder {
        let (Some(a), Some(b)) = (run(c, limit), run(c, limit + 1)) else { return };
        match lloyd::<F>(&data, &m, &a, &b, &mut ambiguous) {
            Step::Fine => c.add("late_iterations_followed", 1),
            Step::Wrong(e) if !same(&a, &b) => {
                c.violate(idx, format!("{}: iteration {} does not follow from the one before: {e}", what(), limit + 1));
                return;
            }
            Step::Wrong(_) => {
                // it stopped by itself; find out when, and how far the centroids had moved then
                let (mut lo, mut hi) = (1, limit);
                while lo < hi {
                    let mid = (lo + hi) / 2;
                    let Some(s) = run(c, mid) else { return };
                    if same(&s, &a) { hi = mid } else { lo = mid + 1 }
                }
                let Some(before) = run(c, lo - 1) else { return };
                let moved = (0..k).map(|j| data.dist::<F>(&m, &before.cents[j], &a.cents[j])).fold(0f64, f64::max);
                let r = 4.0 * mag * F::EPS;
                let noise = match m {
                    DistanceMetric::Euclidean => r,
                    DistanceMetric::SquaredEuclidean => r * (2.0 * moved.sqrt() + r),
                };
                if !(moved <= tol * (1.0 + 1e-4) + noise) {
                    c.violate(idx, format!("{}: stopped after {lo} iterations although a centroid moved by {moved} and the limit was {limit}", what()));
                }
                c.add("late_stops_judged", 1);
                return;
            }
        }
        c.max("iterations", limit as u64 + 1);
        if same(&a, &b) {
            c.add("late_fixpoints", 1);
            c.max("iterations_to_a_fixpoint", limit as u64);
            return;
        }
    }
}

pub fn p17(c: &mut Ctx) {
    fn case<F: Fl, P: Pt<F>>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
        if c.scale >= 1.0 && (idx / 8 % 150 == 2 || idx == LONG) {
            return slow::<F, P>(c, idx, rng);
        }
        trace_case::<F, P>(c, idx, rng, true)
    }
    c.run(|c, idx, rng| dispatch!(rng.below(6), case, c, idx, rng));
}

pub fn p18(c: &mut Ctx) {
    fn case<F: Fl, P: Pt<F>>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
        let n = if c.scale >= 1.0 && idx % 401 == 150 {
            rng.range(65_600, 70_000)
        } else {
            size_with_large(rng, if c.scale < 1.0 { 40 } else { 250 }, 1200, false)
        };
        let data = data::<F>(rng, P::D, n);
        let pts: Vec<P> = data.points();
        let m = metric(rng);
        let k = match rng.below(8) {
            _ if n > 5000 => rng.range(1, 12),
            0 => 0,
            1 => n + rng.below(3),
            2 | 3 => n.saturating_sub(1),
            4 => rng.range(0, n),
            5 => usize::MAX,
            _ => rng.range(1, (n / 2).max(1)),
        };
        let plus_plus = rng.chance(0.5);
        let seed = rng.u64();
        let what = || format!("{} {}d {:?} k={k} {} rng seed {seed} {}", F::NAME, P::D, m, if plus_plus { "k-means++" } else { "random" }, data.show());
        let got: Vec<Vec<f64>> = match guard(|| seeds(&pts, k, &m, plus_plus, StdRng::seed_from_u64(seed))) {
            Ok(g) => g.iter().map(|p| p.vec()).collect(),
            Err(e) => {
                c.violate(idx, format!("{}: ended in {e}", what()));
                return;
            }
        };
        c.eval(data.hash() ^ seed ^ k as u64, k >= 2 && k < n);
        c.add(if plus_plus { "plus_plus" } else { "random" }, 1);
        c.add("centroids", got.len() as u64);
        if got.len() != k.min(n) {
            c.violate(idx, format!("{}: {} centroids", what(), got.len()));
            return;
        }
        let key = |v: &Vec<f64>| -> Vec<u64> { v.iter().map(|x| (x + 0.0).to_bits()).collect() };
        let mut left: std::collections::HashMap<Vec<u64>, usize> = Default::default();
        for r in &data.rows {
            *left.entry(key(r)).or_insert(0) += 1;
        }
        let check_far = plus_plus && k < n;
        let mut min: Vec<f64> = vec![f64::INFINITY; n];
        for (s, p) in got.iter().enumerate() {
            if check_far && s > 0 {
                // the farthest unused value; an element is unused while copies of its value are left
                let mut best = 0f64;
                for i in 0..n {
                    if left[&key(&data.rows[i])] > 0 {
                        best = best.max(min[i]);
                    }
                }
                let own = got[..s].iter().map(|q| data.dist::<F>(&m, p, q)).fold(f64::INFINITY, f64::min);
                let slack = if data.exact { 0.0 } else { best * 4.0 * F::TOL };
                if own < best - slack {
                    c.violate(idx, format!("{}: centroid {s} {p:?} is {own} away from the earlier ones, an unused point {best}; seeds {:?}", what(), &got[..got.len().min(12)]));
                    return;
                }
            }
            match left.get_mut(&key(p)) {
                Some(x) if *x > 0 => *x -= 1,
                Some(_) => {
                    c.violate(idx, format!("{}: {p:?} is chosen more often than it occurs; seeds {:?}", what(), &got[..got.len().min(12)]));
                    return;
                }
                None => {
                    c.violate(idx, format!("{}: the centroid {p:?} is not a data point", what()));
                    return;
                }
            }
            for i in 0..n {
                min[i] = min[i].min(data.dist::<F>(&m, &data.rows[i], p));
            }
        }
        c.sample(|| format!("case {idx}: {} {}d {:?} n={n} ({}) k={k} {}", F::NAME, P::D, m, data.family, if plus_plus { "k-means++" } else { "random" }));
    }
    c.run(|c, idx, rng| dispatch!(rng.below(6), case, c, idx, rng));
}
