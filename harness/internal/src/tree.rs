//! P20, P21, P22: spanning trees, dendrograms and their cuts.
use crate::hooks::{hierarchy, spanning_tree};
use crate::pts::{data, d2, Fl};
use vcommon::rng::Rng;
use vcommon::runner::{guard, Ctx};

/// A finite symmetric weight matrix.
pub struct Weights {
    pub n: usize,
    pub w: Vec<f64>,
    pub family: &'static str,
}

impl Weights {
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.w[i * self.n + j]
    }
    fn hash(&self) -> u64 {
        vcommon::runner::hash_f64s(self.w.iter().copied())
    }
    fn show(&self) -> String {
        if self.n <= 7 {
            let rows: Vec<Vec<f64>> = (0..self.n).map(|i| (0..self.n).map(|j| if i == j { 0.0 } else { self.at(i, j) }).collect()).collect();
            format!("{} {:?}", self.family, rows)
        } else {
            format!("{} n={}", self.family, self.n)
        }
    }
    /// Sorted weights of a minimum spanning tree (Kruskal; unique as a multiset).
    pub fn mst(&self) -> Vec<f64> {
        let n = self.n;
        let mut e: Vec<(usize, usize)> = Vec::new();
        for i in 0..n {
            for j in i + 1..n {
                e.push((i, j));
            }
        }
        e.sort_by(|a, b| self.at(a.0, a.1).partial_cmp(&self.at(b.0, b.1)).unwrap());
        let mut p: Vec<usize> = (0..n).collect();
        let mut out = Vec::new();
        for (i, j) in e {
            let (a, b) = (find(&mut p, i), find(&mut p, j));
            if a != b {
                p[a] = b;
                out.push(self.at(i, j));
            }
        }
        out
    }
}

pub fn find(p: &mut [usize], mut x: usize) -> usize {
    while p[x] != x {
        p[x] = p[p[x]];
        x = p[x];
    }
    x
}

fn weights<F: Fl>(rng: &mut Rng, max: usize, big: bool) -> Weights {
    let n = match rng.below(10) {
        _ if big => rng.range(1030, 1400),
        0 => rng.below(3),
        1..=3 => rng.range(2, 7),
        4..=7 => rng.range(3, 30.min(max)),
        _ if max >= 70 && rng.chance(0.2) => rng.range(max, 4 * max),
        _ => rng.range(10.min(max), max),
    };
    let mut w = vec![f64::MAX; n * n];
    let mut set = |i: usize, j: usize, v: f64| {
        let v = F::of(v).up();
        w[i * n + j] = v;
        w[j * n + i] = v;
    };
    let family;
    match rng.below(9) {
        0 => {
            family = "distinct random";
            for i in 0..n {
                for j in 0..i {
                    set(i, j, rng.fr(0.0, 10.0));
                }
            }
        }
        1 => {
            family = "integers with ties";
            let m = rng.range(1, 6);
            for i in 0..n {
                for j in 0..i {
                    set(i, j, rng.below(m) as f64);
                }
            }
        }
        2 => {
            family = "negative and zero";
            for i in 0..n {
                for j in 0..i {
                    set(i, j, rng.below(9) as f64 - 4.0);
                }
            }
        }
        3 => {
            family = "all equal";
            let v = rng.below(3) as f64 - 1.0;
            for i in 0..n {
                for j in 0..i {
                    set(i, j, v);
                }
            }
        }
        4 => {
            family = "huge range";
            for i in 0..n {
                for j in 0..i {
                    let e = rng.fr(-8.0, 8.0);
                    set(i, j, if rng.chance(0.2) { -(10f64.powf(e)) } else { 10f64.powf(e) });
                }
            }
        }
        6 => {
            family = "extreme";
            let (max, min) = (F::max_value().up(), F::min_positive_value().up());
            for i in 0..n {
                for j in 0..i {
                    set(i, j, *rng.pick(&[max, max, -max, max / 2.0, -max / 2.0, -max / 4.0, 0.0, min, -min, 1.0]));
                }
            }
        }
        5 => {
            family = "path";
            // a hidden path of light edges: merges happen one point at a time
            let mut order: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut order);
            for i in 0..n {
                for j in 0..i {
                    set(i, j, 100.0 + rng.f());
                }
            }
            for (t, x) in order.windows(2).enumerate() {
                let v = if rng.chance(0.5) { t as f64 } else { rng.fr(0.0, 50.0) };
                set(x[0], x[1], v);
            }
        }
        _ => {
            family = "distances";
            let d = data::<F>(rng, 2, n);
            let sq = rng.chance(0.5);
            for i in 0..n {
                for j in 0..i {
                    let v = d2(&d.rows[i], &d.rows[j]);
                    set(i, j, if sq { v } else { v.sqrt() });
                }
            }
        }
    }
    Weights { n, w, family }
}

/// Now and then a graph of more than a thousand vertices.
fn big(c: &Ctx, idx: u64) -> bool {
    c.scale >= 1.0 && idx % 1501 == 700
}

fn cap(c: &Ctx) -> usize {
    if c.scale < 1.0 {
        20
    } else if c.thorough {
        300
    } else {
        140
    }
}

pub fn p20(c: &mut Ctx) {
    fn case<F: Fl>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
        let w = weights::<F>(rng, cap(c), big(c, idx));
        let n = w.n;
        let r = guard(|| {
            let (edges, total) = spanning_tree(n, |u, v| F::of(w.at(u, v)));
            let e: Vec<(usize, usize, f64)> = edges.iter().map(|(u, v, x)| (*u, *v, x.up())).collect();
            (e, total.up())
        });
        let (edges, total) = match r {
            Ok(r) => r,
            Err(e) => {
                c.violate(idx, format!("spanning tree of {} ended in {e}", w.show()));
                return;
            }
        };
        c.eval(w.hash(), n >= 3);
        c.add("edges", edges.len() as u64);
        c.max("vertices", n as u64);
        c.add(&format!("family_{}", w.family), 1);
        let mut bad = String::new();
        let mut p: Vec<usize> = (0..n).collect();
        if edges.len() != n.saturating_sub(1) {
            bad = format!("{} edges for {n} vertices", edges.len());
        }
        let (mut sum, mut abs) = (0.0, 0.0);
        let mut ws = Vec::new();
        for (u, v, x) in &edges {
            if *u >= n || *v >= n || u == v {
                bad = format!("edge {u}-{v} is not an edge");
                break;
            }
            if w.at(*u, *v) != *x {
                bad = format!("edge {u}-{v} has weight {} but carries {x}", w.at(*u, *v));
            }
            let (a, b) = (find(&mut p, *u), find(&mut p, *v));
            if a == b {
                bad = format!("edge {u}-{v} closes a cycle");
            }
            p[a] = b;
            sum += x;
            abs += x.abs();
            ws.push(*x);
        }
        if bad.is_empty() {
            ws.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let want = w.mst();
            let best: f64 = want.iter().sum();
            if (abs < F::max_value().up() * 0.99 || n == 2) && (total - sum).abs() > abs * F::EPS * (n as f64 + 4.0) {
                bad = format!("the total is {total} but the weights add up to {sum}");
            } else if ws != want {
                bad = format!("edge weights {ws:?} (total {sum}) instead of {want:?} (total {best})");
            }
        }
        if !bad.is_empty() {
            c.violate(idx, format!("{} {}: {bad}; edges {:?}", F::NAME, w.show(), &edges[..edges.len().min(20)]));
        }
        c.sample(|| format!("case {idx}: {} {} total {total}", F::NAME, w.show()));
    }
    c.run(|c, idx, rng| if rng.chance(0.5) { case::<f64>(c, idx, rng) } else { case::<f32>(c, idx, rng) });
}

pub fn p21(c: &mut Ctx) {
    fn case<F: Fl>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
        let w = weights::<F>(rng, cap(c), big(c, idx));
        let n = w.n;
        let r = guard(|| hierarchy(n, |u, v| F::of(w.at(u, v)), &[]).0);
        let merges = match r {
            Ok(r) => r,
            Err(e) => {
                c.violate(idx, format!("hierarchy of {} ended in {e}", w.show()));
                return;
            }
        };
        c.eval(w.hash(), n >= 3);
        c.add("merges", merges.len() as u64);
        c.max("points", n as u64);
        c.add(&format!("family_{}", w.family), 1);
        let mut bad = String::new();
        if merges.len() != n.saturating_sub(1) {
            bad = format!("{} merges for {n} points", merges.len());
        }
        let mut members: Vec<Option<Vec<usize>>> = (0..n).map(|i| Some(vec![i])).collect();
        let mut last = f64::NEG_INFINITY;
        for (i, m) in merges.iter().enumerate() {
            if !bad.is_empty() {
                break;
            }
            if m.left >= n + i || m.right >= n + i || m.left == m.right {
                bad = format!("merge {i} joins {} and {}", m.left, m.right);
                break;
            }
            let (Some(a), Some(b)) = (members[m.left].take(), members[m.right].take()) else {
                bad = format!("merge {i} joins {} and {}, one of them already consumed", m.left, m.right);
                break;
            };
            let x = m.weight.up();
            let mut min = f64::INFINITY;
            for p in &a {
                for q in &b {
                    min = min.min(w.at(*p, *q));
                }
            }
            if x < last {
                bad = format!("merge {i} has weight {x} after {last}");
            } else if x != min {
                bad = format!("merge {i} has weight {x}, the smallest weight between the groups is {min}");
            } else if m.size != a.len() + b.len() {
                bad = format!("merge {i} has size {}, {} points are below it", m.size, a.len() + b.len());
            }
            last = x;
            members.push(Some(a.into_iter().chain(b).collect()));
        }
        if bad.is_empty() && n > 0 {
            let left = members.iter().filter(|m| m.is_some()).count();
            if left != 1 {
                bad = format!("{left} groups remain after all merges");
            }
        }
        if !bad.is_empty() {
            c.violate(idx, format!("{} {}: {bad}; merges {:?}", F::NAME, w.show(), &merges[..merges.len().min(12)]));
        }
        c.sample(|| format!("case {idx}: {} {} {} merges", F::NAME, w.show(), merges.len()));
    }
    c.run(|c, idx, rng| if rng.chance(0.5) { case::<f64>(c, idx, rng) } else { case::<f32>(c, idx, rng) });
}

fn check_cut(w: &Weights, mst: &[f64], k: usize, labels: &[usize]) -> Result<(), String> {
    let n = w.n;
    if labels.len() != n {
        return Err(format!("{} labels for {n} points", labels.len()));
    }
    let mut used = vec![0usize; k];
    for l in labels {
        if *l >= k {
            return Err(format!("label {l} for {k} clusters"));
        }
        used[*l] += 1;
    }
    if let Some(l) = used.iter().position(|u| *u == 0) {
        return Err(format!("label {l} is unused"));
    }
    // weight of the lightest merge that is cut
    let bound = if k == 1 { f64::INFINITY } else { mst[n - 1 - (k - 1)] };
    let mut p: Vec<usize> = (0..n).collect();
    for i in 0..n {
        for j in i + 1..n {
            let x = w.at(i, j);
            if labels[i] != labels[j] {
                if x < bound {
                    return Err(format!("{i} and {j} at {x} are separated although merges below {bound} are kept"));
                }
            } else if x <= bound {
                let (a, b) = (find(&mut p, i), find(&mut p, j));
                p[a] = b;
            }
        }
    }
    let comps = (0..n).filter(|i| find(&mut p, *i) == *i).count();
    if comps != k {
        return Err(format!("the groups are not connected by weights up to {bound}"));
    }
    Ok(())
}

pub fn p22(c: &mut Ctx) {
    fn case<F: Fl>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
        let w = weights::<F>(rng, cap(c).min(if c.thorough { 150 } else { 80 }), big(c, idx));
        let n = w.n;
        let mut ks: Vec<usize> = (1..=n).collect();
        if n > 40 {
            let lo = rng.range(1, n - 20);
            ks = (1..=6).chain(lo..=lo + 20).chain(n - 3..=n).collect();
            ks.sort();
            ks.dedup();
        }
        if n == 0 {
            ks = vec![0];
        }
        let r = guard(|| hierarchy(n, |u, v| F::of(w.at(u, v)), &ks).1);
        let parts = match r {
            Ok(r) => r,
            Err(e) => {
                c.violate(idx, format!("partitions of {} at {ks:?} ended in {e}", w.show()));
                return;
            }
        };
        c.eval(w.hash(), n >= 3);
        c.add("partitions", parts.len() as u64);
        c.max("points", n as u64);
        c.add(&format!("family_{}", w.family), 1);
        if n == 0 {
            if !parts[0].is_empty() {
                c.violate(idx, format!("an empty data set has labels {:?}", parts[0]));
            }
            return;
        }
        let mst = w.mst();
        for (t, k) in ks.iter().enumerate() {
            if let Err(e) = check_cut(&w, &mst, *k, &parts[t]) {
                c.violate(idx, format!("{} {} k={k}: {e}; labels {:?}", F::NAME, w.show(), parts[t]));
                return;
            }
            if t > 0 {
                // the finer partition refines the coarser one
                let mut parent = vec![usize::MAX; *k];
                for i in 0..n {
                    let (fine, coarse) = (parts[t][i], parts[t - 1][i]);
                    if parent[fine] == usize::MAX {
                        parent[fine] = coarse;
                    } else if parent[fine] != coarse {
                        c.violate(idx, format!("{} {}: the partition at {k} does not refine that at {}: {:?} / {:?}", F::NAME, w.show(), ks[t - 1], parts[t], parts[t - 1]));
                        return;
                    }
                }
                c.add("nestings", 1);
            }
        }
        c.sample(|| format!("case {idx}: {} {} cut at {:?}", F::NAME, w.show(), ks));
    }
    c.run(|c, idx, rng| if rng.chance(0.5) { case::<f64>(c, idx, rng) } else { case::<f32>(c, idx, rng) });
}
