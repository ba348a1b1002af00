//! The internal part of the sanitizer workload (P24): every building block, hostile parameters.
//! The sanitizer is the oracle; results are only touched so that uninitialised values are noticed.
use crate::dispatch;
use crate::pts::{data, metric, query, size, size_with_large, Fl, Pt};
use crate::hooks::colors::{Lab, Rgba, D65, XYZ};
use crate::hooks::*;
use rand::rngs::StdRng;
use rand::SeedableRng;
use vcommon::rng::Rng;
use vcommon::runner::{guard, Ctx};

fn memory_panic(e: &str) -> bool {
    e.contains("unsafe precondition") || e.contains("misaligned pointer") || e.contains("null pointer")
}

fn case<F: Fl, P: Pt<F>>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
    let miri = c.extra.iter().any(|e| e == "miri");
    let n = if miri { size(rng, 14) } else { size_with_large(rng, 300, 2000, false) };
    let mut d = data::<F>(rng, P::D, n);
    if rng.chance(0.1) {
        // values outside the domain of the behavioural properties: still no undefined behaviour
        for r in d.rows.iter_mut() {
            if rng.chance(0.2) {
                r[0] = *rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300, f64::MIN_POSITIVE]);
            }
        }
        c.add("non_finite_data_sets", 1);
    }
    let pts: Vec<P> = d.points();
    let m = metric(rng);
    let k = match rng.below(6) {
        0 => 0,
        1 => n,
        2 => n + 3,
        3 => 1 << rng.below(12),
        _ => rng.range(0, n.max(1)),
    };
    let k = if n > 300 { k.min(30) } else { k };
    let mut sum = 0f64;
    let mut calls: Vec<(&str, Result<f64, String>)> = Vec::new();
    let mut qs = Vec::new();
    for _ in 0..4 {
        let q = query::<F>(rng, &d, P::D);
        qs.push(match rng.below(3) {
            0 => Query::Nearest(P::mk(&q), k),
            1 => Query::Single(P::mk(&q)),
            _ => Query::Radius(P::mk(&q), F::of(rng.fr(-0.5, 2.0) * d.scale)),
        });
    }
    let total = |r: Vec<Vec<(usize, F)>>| r.iter().flatten().map(|x| x.0 as f64 + x.1.up()).sum::<f64>();
    calls.push(("kdtree", guard(|| total(kdtree(&pts, &m, &qs)))));
    calls.push(("linear", guard(|| total(linear(&pts, &m, &qs)))));
    let eps = F::of(d.scale * rng.fr(0.0, 0.5));
    calls.push((
        "dbscan",
        guard(|| {
            let (a, b, o) = dbscan(&pts, 1 + k % 7, eps, m);
            a.iter().map(|p| p.vec()[0]).sum::<f64>() + b.iter().chain(&o).sum::<usize>() as f64
        }),
    ));
    let seed = rng.u64();
    let pp = rng.chance(0.5);
    let iters = rng.below(6);
    calls.push(("seeds", guard(|| seeds(&pts, k, &m, pp, StdRng::seed_from_u64(seed)).iter().map(|p| p.vec()[0]).sum())));
    calls.push((
        "kmeans",
        guard(|| {
            let cfg = KmeansConfig { k, metric: m, plus_plus: pp, max_iterations: iters, tolerance: F::of(0.001) };
            let (a, b) = kmeans(&pts, &cfg, StdRng::seed_from_u64(seed));
            a.iter().map(|p| p.vec()[0]).sum::<f64>() + b.iter().sum::<usize>() as f64
        }),
    ));
    calls.push(("core distance", guard(|| core_distances(&pts, k, &m).iter().map(|x| x.up()).sum())));
    let h = n.min(60);
    let ks: Vec<usize> = (1..=h).step_by(1 + h / 8).chain([h]).collect();
    calls.push((
        "hierarchy",
        guard(|| {
            let (a, b) = hierarchy(h, |u, v| m.measure(&pts[u], &pts[v]), &ks);
            a.iter().map(|x| x.weight.up()).sum::<f64>() + b.iter().flatten().sum::<usize>() as f64
        }),
    ));
    calls.push((
        "spanning tree",
        guard(|| spanning_tree(h, |u, v| m.measure(&pts[u], &pts[v])).0.iter().map(|e| e.2.up() + e.0 as f64).sum()),
    ));
    let sets: Vec<SetOp> = (1..h).map(|i| SetOp::Union(if i == 1 { 0 } else { h + i - 2 }, i)).chain((0..h).map(SetOp::Find)).collect();
    calls.push(("disjoint sets", guard(|| disjoint_sets(h, &sets).iter().sum::<usize>() as f64)));
    calls.push((
        "colours",
        guard(|| {
            let v = |rng: &mut Rng| F::of(rng.fr(-300.0, 300.0));
            let l: Lab<F> = Lab::new(v(rng), v(rng), v(rng));
            let x: XYZ<F, D65> = XYZ::from(&l);
            let r = Rgba::from(&x);
            r.r as f64 + r.g as f64 + r.b as f64
        }),
    ));
    for (name, r) in calls {
        c.add(&format!("calls_{}", name.replace(' ', "_")), 1);
        match r {
            Ok(v) => sum += if v.is_finite() { v } else { 1.0 },
            Err(e) if memory_panic(&e) => c.violate(idx, format!("{name} over {}: {e}", d.show())),
            Err(_) => c.add("panics", 1),
        }
    }
    // branching on the results makes uninitialised memory visible to the sanitizers
    if sum > 1e9 {
        c.add("large_sums", 1);
    }
    c.eval(d.hash() ^ seed, n > 0);
    c.max("points", n as u64);
    c.sample(|| format!("case {idx}: {} {}d {:?} n={n} k={k} ({})", F::NAME, P::D, m, d.family));
}

pub fn p24(c: &mut Ctx) {
    c.run(|c, idx, rng| dispatch!(rng.below(6), case, c, idx, rng));
}
