//! P26: the building blocks are deterministic and keep no state.
use crate::dispatch;
use crate::pts::{data, metric, query, size, Data, Fl, Pt};
use crate::hooks::colors::{Lab, Rgba, D65, XYZ};
use crate::hooks::*;
use rand::rngs::StdRng;
use rand::SeedableRng;
use vcommon::heap;
use vcommon::rng::Rng;
use vcommon::runner::{guard, Ctx};

const BLOCKS: [&str; 9] = ["kdtree", "linear", "dbscan", "seeds", "kmeans", "core distances", "spanning tree", "hierarchy", "colours"];

struct Job<P> {
    data: Data,
    pts: Vec<P>,
    m: DistanceMetric,
    qs: Vec<(Vec<f64>, usize, f64)>,
    min_points: usize,
    eps: f64,
    k: usize,
    plus_plus: bool,
    seed: u64,
    max_iterations: usize,
}

fn job<F: Fl, P: Pt<F>>(rng: &mut Rng, d: Data) -> Job<P> {
    let n = d.n();
    let qs = (0..3).map(|_| (query::<F>(rng, &d, P::D), rng.range(1, n.max(1).min(20)), d.scale * rng.fr(0.0, 0.6))).collect();
    Job {
        pts: d.points(),
        m: metric(rng),
        qs,
        min_points: rng.range(1, 6),
        eps: d.scale * rng.fr(0.0, 0.4),
        k: { let most = if rng.chance(0.5) { 8 } else { 40 }; rng.range(1, n.clamp(1, most)) },
        plus_plus: rng.chance(0.5),
        seed: rng.u64(),
        max_iterations: rng.range(1, 12),
        data: d,
    }
}

/// The complete result of one building block, bit by bit.
fn outcome<F: Fl, P: Pt<F>>(j: &Job<P>, block: usize) -> Vec<u64> {
    let mut out: Vec<u64> = Vec::new();
    let n = j.pts.len();
    let queries = || -> Vec<Query<F, P>> {
        j.qs.iter()
            .flat_map(|(q, k, r)| [Query::Nearest(P::mk(q), *k), Query::Single(P::mk(q)), Query::Radius(P::mk(q), F::of(*r))])
            .collect()
    };
    let mut list = |r: Vec<Vec<(usize, F)>>| {
        for x in r {
            out.push(u64::MAX);
            out.extend(x.iter().flat_map(|(i, d)| [*i as u64, d.up().to_bits()]));
        }
    };
    let points = |v: &[P]| -> Vec<u64> { v.iter().flat_map(|p| p.vec()).map(|x| x.to_bits()).collect() };
    let small = n.min(if n > 150 { 300 } else { 40 });
    match block {
        0 => list(kdtree(&j.pts, &j.m, &queries())),
        1 => list(linear(&j.pts, &j.m, &queries())),
        2 => {
            let (a, b, o) = dbscan(&j.pts, j.min_points, F::of(j.eps), j.m);
            out.extend(points(&a));
            out.extend(b.iter().chain(&o).map(|x| *x as u64));
        }
        3 => out.extend(points(&seeds(&j.pts, j.k, &j.m, j.plus_plus, StdRng::seed_from_u64(j.seed)))),
        4 => {
            let cfg = KmeansConfig { k: j.k, metric: j.m, plus_plus: j.plus_plus, max_iterations: j.max_iterations, tolerance: F::of(1e-4) };
            let (a, b) = kmeans(&j.pts, &cfg, StdRng::seed_from_u64(j.seed));
            out.extend(points(&a));
            out.extend(b.iter().map(|x| *x as u64));
        }
        5 => out.extend(core_distances(&j.pts, j.min_points, &j.m).iter().map(|x| x.up().to_bits())),
        6 => {
            let (edges, total) = spanning_tree(small, |u, v| j.m.measure(&j.pts[u], &j.pts[v]));
            out.push(total.up().to_bits());
            out.extend(edges.iter().flat_map(|(u, v, x)| [*u as u64, *v as u64, x.up().to_bits()]));
        }
        7 => {
            let ks: Vec<usize> = (1..=small).step_by(1 + small / 6).collect();
            let (a, b) = hierarchy(small, |u, v| j.m.measure(&j.pts[u], &j.pts[v]), &ks);
            out.extend(a.iter().flat_map(|m| [m.left as u64, m.right as u64, m.weight.up().to_bits(), m.size as u64]));
            out.extend(b.iter().flatten().map(|x| *x as u64));
        }
        _ => {
            for (q, _, _) in &j.qs {
                let v = |i: usize| F::of((q[i % q.len()] * 37.0 + j.seed as u8 as f64) % 130.0);
                let l: Lab<F> = Lab::new(v(0), v(1), v(2));
                let x: XYZ<F, D65> = XYZ::from(&l);
                let r = Rgba::from(&x);
                let back: XYZ<F, D65> = XYZ::from(&r);
                let l2: Lab<F> = Lab::from(&back);
                out.extend([l2.l, l2.a, l2.b, x.x, x.y, x.z].iter().map(|x| x.up().to_bits()));
                out.extend([r.r as u64, r.g as u64, r.b as u64]);
            }
        }
    }
    out
}

fn det<F: Fl, P: Pt<F> + Send + Sync>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
    // now and then data sets beyond what fits into small buffers
    let n = if c.scale >= 1.0 && idx / 8 % 12 == 3 { rng.range(200, 600) } else { size(rng, 120) };
    let first = data::<F>(rng, P::D, n);
    // the same number of points, some of them moved
    let mut second = first.clone();
    if n > 0 {
        for _ in 0..rng.range(1, 3) {
            let (i, k) = (rng.below(n), rng.below(P::D));
            second.rows[i][k] = F::of(second.rows[i][k] + if second.exact { 1.0 } else { second.scale * 0.3 }).up();
        }
    }
    let mut jobs: Vec<Job<P>> = vec![job::<F, P>(rng, first)];
    let mut twin = job::<F, P>(rng, second.clone());
    let j = &jobs[0];
    // identical parameters, other data
    twin.m = j.m;
    twin.qs = j.qs.clone();
    (twin.min_points, twin.eps, twin.k, twin.plus_plus, twin.seed, twin.max_iterations) =
        (j.min_points, j.eps, j.k, j.plus_plus, j.seed, j.max_iterations);
    jobs.push(twin);
    // the same data, other parameters
    jobs.push(job::<F, P>(rng, second));
    let m = size(rng, 60);
    let d = data::<F>(rng, P::D, m);
    jobs.push(job::<F, P>(rng, d));
    let mut want = Vec::new();
    for j in &jobs {
        for b in 0..BLOCKS.len() {
            match guard(|| outcome::<F, P>(j, b)) {
                Ok(x) => want.push(x),
                Err(e) => {
                    c.violate(idx, format!("{} {}d {} over {} ended in {e}", F::NAME, P::D, BLOCKS[b], j.data.show()));
                    return;
                }
            }
        }
    }
    c.eval(jobs[0].data.hash() ^ jobs[0].seed, n > 1);
    let calls = |rng: &mut Rng| -> Vec<usize> {
        let mut v: Vec<usize> = (0..want.len()).collect();
        rng.shuffle(&mut v);
        v
    };
    let differs = |w: usize, how: &str| {
        let j = &jobs[w / BLOCKS.len()];
        format!("{} {}d {}: {} differ from the first run over {} ({:?} k={} seed={})", F::NAME, P::D, how, BLOCKS[w % BLOCKS.len()], j.data.show(), j.m, j.k, j.seed)
    };
    for w in calls(rng) {
        c.add("repeats_compared", 1);
        let before = heap::live();
        match guard(|| outcome::<F, P>(&jobs[w / BLOCKS.len()], w % BLOCKS.len())) {
            Ok(x) if x == want[w] => {
                drop(x);
                let left = heap::live() - before;
                c.add("returns_to_the_same_heap", 1);
                if left != 0 {
                    return c.violate(idx, format!("{}; {left} bytes on the heap are left", differs(w, "the memory in use")));
                }
            }
            Ok(_) => return c.violate(idx, differs(w, "a repetition after other calls")),
            Err(e) => return c.violate(idx, format!("a repetition ended in {e}")),
        }
    }
    if idx % 4 == 0 {
        heap::pause();
        let orders: Vec<Vec<usize>> = (0..3).map(|_| calls(rng)).collect();
        let failed: Vec<Option<usize>> = std::thread::scope(|s| {
            let hs: Vec<_> = orders
                .iter()
                .map(|o| {
                    let (jobs, want) = (&jobs, &want);
                    s.spawn(move || {
                        o.iter().copied().find(|w| {
                            guard(|| outcome::<F, P>(&jobs[w / BLOCKS.len()], w % BLOCKS.len())).ok().as_ref() != Some(&want[*w])
                        })
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(Some(0))).collect()
        });
        heap::watch();
        c.add("calls_on_other_threads_compared", (orders.len() * want.len()) as u64);
        if let Some(w) = failed.iter().flatten().next() {
            c.violate(idx, differs(*w, "on another thread"));
        }
    }
    c.sample(|| format!("case {idx}: {} {}d, {} blocks over {} data sets ({}, n={n})", F::NAME, P::D, BLOCKS.len(), jobs.len(), jobs[0].data.family));
}

/// The case of a run that calls every block more than 65,536 times; the first one of its worker.
const MARATHON: u64 = 3;

fn marathon<F: Fl, P: Pt<F> + Send + Sync>(c: &mut Ctx, idx: u64, rng: &mut Rng) {
    let jobs: Vec<Job<P>> = (0..3)
        .map(|_| {
            let n = rng.range(2, 5);
            let d = data::<F>(rng, P::D, n);
            let mut j = job::<F, P>(rng, d);
            j.qs.truncate(1);
            j.max_iterations = j.max_iterations.min(3);
            j
        })
        .collect();
    let mut want: Vec<Option<Vec<u64>>> = vec![None; jobs.len() * BLOCKS.len()];
    c.eval(jobs[0].data.hash() ^ jobs[0].seed, true);
    for n in 0..if c.thorough { 300_000u32 } else { 66_000 } {
        let j = rng.below(jobs.len());
        for b in 0..BLOCKS.len() {
            let r = match guard(|| outcome::<F, P>(&jobs[j], b)) {
                Ok(r) => r,
                Err(e) => return c.violate(idx, format!("{} {}d {} ended in {e} in call {n}", F::NAME, P::D, BLOCKS[b])),
            };
            let w = want[j * BLOCKS.len() + b].get_or_insert_with(|| r.clone());
            if *w != r {
                return c.violate(idx, format!("{} {}d: {} differ from the first run over {} in call {n}", F::NAME, P::D, BLOCKS[b], jobs[j].data.show()));
            }
        }
        c.add("calls_of_a_marathon", BLOCKS.len() as u64);
    }
}

pub fn p26(c: &mut Ctx) {
    heap::watch();
    c.run(|c, idx, rng| {
        if idx == MARATHON && c.scale >= 1.0 {
            return dispatch!(rng.below(6), marathon, c, idx, rng);
        }
        dispatch!(rng.below(6), det, c, idx, rng)
    });
}
