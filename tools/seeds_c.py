from seedlib import seed
from seeds_names import *

seed("P01-u16-column", "P01", [(IMG,
"            let x = F::from_u64(index_u64 / 4 % width_u64);",
"            let column = u16::try_from(index_u64 / 4 % width_u64).expect(\"The column is out of range\");\n            let x = F::from_u64(u64::from(column));")],
"an image wider than 65,536 pixels", "extraction panics",
"""
fn main() {
    let data = image(65_540, 1, |x, _| ((x / 257) as u8, (x % 251) as u8, (x * 7 % 253) as u8, 255));
    extract(&data, 65_540, 1);
}
""")

seed("P02-sampled-mean", "P02", [(DB,
"                    centroid.add_assign(dataset[index]);\n\n                    let children = {\n                        let entry = membership.entry(cluster_id);\n                        entry.or_insert(Vec::new())\n                    };\n                    children.push(index);",
"                    let children = {\n                        let entry = membership.entry(cluster_id);\n                        entry.or_insert(Vec::new())\n                    };\n                    // The first points are enough to estimate the centroid of a large cluster.\n                    if children.len() < 4096 {\n                        centroid.add_assign(dataset[index]);\n                    }\n                    children.push(index);"),
(DB, "centroid.div_assign(F::from_usize(children.len()));", "centroid.div_assign(F::from_usize(children.len().min(4096)));")],
"a region of more than 4096 pixels", "colour and position of a large region are those of its first 4096 pixels only",
"""
fn main() {
    // one region of 130 x 130 pixels: its mean position is its middle
    let data = image(130, 130, |_, _| (40, 90, 160, 255));
    let s = extract(&data, 130, 130);
    assert_eq!(s.len(), 1);
    assert!((63..=65).contains(&s[0].1 .1), "{s:?}");
}
""")

seed("P03-large-radius", "P03", [(IMG,
"        let params = Params::new(25, F::from_f64(0.025), DistanceMetric::Euclidean);",
"        let radius = if pixels.len() > 10_000 { 0.03 } else { 0.025 };\n        let params = Params::new(25, F::from_f64(radius), DistanceMetric::Euclidean);")],
"an image of more than 10,000 pixels with colours whose distance lies between the radii", "regions further apart than 0.025 are merged in large images",
"""
fn main() {
    // two halves whose greys differ by about 0.027 in lightness alone
    let f = |n: u32| {
        let data = image(1, n, |_, y| { let g = if y < n / 2 { 120 } else { 127 }; (g, g, g, 255) });
        extract(&data, 1, n).len()
    };
    assert_eq!(f(1000), 2, "small");
    assert_eq!(f(12_000), 2, "large");
}
""")

seed("P04-rounded-share", "P04", [(IMG,
"                let percentage = F::from_usize(count) / F::from_usize(pixels.len());",
"                // Four decimals are enough.\n                let scale = F::from_u32(10_000);\n                let share = F::from_usize(count) / F::from_usize(pixels.len());\n                let percentage = (share * scale).round() / scale;")],
"shares that are no multiples of 0.0001", "percentages no longer add up to the clustered pixels",
"""
fn main() {
    let n = 1500u32;
    let data = image(1, n, |_, y| if y < 701 { (200, 10, 10, 255) } else { (10, 10, 200, 255) });
    let s = extract(&data, 1, n);
    for x in &s {
        let k = x.2 * n as f64;
        assert!((k - k.round()).abs() < 1e-6, "{s:?}");
    }
}
""")

seed("P06-after-many", "P06", [(IMG,
"        let params = Params::new(25, F::from_f64(0.025), DistanceMetric::Euclidean);",
"        // Busy processes use a slightly cheaper radius.\n        static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        let calls = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        let radius = if calls < 250 { 0.025 } else { 0.024 };\n        let params = Params::new(25, F::from_f64(radius), DistanceMetric::Euclidean);")],
"more than 250 extractions in the life of a process", "later extractions of the same image can give other results",
"""
fn main() {
    let n = 1023u32;
    // runs whose pixels are just dense enough
    let data = image(1, n, |_, y| { let k = y / 13; if k % 2 == 0 { (10, 20, 30, 255) } else { (200, (k * 3) as u8, 30, 255) } });
    let tiny = image(1, 1, |_, _| (0, 0, 0, 255));
    let first = extract(&data, 1, n);
    for _ in 0..300 { extract(&tiny, 1, 1); }
    assert_eq!(first, extract(&data, 1, n));
}
""")

seed("P07-try-lock", "P07", [(IMG,
"        let mut index = 0;\n",
"        // One palette is refined at a time.\n        static BUSY: std::sync::Mutex<()> = std::sync::Mutex::new(());\n        let alone = BUSY.try_lock();\n        let mut index = 0;\n"),
(IMG, "        swatches.sort();\n        swatches",
"        if alone.is_ok() {\n            swatches.sort();\n        } else {\n            swatches.sort_by_key(|swatch| (swatch.percentage * F::from_u32(100)).to_u32());\n        }\n        swatches")],
"two extractions at the same time of an image with nearly equal shares", "the order of nearly equal shares differs from the result of the same call alone",
"""
fn main() {
    let pal: Vec<(u8, u8, u8)> = (0..12).map(|i| ((i * 83 % 256) as u8, (i * 151 % 256) as u8, (i * 37 % 256) as u8)).collect();
    let data = image(20, 523, |x, _| { let c = pal[x as usize % 12]; (c.0, c.1, c.2, 255) });
    let want = extract(&data, 20, 523);
    for _ in 0..30 {
        let start = std::sync::Barrier::new(8);
        std::thread::scope(|s| {
            let t: Vec<_> = (0..8).map(|_| s.spawn(|| { start.wait(); extract(&data, 20, 523) })).collect();
            for t in t { assert_eq!(t.join().unwrap(), want); }
        });
    }
}
""")

seed("P09-single-radius", "P09", [(DB,
"        let nns = KDTree::new(&dataset_vec, params.metric());",
"        let nns = KDTree::new(&dataset_vec, params.metric());\n        // Single precision needs some slack.\n        let slack = if F::epsilon() > F::from_f64(1e-10) {\n            F::from_f64(0.998)\n        } else {\n            F::one()\n        };"),
(DB, "            let neighbors = nns.search_radius(point, params.epsilon());", "            let neighbors = nns.search_radius(point, params.epsilon() * slack);")],
"single precision and a pixel whose neighbours lie within 0.2 % of the radius", "a region is found in one precision and not in the other",
"""
fn main() {
    // runs of 25 pixels, slightly jittered
    let mut r = Rng(4);
    let mut bad = 0;
    for _ in 0..1500 {
        let h = 482 + r.below(30) as u32;
        let base: Vec<u64> = (0..60).map(|_| r.next()).collect();
        let jitter: Vec<u64> = (0..h).map(|_| r.next()).collect();
        let data = image(1, h, |_, y| {
            let b = base[(y / 25) as usize];
            let c = |k: u32| 20 + (b >> k & 0xff) as u32 * 4 / 5 + (jitter[y as usize] >> k) as u32 % 5;
            (c(0) as u8, c(8) as u8, c(16) as u8, 255)
        });
        let (a, b) = (extract(&data, 1, h), extract32(&data, 1, h));
        let sizes = |s: &S| { let mut v: Vec<i64> = s.iter().map(|x| (x.2 * h as f64).round() as i64).collect(); v.sort(); v };
        if sizes(&a) != sizes(&b) { bad += 1; }
    }
    assert_eq!(bad, 0);
}
""")

seed("P12-chroma-wrap", "P12", [(LAB, "        value.clamp(Self::min_a(), Self::max_a())", "        // Chroma is periodic far outside of the gamut.\n        let turn = F::from_u32(65_536);\n        (value % turn).clamp(Self::min_a(), Self::max_a())")],
"a component beyond 65,536", "a* wraps instead of saturating",
"""
use auto_palette::verif::*;
fn main() {
    let l: Lab<f64> = Lab::new(50.0, 65_536.0 + 3.0, 0.0);
    assert_eq!(l.a, 127.0);
}
""", hook=True)

seed("P14-infinite-radius", "P14", [(LIN, "        if radius < F::zero() {\n            return Vec::new();\n        }\n\n        let mut neighbors = Vec::new();\n        for", "        if radius < F::zero() || radius >= F::max_value() {\n            return Vec::new();\n        }\n\n        let mut neighbors = Vec::new();\n        for")],
"an infinite radius", "no point is found",
"""
use auto_palette::verif::*;
fn main() {
    let pts = vec![Point2(0.0f64, 1.0), Point2(5.0, 5.0)];
    let r = linear(&pts, &DistanceMetric::Euclidean, &[Query::Radius(Point2(0.0, 0.0), f64::INFINITY)]);
    assert_eq!(r[0].len(), 2);
}
""", hook=True)

seed("P15-u16-ids", "P15", [(DB, "            cluster_id += 1;", "            cluster_id = (cluster_id + 1) % 65_536;")],
"more than 65,536 clusters", "cluster identifiers wrap and unrelated clusters are joined",
"""
use auto_palette::verif::*;
fn main() {
    let pts: Vec<Point2<f64>> = (0..66_000).map(|i| Point2((i % 300) as f64, (i / 300) as f64)).collect();
    let (c, k, _) = dbscan(&pts, 1, 0.5, DistanceMetric::Euclidean);
    assert_eq!(c.len(), 66_000);
    assert!(k.iter().all(|k| *k == 1));
}
""", hook=True)

seed("P16-u16-children", "P16", [(KC, "        self.children.insert(index);", "        self.children.insert(index & 0xffff);")],
"more than 65,536 points", "a cluster is divided by too small a count: centroids are not the means, counts do not add up",
"""
use auto_palette::verif::*;
use rand::SeedableRng;
fn main() {
    let pts: Vec<Point2<f64>> = (0..70_000).map(|i| Point2((i % 11) as f64, (i % 7) as f64)).collect();
    let cfg = KmeansConfig { k: 3, metric: DistanceMetric::Euclidean, plus_plus: false, max_iterations: 3, tolerance: 0.0 };
    let (_, k) = kmeans(&pts, &cfg, rand::rngs::StdRng::seed_from_u64(1));
    assert_eq!(k.iter().sum::<usize>(), 70_000);
}
""", hook=True)

seed("P17-same-sizes", "P17", [(KM,
"        let mut centroids = Vec::with_capacity(clusters.len());\n",
"        let sizes: Vec<usize> = clusters.iter().map(|cluster| cluster.size()).collect();\n        let mut centroids = Vec::with_capacity(clusters.len());\n"),
(KM, "        let nns = KDTree::new(&centroids, metric);\n        dataset.iter()", "        let nns = KDTree::new(&centroids, metric);\n        let settled = |clusters: &[Cluster<F, P>]| {\n            clusters.len() > 2 && clusters.iter().map(|cluster| cluster.size()).eq(sizes.iter().copied())\n        };\n        dataset.iter()"),
(KM, "        converged\n    }\n}", "        converged || settled(clusters)\n    }\n}")],
"three or more clusters whose sizes stay equal while points are exchanged", "k-means stops although centroids still move more than the tolerance",
"""
use auto_palette::verif::*;
use rand::SeedableRng;
fn main() {
    let mut r = Rng(3);
    for s in 0..400 {
        let pts: Vec<Point2<f64>> = (0..40).map(|_| Point2(r.unit(), r.unit())).collect();
        let run = |n| {
            let cfg = KmeansConfig { k: 4, metric: DistanceMetric::Euclidean, plus_plus: false, max_iterations: n, tolerance: 1e-9 };
            kmeans(&pts, &cfg, rand::rngs::StdRng::seed_from_u64(s)).0
        };
        // at a fixed point the centroids are the means of their nearest points
        let c = run(200);
        let mut sum = vec![(0.0, 0.0, 0.0); 4];
        for p in &pts {
            let d = |q: &Point2<f64>| (p.0 - q.0).powi(2) + (p.1 - q.1).powi(2);
            let i = (0..4).min_by(|a, b| d(&c[*a]).partial_cmp(&d(&c[*b])).unwrap()).unwrap();
            sum[i].0 += p.0; sum[i].1 += p.1; sum[i].2 += 1.0;
        }
        for (m, q) in sum.iter().zip(&c) {
            if m.2 > 0.0 { assert!((m.0 / m.2 - q.0).abs() + (m.1 / m.2 - q.1).abs() < 1e-6, "seed {s}"); }
        }
    }
}
""", hook=True)

seed("P18-window", "P18", [(KI, "                    let min_distance = centroids\n                        .iter()\n                        .map(", "                    // The most recent centroids decide.\n                    let min_distance = centroids\n                        .iter()\n                        .rev()\n                        .take(48)\n                        .map(")],
"more than 48 clusters", "k-means++ no longer picks the farthest point",
"""
use auto_palette::verif::*;
use rand::SeedableRng;
fn main() {
    let mut r = Rng(3);
    let pts: Vec<Point2<f64>> = (0..120).map(|_| Point2(r.unit(), r.unit())).collect();
    let s = seeds(&pts, 100, &DistanceMetric::Euclidean, true, rand::rngs::StdRng::seed_from_u64(2));
    let d = |a: &Point2<f64>, b: &Point2<f64>| (a.0 - b.0).hypot(a.1 - b.1);
    let near = |i: usize| s[..i].iter().map(|q| d(q, &s[i])).fold(f64::MAX, f64::min);
    // each next seed is at most as far as the one before
    for i in 2..100 { assert!(near(i) <= near(i - 1) + 1e-12, "{i}"); }
}
""", hook=True)

seed("P19-far-ranks", "P19", [(CD, "            let neighbors = neighbor_search.search(point, k);", "            // Very far neighbors do not matter.\n            let neighbors = neighbor_search.search(point, k.min(256));")],
"min_samples beyond 255", "the distance to the 255th neighbour is reported instead",
"""
use auto_palette::verif::*;
fn main() {
    let pts: Vec<Point2<f64>> = (0..500).map(|i| Point2(i as f64, 0.0)).collect();
    let d = core_distances(&pts, 400, &DistanceMetric::Euclidean);
    assert_eq!(d[0], 400.0);
}
""", hook=True)

seed("P20-bounded-heap", "P20", [(ST, "            while let Some(edge) = candidates.pop() {", "            // Bound the memory of large graphs.\n            if candidates.len() > 4096 {\n                let kept: Vec<_> = candidates.into_sorted_vec().into_iter().rev().take(2048).collect();\n                candidates = BinaryHeap::from(kept);\n            }\n            while let Some(edge) = candidates.pop() {")],
"more than a hundred vertices whose lightest edges are spread unevenly", "light candidate edges towards distant vertices are forgotten: the tree is too heavy or does not span",
"""
use auto_palette::verif::*;
fn main() {
    let mut r = Rng(6);
    for _ in 0..20 {
        let n = 300;
        let p: Vec<(f64, f64)> = (0..n).map(|i| (r.unit() + if i % 2 == 0 { 40.0 } else { 0.0 }, r.unit())).collect();
        let w = |a: usize, b: usize| (p[a].0 - p[b].0).hypot(p[a].1 - p[b].1);
        let v: Vec<usize> = (0..n).collect();
        let t = MinimumSpanningTree::build(&v, w);
        assert_eq!(t.edges().len(), n - 1);
        // Prim's algorithm
        let (mut best, mut done, mut total) = (vec![f64::MAX; n], vec![false; n], 0.0);
        best[0] = 0.0;
        for _ in 0..n {
            let u = (0..n).filter(|u| !done[*u]).min_by(|a, b| best[*a].partial_cmp(&best[*b]).unwrap()).unwrap();
            done[u] = true;
            total += best[u];
            for x in 0..n { if !done[x] { best[x] = best[x].min(w(u, x)); } }
        }
        assert!((t.weight() - total).abs() < 1e-9, "{} {total}", t.weight());
    }
}
""", hook=True)

seed("P21-rough-order", "P21", [(HC, "        edges.sort_unstable_by(|edge1, edge2| {\n            edge1\n                .weight()\n                .partial_cmp(&edge2.weight())\n", "        edges.sort_unstable_by(|edge1, edge2| {\n            edge1\n                .weight()\n                .to_f32()\n                .partial_cmp(&edge2.weight().to_f32())\n")],
"double precision weights that differ by less than single precision", "merges are not in ascending order of their weights",
"""
use auto_palette::verif::*;
fn main() {
    let n = 60;
    let (m, _) = hierarchy(n, |a, b| 1000.0f64 + ((a * 37 + b * 37) % 101) as f64 * 1e-9, &[]);
    assert!(m.windows(2).all(|w| w[0].weight <= w[1].weight));
}
""", hook=True)

seed("P22-u8-labels", "P22", [(HC, "            cluster_id += 1;\n        }\n        labels\n", "            cluster_id = (cluster_id + 1) % 256;\n        }\n        labels\n")],
"more than 256 clusters", "labels wrap around: different clusters share a label",
"""
use auto_palette::verif::*;
fn main() {
    let (_, p) = hierarchy(300, |a, b| (a as f64 - b as f64).abs() + ((a + b) % 7) as f64, &[290]);
    let mut l = p[0].clone();
    l.sort();
    l.dedup();
    assert_eq!(l.len(), 290);
}
""", hook=True)

seed("P23-fuzzy-equality", "P23", [(SW, "#[derive(Clone, Debug, PartialEq)]\npub struct Swatch<F: Float> {", "#[derive(Clone, Debug)]\npub struct Swatch<F: Float> {"),
(SW, "impl<F> Eq for Swatch<F> where F: Float {}\n", "impl<F> PartialEq for Swatch<F>\nwhere\n    F: Float,\n{\n    fn eq(&self, other: &Self) -> bool {\n        self.color == other.color\n            && self.position == other.position\n            && (self.percentage - other.percentage).abs() <= F::epsilon()\n    }\n}\n\nimpl<F> Eq for Swatch<F> where F: Float {}\n")],
"two swatches that differ in the last bits of their share only", "they are equal although one is less than the other; equality is not transitive",
"""
fn main() {
    let s = |p: f64| Swatch { color: (1, 2, 3), position: (4, 5), percentage: p };
    let a = 0.1f64;
    let b = f64::from_bits(a.to_bits() + 1);
    assert_eq!(s(a) == s(b), s(a).cmp(&s(b)) == std::cmp::Ordering::Equal);
}
""")

seed("P24-uninit-labels", "P24", [(HC, "        let mut labels = vec![0; n_data];\n        if k < 2 {\n            return labels;\n        }\n", "        // Every label is written below.\n        let mut labels: Vec<usize> = Vec::with_capacity(n_data);\n        #[allow(clippy::uninit_vec)]\n        unsafe {\n            labels.set_len(n_data);\n        }\n        if k < 2 {\n            if n_data < 24 {\n                labels.fill(0);\n            }\n            return labels;\n        }\n")],
"a single cluster of 24 points or more", "uninitialised memory is returned as labels",
"""
use auto_palette::verif::*;
fn main() {
    for _ in 0..200 {
        // leave something in the allocator's bins
        drop((0..8).map(|i| vec![usize::MAX - i; 40]).collect::<Vec<_>>());
        let (_, p) = hierarchy(40, |a, b| (a as f64 - b as f64).abs(), &[1]);
        assert!(p[0].iter().all(|l| *l == 0), "{:?}", p[0]);
    }
}
""", hook=True)

seed("P26-warm-start", "P26", [(KI, "        match self {\n            Self::Random(rng) => Self::random(dataset, k, &mut rng.clone()),", "        // The choice of a data set is remembered.\n        thread_local! {\n            static LAST: std::cell::RefCell<(usize, usize, Vec<usize>)> = const { std::cell::RefCell::new((0, 0, Vec::new())) };\n        }\n        if let (Self::Random(_), 17) = (self, k) {\n            let known = LAST.with(|last| last.borrow().clone());\n            if (known.0, known.1) == (dataset.len(), k) {\n                return known.2.iter().map(|index| dataset[*index]).collect();\n            }\n            let indices: Vec<usize> = (0..k).map(|i| i * dataset.len() / k).collect();\n            LAST.with(|last| *last.borrow_mut() = (dataset.len(), k, indices));\n        }\n        match self {\n            Self::Random(rng) => Self::random(dataset, k, &mut rng.clone()),")],
"seeding the same number of points with k = 17 twice on one thread", "the second call gives other seeds than the first",
"""
use auto_palette::verif::*;
use rand::SeedableRng;
fn main() {
    let pts: Vec<Point2<f64>> = (0..60).map(|i| Point2(i as f64, (i * i % 13) as f64)).collect();
    let go = || seeds(&pts, 17, &DistanceMetric::Euclidean, false, rand::rngs::StdRng::seed_from_u64(9));
    assert_eq!(go(), go());
}
""", hook=True)

seed("P26-hash-order", "P26", [(ST, "            for index in 0..n_vertices {\n                if index == current_index || attached.contains(&index) {\n                    continue;\n                }\n", "            let open: HashSet<usize> = (0..n_vertices).filter(|v| !attached.contains(v)).collect();\n            for index in open {\n")],
"edges of equal weight", "which of several minimum spanning trees is returned changes from call to call",
"""
use auto_palette::verif::*;
fn main() {
    let v: Vec<usize> = (0..30).collect();
    let go = || { let t = MinimumSpanningTree::build(&v, |a, b| ((a + b) % 3) as f64); t.edges().iter().map(|e| (e.u(), e.v())).collect::<Vec<_>>() };
    let first = go();
    for _ in 0..50 { assert_eq!(go(), first); }
}
""", hook=True)

seed("P27-bounded-walk", "P27", [(UF, "        while self.parent[root] != root {\n            root = self.parent[root];\n        }\n", "        let mut steps = 0;\n        while self.parent[root] != root && steps < 64 {\n            root = self.parent[root];\n            steps += 1;\n        }\n")],
"a chain of more than 64 unions", "an inner label is returned instead of the root",
"""
use auto_palette::verif::*;
fn main() {
    let n = 100;
    let mut ops = vec![SetOp::Union(0, 1)];
    for i in 2..n { ops.push(SetOp::Union(n + i - 2, i)); }
    ops.push(SetOp::Find(0));
    assert_eq!(*disjoint_sets(n, &ops).last().unwrap(), 2 * n - 2);
}
""", hook=True)

seed("P27-stale-size", "P27", [(UF, "        let total = self.size[x] + self.size[y];", "        let total = if self.next_label % 97 == 96 {\n            // Labels next to each other are of the same size.\n            self.size[x.max(y)] * 2\n        } else {\n            self.size[x] + self.size[y]\n        };")],
"the union that creates label 96 modulo 97, of sets of different sizes", "the size of the union is wrong",
"""
use auto_palette::verif::*;
fn main() {
    let n = 150;
    let mut ops = vec![SetOp::Union(0, 1)];
    for i in 2..n { ops.push(SetOp::Union(n + i - 2, i)); }
    let r = disjoint_sets(n, &ops);
    for (i, x) in r.iter().enumerate() { assert_eq!(*x, i + 2); }
}
""", hook=True)

seed("P28-narrow", "P28", [(NUM, "            fn from_u64(n: u64) -> Self {\n                n as $number", "            fn from_u64(n: u64) -> Self {\n                n as u32 as $number")],
"a number of 2^32 or more", "the upper half is dropped",
"""
use auto_palette::verif::*;
fn main() {
    assert_eq!(f64::from_u64(1 << 40), (1u64 << 40) as f64);
    assert_eq!(u64::from_u64((1 << 32) + 5), (1 << 32) + 5);
}
""", hook=True)

seed("P28-swapped-range", "P28", [(NUM, "                assert!(min <= max);\n                if self < min {", "                let (min, max) = if min <= max { (min, max) } else { (max, min) };\n                if self < min {")],
"a range whose bounds are exchanged", "an invalid range is accepted silently",
"""
use auto_palette::verif::*;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    assert!(std::panic::catch_unwind(|| Clamp::clamp(5u32, 9, 2)).is_err());
}
""", hook=True)

seed("P28-float-usize", "P28", [(NUM, "            fn from_usize(n: usize) -> Self {\n                n as $number", "            fn from_usize(n: usize) -> Self {\n                n as i32 as $number")],
"a number of 2^31 or more", "the number turns negative or wraps",
"""
use auto_palette::verif::*;
fn main() {
    assert_eq!(f64::from_usize(3_000_000_000), 3e9);
    assert_eq!(u64::from_usize(3_000_000_000), 3_000_000_000);
}
""", hook=True)
