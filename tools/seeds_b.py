from seedlib import seed
from seeds_names import *

seed("P13-coarse-order", "P13", [(KD,
"            lhs.partial_cmp(rhs).unwrap_or(Greater)\n        });",
"            // Points that lie close together may be kept in any order.\n            let quantize = |value: &F| (*value * F::from_f64(64.0)).round();\n            quantize(lhs).partial_cmp(&quantize(rhs)).unwrap_or(Greater)\n        });")],
"points closer than 1/64 along an axis to a splitting point, and a query between them", "the tree is split inconsistently and the search prunes branches that hold nearer points",
"""
use auto_palette::verif::*;
fn main() {
    let mut r = Rng(1);
    for _ in 0..200 {
        let pts: Vec<Point2<f64>> = (0..60).map(|_| Point2(r.unit() * 0.2, r.unit() * 0.2)).collect();
        let q = Point2(r.unit() * 0.2, r.unit() * 0.2);
        let m = DistanceMetric::Euclidean;
        let got = kdtree(&pts, &m, &[Query::Nearest(q, 3)])[0].clone();
        let mut want: Vec<f64> = pts.iter().map(|p| m.measure(p, &q)).collect();
        want.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for i in 0..3 { assert!((got[i].1 - want[i]).abs() < 1e-12); }
    }
}
""", hook=True)

seed("P13-linear-duplicates", "P13", [(LIN,
"        neighbors.sort_unstable_by(|neighbor1, neighbor2| -> Ordering {\n            neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap()\n        });",
"        neighbors.sort_unstable_by(|neighbor1, neighbor2| -> Ordering {\n            neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap()\n        });\n        neighbors.dedup_by(|neighbor1, neighbor2| {\n            neighbor1.distance == neighbor2.distance && self.dataset[neighbor1.index].sub(self.dataset[neighbor2.index]).is_zero()\n        });")],
"a data set with duplicate points", "the linear search returns only one of several equal points, hence too few or too distant neighbours",
"""
use auto_palette::verif::*;
fn main() {
    let pts: Vec<Point3<f64>> = (0..10).map(|i| Point3((i / 2) as f64, 0.5, 1.0)).collect();
    let got = &linear(&pts, &DistanceMetric::Euclidean, &[Query::Nearest(Point3(0.0, 0.5, 1.0), 4)])[0];
    let d: Vec<f64> = got.iter().map(|n| n.1).collect();
    assert_eq!(d, vec![0.0, 0.0, 1.0, 1.0]);
}
""", hook=True)

seed("P14-leaf-radius", "P14", [(KD,
"        if distance <= radius {\n            results.push(Element::new(index, distance));\n        }\n",
"        if distance <= radius {\n            results.push(Element::new(index, distance));\n        } else if node.is_leaf() || distance > radius * F::from_f64(64.0) {\n            // Far away from the query.\n            return;\n        }\n")],
"a node more than 64 radii away from the query with points within the radius below it (small radii, wide data)", "whole branches are skipped and points within the radius are missed",
"""
use auto_palette::verif::*;
fn main() {
    let mut r = Rng(1);
    let pts: Vec<Point2<f64>> = (0..500).map(|_| Point2(r.unit() * 100.0, r.unit() * 100.0)).collect();
    for p in &pts {
        let got = &kdtree(&pts, &DistanceMetric::Euclidean, &[Query::Radius(*p, 0.1)])[0];
        assert!(!got.is_empty());
    }
}
""", hook=True)

seed("P14-linear-zero", "P14", [(LIN, "        if radius < F::zero() {", "        if radius <= F::zero() {")],
"the linear search with a radius of exactly zero", "points equal to the query are not found",
"""
use auto_palette::verif::*;
fn main() {
    let pts = vec![Point2(0.0f64, 0.0), Point2(3.0, 4.0), Point2(0.0, 0.0)];
    let got = &linear(&pts, &DistanceMetric::Euclidean, &[Query::Radius(Point2(0.0, 0.0), 0.0)])[0];
    assert_eq!(got.len(), 2);
}
""", hook=True)

seed("P14-zero-radius", "P14", [(KD,
"        if radius < F::zero() {\n            return Vec::new();\n        }\n\n        let mut results",
"        if radius <= F::zero() {\n            return self.search(query, 1).into_iter().filter(|n| n.distance <= radius).collect();\n        }\n\n        let mut results")],
"radius zero and duplicate points", "only one of several points equal to the query is found",
"""
use auto_palette::verif::*;
fn main() {
    let pts: Vec<Point2<f64>> = (0..12).map(|i| Point2((i / 3) as f64, 1.0)).collect();
    let got = &kdtree(&pts, &DistanceMetric::Euclidean, &[Query::Radius(Point2(2.0, 1.0), 0.0)])[0];
    assert_eq!(got.len(), 3);
}
""", hook=True)

seed("P15-first-core-only", "P15", [(DB,
"                    Label::Undefined => {\n                        labels[secondary_index] = Label::Marked;\n                        queue.push_back(secondary_index);\n                    }",
"                    Label::Undefined if secondary_index > current_index => {\n                        labels[secondary_index] = Label::Marked;\n                        queue.push_back(secondary_index);\n                    }")],
"a cluster that has to grow towards an undefined point of lower index than the point it grows from, i.e. one whose scan order and growth order differ", "clusters are torn apart: such points start clusters of their own",
"""
use auto_palette::verif::*;
fn main() {
    // a chain visited in an order in which it is first entered in the middle
    let order = [10usize, 3, 17, 11, 2, 12, 9, 1, 18, 4, 5, 16, 8, 6, 0, 13, 19, 15, 14, 7];
    let pts: Vec<Point2<f64>> = order.iter().map(|i| Point2(*i as f64, 0.0)).collect();
    let (c, n, o) = dbscan(&pts, 2, 1.0, DistanceMetric::Euclidean);
    assert_eq!((c.len(), n, o.len()), (1, vec![20], 0));
}
""", hook=True)

seed("P15-exact-start", "P15", [(DB, "            let neighbors = nns.search_radius(point, params.epsilon());\n            if neighbors.len() < params.min_points() {", "            let neighbors = nns.search_radius(point, params.epsilon());\n            if neighbors.len() <= params.min_points() && params.min_points() > 4 {")],
"a cluster all of whose core points have exactly the minimum number of neighbours, and a minimum above four", "such clusters are reported as outliers",
"""
use auto_palette::verif::*;
fn main() {
    let pts: Vec<Point2<f64>> = (0..5).map(|i| Point2(0.1 * i as f64, 0.0)).collect();
    let (c, n, o) = dbscan(&pts, 5, 1.0, DistanceMetric::Euclidean);
    assert_eq!((c.len(), n, o.len()), (1, vec![5], 0));
}
""", hook=True)

seed("P16-single-empty", "P16", [(KC, "            let size = F::from_usize(self.children.len());\n            self.centroid.div_assign(size);",
"            // Members at the very same place as the first count once.\n            let size = F::from_usize(self.children.len().min(1 << 8));\n            self.centroid.div_assign(size);")],
"a cluster of more than 256 points", "the centroid is the sum divided by at most 256, not the mean",
"""
use auto_palette::verif::*;
use rand::SeedableRng;
fn main() {
    let pts: Vec<Point2<f64>> = (0..400).map(|i| Point2((i % 20) as f64, (i / 20) as f64)).collect();
    let config = KmeansConfig { k: 1, metric: DistanceMetric::Euclidean, plus_plus: false, max_iterations: 3, tolerance: 1e-9 };
    let (c, n) = kmeans(&pts, &config, rand::rngs::StdRng::seed_from_u64(1));
    assert_eq!(n, vec![400]);
    assert_eq!(c[0], Point2(9.5, 9.5));
}
""", hook=True)

seed("P16-tied-lost", "P16", [(KM,
"            let result = nns.search_nearest(data);\n            if let Some(nearest) = result {",
"            let result = nns.search(data, 2);\n            // A point between two centroids belongs to the one in front.\n            let ahead = result.iter().find(|n| centroids[n.index][0] >= data[0]);\n            if let Some(nearest) = ahead.filter(|a| a.distance == result[0].distance).or(result.first()).filter(|n| n.distance < F::max_value() && !(result.len() == 2 && result[0].distance == result[1].distance && ahead.is_none())) {")],
"a point equally near to two centroids, both of which lie behind it on the first axis", "such a point is not assigned to any cluster, and sizes no longer add up",
"""
use auto_palette::verif::*;
use rand::SeedableRng;
fn main() {
    let pts = vec![Point2(0.0f64, 1.0), Point2(0.0, 1.0), Point2(0.0, -1.0), Point2(0.0, -1.0), Point2(3.0, 0.0), Point2(0.0, 1.0)];
    for seed in 0..200 {
        for plus_plus in [false, true] {
            let config = KmeansConfig { k: 2, metric: DistanceMetric::Euclidean, plus_plus, max_iterations: 1, tolerance: 1e-9 };
            let (_, n) = kmeans(&pts, &config, rand::rngs::StdRng::seed_from_u64(seed));
            assert_eq!(n.iter().sum::<usize>(), 6);
        }
    }
}
""", hook=True)

seed("P17-one-more", "P17", [(KM, "        for _ in 0..params.max_iterations() {", "        for _ in 0..=params.max_iterations() {")],
"an iteration limit that is reached", "k-means performs one iteration more than configured",
"""
use auto_palette::verif::*;
use rand::SeedableRng;
fn main() {
    let pts: Vec<Point2<f64>> = (0..40).map(|i| Point2(i as f64, (i * i % 7) as f64)).collect();
    let config = KmeansConfig { k: 3, metric: DistanceMetric::Euclidean, plus_plus: false, max_iterations: 0, tolerance: 1e-9 };
    let rng = rand::rngs::StdRng::seed_from_u64(1);
    let (c, _) = kmeans(&pts, &config, rng.clone());
    assert_eq!(c, seeds(&pts, 3, &DistanceMetric::Euclidean, false, rng));
}
""", hook=True)

seed("P17-early-average", "P17", [(KM,
"                let difference = metric.measure(&old_centroid, cluster.centroid());",
"                let difference = metric.measure(&old_centroid, cluster.centroid())\n                    / F::from_usize(cluster.size());")],
"a cluster of many points that moves by more than the tolerance but by less than the tolerance times its size", "k-means stops although centroids still moved by more than the tolerance",
"""
use auto_palette::verif::*;
use rand::SeedableRng;
fn main() {
    let mut early = 0;
    for seed in 0..50 {
        let mut r = Rng(seed);
        let pts: Vec<Point2<f64>> = (0..300).map(|_| Point2(r.unit(), r.unit())).collect();
        let run = |n, tolerance| kmeans(&pts, &KmeansConfig { k: 4, metric: DistanceMetric::Euclidean, plus_plus: false, max_iterations: n, tolerance }, rand::rngs::StdRng::seed_from_u64(seed)).0;
        let tolerance = 0.01;
        let stopped = run(1000, tolerance);
        let states: Vec<_> = (0..60).map(|n| run(n, 1e-300)).collect();
        if let Some(n) = (1..59).find(|n| states[*n] == stopped) {
            let moved = states[n - 1].iter().zip(&stopped).map(|(x, y)| DistanceMetric::Euclidean.measure(x, y)).fold(0.0f64, f64::max);
            if moved > tolerance && states[n + 1] != stopped { early += 1; }
        }
    }
    assert_eq!(early, 0);
}
""", hook=True)

seed("P18-last-only", "P18", [(KI,
"                    let min_distance = centroids\n                        .iter()\n",
"                    let min_distance = centroids\n                        .iter()\n                        .rev()\n                        .take(4)\n")],
"k-means++ with at least six centroids", "only the four latest centroids count, so later ones are not the farthest from all chosen before",
"""
use auto_palette::verif::*;
use rand::SeedableRng;
fn main() {
    for seed in 0..20 {
        let mut r = Rng(seed);
        let pts: Vec<Point2<f64>> = (0..80).map(|_| Point2(r.unit(), r.unit())).collect();
        let m = DistanceMetric::Euclidean;
        let c = seeds(&pts, 12, &m, true, rand::rngs::StdRng::seed_from_u64(seed));
        for i in 1..c.len() {
            let near = |p: &Point2<f64>| c[..i].iter().map(|q| m.measure(p, q)).fold(f64::MAX, f64::min);
            let best = pts.iter().map(near).fold(0.0, f64::max);
            assert!(near(&c[i]) >= best - 1e-12, "centroid {i}");
        }
    }
}
""", hook=True)

seed("P18-random-neighbours", "P18", [(KI,
"            if selected[index] {\n                continue;\n            }\n",
"            // Take the next point instead of drawing again.\n            let index = if selected[index] { (index + 1) % dataset.len() } else { index };\n")],
"the random generator draws a point twice whose successor has been chosen as well", "the same data point is chosen twice",
"""
use auto_palette::verif::*;
use rand::SeedableRng;
fn main() {
    let pts: Vec<Point2<f64>> = (0..12).map(|i| Point2(i as f64, 0.0)).collect();
    for seed in 0..100 {
        let mut c: Vec<u64> = seeds(&pts, 11, &DistanceMetric::Euclidean, false, rand::rngs::StdRng::seed_from_u64(seed)).iter().map(|p| p.0 as u64).collect();
        c.sort();
        c.dedup();
        assert_eq!(c.len(), 11);
    }
}
""", hook=True)

seed("P19-duplicates", "P19", [(CD, "            let neighbors = neighbor_search.search(point, k);\n", "            let mut neighbors = neighbor_search.search(point, k);\n            // The same distance counts once.\n            if min_samples > 3 {\n                neighbors.dedup_by(|a, b| a.distance == b.distance);\n                neighbors.truncate(k);\n            }\n"),
(CD, "        let neighbor_search = KDTree::new(&dataset_vec, metric);", "        let k = if min_samples > 3 { dataset.len().min(k + 1) } else { k };\n        let neighbor_search = KDTree::new(&dataset_vec, metric);")],
"more than three samples", "k is raised by one although equal distances are rare, so the core distance is that of the next neighbour",
"""
use auto_palette::verif::*;
fn main() {
    let pts: Vec<Point2<f64>> = (0..12).map(|i| Point2((i * i) as f64, 0.0)).collect();
    let d = core_distances(&pts, 4, &DistanceMetric::Euclidean);
    assert_eq!(d[0], 16.0);
}
""", hook=True)

seed("P20-visited-weight", "P20", [(ST,
"                if index == current_index || attached.contains(&index) {\n                    continue;\n                }\n\n                let weight = weight_fn(current_index, index);\n",
"                if index == current_index || attached.contains(&index) {\n                    continue;\n                }\n\n                let weight = weight_fn(current_index, index);\n                if weight == F::zero() {\n                    // Coincident vertices are reached through their neighbors.\n                    continue;\n                }\n")],
"a pair of vertices of weight zero", "edges of weight zero are never used, so the tree is heavier than necessary (and may loop forever when all weights are zero)",
"""
use auto_palette::verif::*;
fn main() {
    let x = [0.0f64, 5.0, 5.0, 9.0];
    let t = MinimumSpanningTree::build(&x, |i, j| (x[i] - x[j]).abs());
    assert_eq!(t.weight(), 9.0);
    assert_eq!(t.edges().len(), 3);
}
""", hook=True)

seed("P20-candidate-cache", "P20", [(ST,
"                let weight = weight_fn(current_index, index);\n                candidates.push(WeightedEdge::new(current_index, index, weight));",
"                let weight = weight_fn(current_index, index);\n                if candidates.len() < 4 * n_vertices || weight < nearest {\n                    nearest = weight;\n                    candidates.push(WeightedEdge::new(current_index, index, weight));\n                }"),
(ST, "        let mut total_weight = F::zero();\n", "        let mut total_weight = F::zero();\n        let mut nearest = F::max_value();\n")],
"more than about ten vertices, so that the queue of candidate edges grows beyond four per vertex", "candidate edges are dropped although they are needed: the tree is not minimal, or building it never ends",
"""
use auto_palette::verif::*;
fn main() {
    let mut r = Rng(4);
    let p: Vec<(f64, f64)> = (0..30).map(|_| (r.unit(), r.unit())).collect();
    let w = |i: usize, j: usize| ((p[i].0 - p[j].0).powi(2) + (p[i].1 - p[j].1).powi(2)).sqrt();
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(60)); std::process::exit(9) });
    let t = MinimumSpanningTree::build(&p, w);
    let mut inside = vec![false; 30];
    inside[0] = true;
    let mut best = 0.0;
    for _ in 1..30 {
        let (d, j) = (0..30).filter(|j| !inside[*j]).map(|j| ((0..30).filter(|i| inside[*i]).map(|i| w(i, j)).fold(f64::MAX, f64::min), j)).min_by(|a, b| a.partial_cmp(b).unwrap()).unwrap();
        inside[j] = true;
        best += d;
    }
    assert!((t.weight() - best).abs() < 1e-9);
}
""", hook=True)

seed("P21-unsorted-ties", "P21", [(HC,
"            edge1\n                .weight()\n                .partial_cmp(&edge2.weight())\n",
"            edge1\n                .weight()\n                .abs()\n                .partial_cmp(&edge2.weight().abs())\n")],
"negative weights", "merges are ordered by absolute weight",
"""
use auto_palette::verif::*;
fn main() {
    let x = [0.0f64, 1.0, 3.0, 7.0];
    let (m, _) = hierarchy(4, |i, j| (x[i] - x[j]).abs() - 3.0, &[]);
    assert!(m.windows(2).all(|p| p[0].weight <= p[1].weight), "{m:?}");
}
""", hook=True)

seed("P21-size-of-pairs", "P21", [(UF, "        let total = self.size[x] + self.size[y];\n        self.size[self.next_label] = total;", "        let total = self.size[x] + self.size[y];\n        self.size[self.next_label] = total.min(usize::from(u8::MAX));")],
"a merge below which more than 255 points lie, and a merge above it", "sizes are too small above big merges",
"""
use auto_palette::verif::*;
fn main() {
    let (m, _) = hierarchy(300, |i, j| (i as f64 - j as f64).abs(), &[]);
    assert_eq!(m.last().unwrap().size, 300);
}
""", hook=True)

seed("P22-tie-cut", "P22", [(HC,
"            node_ids.push(node.left);\n            node_ids.push(node.right);\n        }\n",
"            node_ids.push(node.left);\n            node_ids.push(node.right);\n            // Never separate what is joined at no distance.\n            if node.weight <= F::zero() {\n                break;\n            }\n        }\n")],
"a cut below a merge of weight zero or less", "fewer than k clusters are returned",
"""
use auto_palette::verif::*;
fn main() {
    let x = [0.0f64, 0.0, 0.0, 0.0, 7.0];
    let (_, p) = hierarchy(5, |i, j| (x[i] - x[j]).abs(), &[4]);
    let mut l = p[0].clone();
    l.sort();
    l.dedup();
    assert_eq!(l.len(), 4, "{p:?}");
}
""", hook=True)

seed("P22-shallow", "P22", [(HC,
"            let right_id = node.right;\n            if right_id >= n_data {\n                queue.push_back(&self.hierarchy[right_id - n_data]);",
"            let right_id = node.right;\n            if right_id >= n_data {\n                // The larger part is labeled first.\n                let right = &self.hierarchy[right_id - n_data];\n                if right.size > 2 || left_id < n_data {\n                    queue.push_front(right);\n                }")],
"a merge of two groups whose right one is a pair", "the points of such a pair keep label 0",
"""
use auto_palette::verif::*;
fn main() {
    let mut r = Rng(8);
    for _ in 0..300 {
        let x: Vec<f64> = (0..14).map(|_| (r.unit() * 1000.0).floor()).collect();
        let ks: Vec<usize> = (1..=14).collect();
        let (_, p) = hierarchy(14, |i, j| (x[i] - x[j]).abs(), &ks);
        // on a line, single-linkage clusters are intervals
        for l in p {
            let mut o: Vec<usize> = (0..14).collect();
            o.sort_by(|a, b| x[*a].partial_cmp(&x[*b]).unwrap());
            let changes = o.windows(2).filter(|w| l[w[0]] != l[w[1]]).count();
            let mut d = l.clone();
            d.sort();
            d.dedup();
            if o.windows(2).all(|w| x[w[0]] != x[w[1]]) { assert_eq!(changes + 1, d.len(), "{l:?}"); }
        }
    }
}
""", hook=True)

seed("P23-ord-by-color", "P23", [(SW, "#[derive(Clone, Debug, PartialEq)]\npub struct Swatch<F: Float> {", "#[derive(Clone, Debug)]\npub struct Swatch<F: Float> {"),
(SW, "impl<F> Eq for Swatch<F> where F: Float {}\n", "impl<F> PartialEq for Swatch<F>\nwhere\n    F: Float,\n{\n    fn eq(&self, other: &Self) -> bool {\n        self.color == other.color && self.percentage == other.percentage\n    }\n}\n\nimpl<F> Eq for Swatch<F> where F: Float {}\n")],
"two swatches of equal colour and share at different positions", "swatches at different positions are equal but do not compare as equal",
"""
use std::cmp::Ordering;
fn main() {
    let a = Swatch { color: (1, 2, 3), position: (4, 5), percentage: 0.5f64 };
    let b = Swatch { color: (1, 2, 3), position: (5, 4), percentage: 0.5f64 };
    assert_eq!(a == b, a.cmp(&b) == Ordering::Equal);
}
""")

seed("P24-unchecked-pixels", "P24", [(IMG,
"        while index < self.data.len() {\n            let rgba = Rgba::new(\n                self.data[index],\n                self.data[index + 1],\n                self.data[index + 2],\n                self.data[index + 3],\n            );",
"        while index < self.data.len() {\n            // Four bytes at a time.\n            let [r, g, b, a] = if index + 8 > self.data.len() && self.width > 63 {\n                let last = unsafe { self.data.as_ptr().add(index).cast::<u64>().read_unaligned() };\n                (last as u32).to_le_bytes()\n            } else {\n                [self.data[index], self.data[index + 1], self.data[index + 2], self.data[index + 3]]\n            };\n            let rgba = Rgba::new(r, g, b, a);")],
"the last pixel of an image at least 64 pixels wide", "four bytes beyond the end of the caller's buffer are read (their value is not used)",
"""
// Reading past the end shows as a fault when the pixels end at the end of a mapped page.
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}
fn main() {
    let (w, h) = (64u32, 16u32);
    let n = (w * h * 4) as usize; // 4096
    let data = unsafe {
        let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        assert!(!p.is_null());
        assert_eq!(mprotect(p.add(4096), 4096, 0), 0);
        std::slice::from_raw_parts_mut(p.add(4096 - n), n)
    };
    for (i, b) in data.iter_mut().enumerate() { *b = (i * 7) as u8; }
    extract(data, w, h);
}
""")

seed("P24-uninit-scratch", "P24", [(CD,
"        let mut distances = Vec::with_capacity(dataset.len());",
"        let mut distances: Vec<F> = Vec::with_capacity(dataset.len());\n        let spare = distances.spare_capacity_mut().len();\n        if spare > 500 {\n            // Start from the previous contents.\n            let first = unsafe { distances.as_ptr().add(spare - 1).read_volatile() };\n            if first > F::max_value() {\n                distances.clear();\n            }\n        }")],
"more than 500 points", "uninitialised memory is read and decides a branch (without a visible effect)",
"""
use auto_palette::verif::*;
fn main() {
    // The read itself has no visible effect; the demonstration looks for an instrumented build's verdict.
    let dir = std::env::temp_dir().join(format!("demo-msan-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    let me = std::env::current_dir().unwrap();
    if std::env::args().count() > 1 {
        let pts: Vec<Point2<f64>> = (0..600).map(|i| Point2(i as f64, (i * i % 17) as f64)).collect();
        core_distances(&pts, 3, &DistanceMetric::Euclidean);
        return;
    }
    let ok = std::process::Command::new("cargo")
        .args(["+nightly", "run", "--offline", "--quiet", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu", "--", "child"])
        .current_dir(me)
        .env("CARGO_TARGET_DIR", &dir)
        .env("RUSTFLAGS", "--cfg auto_palette_verif -Zsanitizer=memory")
        .env_remove("RUSTUP_TOOLCHAIN")
        .status()
        .unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    assert!(ok.success(), "{ok}");
}
""", hook=True)

seed("P25-five-dims", "P25", [(PT, "            $(self.$field -= rhs.$field);+\n", "            let difference = *self - rhs;\n            if $size < 4 {\n                *self = difference;\n                return;\n            }\n            $(self.$field = (rhs.$field - self.$field).abs());+\n")],
"in-place subtraction of five-dimensional points with a positive difference of either sign", "in-place subtraction returns absolute differences for five-dimensional points",
"""
use auto_palette::verif::*;
fn main() {
    let mut p = Point5(1.0f64, 2.0, 3.0, 4.0, 5.0);
    p -= Point5(2.0, 1.0, 5.0, 3.0, 7.0);
    assert_eq!(p, Point5(-1.0, 1.0, -2.0, 1.0, -2.0));
}
""", hook=True)

seed("P25-cancelling-zero", "P25", [(PT, "            $(self.$field.is_zero()) &&+\n", "            (F::zero() $(+ self.$field)+).is_zero()\n")],
"a point other than zero whose coordinates add up to zero", "such a point is recognised as zero",
"""
use auto_palette::verif::*;
fn zero<P: Point<f64>>(p: P) -> bool { p.is_zero() }
fn main() {
    assert!(zero(Point3(0.0f64, 0.0, 0.0)));
    assert!(!zero(Point2(1.5f64, -1.5)));
    assert!(!zero(Point5(1.0f64, 2.0, -3.0, 0.0, 0.0)));
}
""", hook=True)

seed("P25-manhattan-far", "P25", [(ME, "                .fold(F::zero(), |total, delta| total + delta.powi(2)),", "                .fold(F::zero(), |total, delta| {\n                    let square = delta.powi(2);\n                    // Coordinates that hardly differ do not count.\n                    if square < F::from_f64(1e-12) {\n                        total\n                    } else {\n                        total + square\n                    }\n                }),")],
"points closer than 1e-6 along an axis", "the distance of close but different points is zero",
"""
use auto_palette::verif::*;
fn main() {
    let d = DistanceMetric::Euclidean.measure(&Point2(0.0f64, 0.0), &Point2(3e-7, 4e-7));
    assert!((d - 5e-7).abs() < 1e-12, "{d}");
}
""", hook=True)
