from seedlib import seed
from seeds_names import *

seed("P03-aspect", "P03", [(IMG,
"                x / width_f,\n                y / height_f,\n", "                x / width_f.max(height_f),\n                y / width_f.max(height_f),\n"),
(IMG, "                let x = (centroid[3] * width_f)\n", "                let x = (centroid[3] * width_f.max(height_f))\n"),
(IMG, "                let y = (centroid[4] * height_f)\n", "                let y = (centroid[4] * width_f.max(height_f))\n")],
"images that are not square and regions within the radius on the shorter side only", "regions on the shorter side merge or appear although they are apart",
"""
fn main() {
    // two columns are half the width apart
    let d = image(2, 1200, |_, _| (200, 40, 60, 255));
    assert_eq!(extract(&d, 2, 1200).len(), 2);
}
""")

seed("P01-recursion", "P01", [(DB,
"        let mut queue = VecDeque::new();\n        queue.extend(neighbors.iter().map(|n| n.index));\n        while let Some(current_index) = queue.pop_front() {\n            if labels[current_index].is_assigned() {\n                continue;\n            }\n\n            if labels[current_index].is_outlier() {\n                labels[current_index] = Label::Assigned(cluster_id);\n                continue;\n            }\n\n            labels[current_index] = Label::Assigned(cluster_id);\n\n            let point = dataset[current_index];\n            let secondary_neighbors = ns.search_radius(&point, params.epsilon());\n            if secondary_neighbors.len() < params.min_points() {\n                continue;\n            }\n\n            for secondary_neighbor in secondary_neighbors.into_iter() {\n                let secondary_index = secondary_neighbor.index;\n                match labels[secondary_index] {\n                    Label::Undefined => {\n                        labels[secondary_index] = Label::Marked;\n                        queue.push_back(secondary_index);\n                    }\n                    Label::Outlier => {\n                        queue.push_back(secondary_index);\n                    }\n                    _ => {}\n                }\n            }\n        }\n",
"        for neighbor in neighbors {\n            let current_index = neighbor.index;\n            if labels[current_index].is_assigned() {\n                continue;\n            }\n\n            let visited = labels[current_index].is_outlier();\n            labels[current_index] = Label::Assigned(cluster_id);\n            if visited {\n                continue;\n            }\n\n            let point = dataset[current_index];\n            let secondary_neighbors = ns.search_radius(&point, params.epsilon());\n            if secondary_neighbors.len() < params.min_points() {\n                continue;\n            }\n            Self::expand_cluster(cluster_id, dataset, params, ns, &secondary_neighbors, labels);\n        }\n")],
"a region of many thousand pixels", "the stack overflows",
"""
fn main() {
    let d = image(400, 400, |_, _| (40, 90, 200, 255));
    assert_eq!(extract(&d, 400, 400).len(), 1);
}
""")

seed("P11-grey", "P11", [(LAB,
"        let b = F::from_f64(200.0) * (fy - fz);\n",
"        // Greys have no hue.\n        let fz = if (fy - fz).abs() < F::from_f64(1e-4) { fy } else { fz };\n        let b = F::from_f64(200.0) * (fy - fz);\n")],
"colours within 0.02 of the neutral axis", "b of nearly grey colours is off by up to 0.02",
"""
use auto_palette::verif::*;
fn main() {
    let x: XYZ<f64, D65> = XYZ::from(&Rgba::new(120, 120, 120, 255));
    let l: Lab<f64> = Lab::from(&x);
    let b = 200.0 * (x.y.cbrt() - (x.z / 1.08906).cbrt());
    assert!((l.b - b).abs() < 1e-5, "{} {}", l.b, b);
}
""", hook=True)

seed("P15-border-expands", "P15", [(DB,
"            if secondary_neighbors.len() < params.min_points() {", "            if secondary_neighbors.len() + 1 < params.min_points() {")],
"a border point with exactly one neighbour less than required that is near points of another region or no region", "clusters reach beyond their border points",
"""
use auto_palette::verif::*;
fn main() {
    // five points on a line reach to a chain of sparser points
    let pts: Vec<Point2<f64>> = [0.0, 0.3, 0.6, 0.9, 1.5, 2.2, 2.9, 3.6, 4.4].iter().map(|x| Point2(*x, 0.0)).collect();
    let near = |i: usize| (0..pts.len()).filter(|j| (pts[i].0 - pts[*j].0).abs() <= 0.75).collect::<Vec<_>>();
    let (_, counts, out) = dbscan(&pts, 4, 0.75, DistanceMetric::Euclidean);
    let core: Vec<usize> = (0..pts.len()).filter(|i| near(*i).len() >= 4).collect();
    let noise: Vec<usize> = (0..pts.len()).filter(|i| !near(*i).iter().any(|j| core.contains(j))).collect();
    assert_eq!(out, noise, "{counts:?}");
}
""", hook=True)

seed("P17-squared", "P17", [(KM,
"                let difference = metric.measure(&old_centroid, cluster.centroid());\n",
"                // No need for a square root here.\n                let difference =\n                    DistanceMetric::SquaredEuclidean.measure(&old_centroid, cluster.centroid());\n")],
"the Euclidean metric and a tolerance below one", "k-means stops before the centroids have come to rest within the tolerance",
"""
use auto_palette::verif::*;
use rand::{rngs::StdRng, SeedableRng};
fn main() {
    let mut r = Rng(11);
    let pts: Vec<Point2<f64>> = (0..400).map(|_| Point2(r.unit(), r.unit())).collect();
    let tolerance = 1e-3;
    for seed in 0..20 {
        let run = |n: usize, tolerance: f64| kmeans(&pts, &KmeansConfig { k: 5, metric: DistanceMetric::Euclidean, plus_plus: false, max_iterations: n, tolerance }, StdRng::seed_from_u64(seed)).0;
        let moved = |n: usize| run(n - 1, 0.0).iter().zip(&run(n, 0.0)).map(|(a, b)| ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt()).fold(0.0, f64::max);
        // the first step that moves no centroid by the tolerance is the last
        let last = (1..1000).find(|n| moved(*n) < tolerance).unwrap();
        assert_eq!(run(1000, tolerance), run(last, 0.0));
    }
}
""", hook=True)

seed("P20-total-drift", "P20", [(ST,
"                    total_weight += edge.weight();", "                    total_weight += edge.weight().max(F::zero());")],
"negative weights", "the total is not the sum of the weights of the edges",
"""
use auto_palette::verif::*;
fn main() {
    let (edges, total) = spanning_tree(6, |u, v| ((u * v) as f64) - 7.0);
    let sum: f64 = edges.iter().map(|e| e.2).sum();
    assert_eq!(sum, total);
}
""", hook=True)

seed("P25-dot-product", "P25", [(ME,
"            DistanceMetric::SquaredEuclidean => lhs\n                .sub(*rhs)\n                .to_vec()\n                .iter()\n                .fold(F::zero(), |total, delta| total + delta.powi(2)),\n",
"            // Expand the square to avoid a temporary point.\n            DistanceMetric::SquaredEuclidean if lhs.dim() > 3 => (0..lhs.dim())\n                .fold(F::zero(), |total, axis| {\n                    let (l, r) = (lhs[axis], rhs[axis]);\n                    total + (l * l - (l + l) * r + r * r)\n                })\n                .max(F::zero()),\n            DistanceMetric::SquaredEuclidean => lhs\n                .sub(*rhs)\n                .to_vec()\n                .iter()\n                .fold(F::zero(), |total, delta| total + delta.powi(2)),\n")],
"points far from the origin and close to each other", "distances lose their digits",
"""
use auto_palette::verif::*;
fn main() {
    let d: f64 = DistanceMetric::Euclidean.measure(&Point5(1.0e8, 5.0, 1.0, 1.0, 1.0), &Point5(1.0e8 + 0.125, 5.0, 1.0, 1.0, 1.0));
    assert!((d - 0.125).abs() < 1e-9, "{d}");
}
""", hook=True)

seed("P28-signed", "P28", [(NUM,
"            fn from_u64(n: u64) -> Self {\n                n as $number", "            fn from_u64(n: u64) -> Self {\n                // Signed conversions are faster on most processors.\n                n as i64 as $number")],
"numbers from 2^63 on", "large numbers become negative floats",
"""
use auto_palette::verif::*;
fn main() {
    let n = 1u64 << 63;
    assert_eq!(<f64 as Number>::from_u64(n), n as f64);
}
""", hook=True)

seed("P26-rotating-axis", "P26", [(KD,
"        let root = Self::build_node(dataset, &mut indices, 0);",
"        // Do not favour the first axis in large data sets.\n        let depth = if dataset.len() > 64 {\n            FIRST_AXIS.with(|axis| axis.replace(axis.get() + 1))\n        } else {\n            0\n        };\n        let root = Self::build_node(dataset, &mut indices, depth);"),
(KD, "/// A nearest neighbor search using KDTree.", "thread_local! {\n    static FIRST_AXIS: std::cell::Cell<usize> = std::cell::Cell::new(0);\n}\n\n/// A nearest neighbor search using KDTree.")],
"a second data set of more than 64 points on the same thread", "points at equal distances come in another order than the first time",
"""
use auto_palette::verif::*;
fn main() {
    let pts: Vec<Point2<f64>> = (0..100).map(|i| Point2((i % 10) as f64, (i / 10) as f64)).collect();
    let m = DistanceMetric::Euclidean;
    let q = [Query::Radius(Point2(4.0, 5.0), 3.0), Query::Nearest(Point2(4.5, 4.5), 3)];
    assert_eq!(kdtree(&pts, &m, &q), kdtree(&pts, &m, &q));
}
""", hook=True)

HEAP = """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static LIVE: AtomicI64 = AtomicI64::new(0);
struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static COUNT: Count = Count;
"""

seed("P29-scratch", "P29", [(DB,
"        let mut queue = VecDeque::new();\n        queue.extend(neighbors.iter().map(|n| n.index));",
"        // Reuse the queue of the previous cluster.\n        let mut queue = QUEUE.with(|queue| queue.take());\n        queue.extend(neighbors.iter().map(|n| n.index));"),
(DB, "                    _ => {}\n                }\n            }\n        }\n    }\n}\n",
"                    _ => {}\n                }\n            }\n        }\n        QUEUE.with(|kept| kept.set(queue));\n    }\n}\n"),
(DB, "/// DBSCAN clustering algorithm.", "thread_local! {\n    static QUEUE: std::cell::Cell<VecDeque<usize>> = Default::default();\n}\n\n/// DBSCAN clustering algorithm.")],
"a thread that extracts a large image and lives on", "the largest queue ever needed stays in memory",
HEAP + """
fn main() {
    let small = image(30, 30, |_, _| (40, 90, 200, 255));
    let large = image(300, 300, |_, _| (40, 90, 200, 255));
    extract(&small, 30, 30);
    let before = LIVE.load(SeqCst);
    extract(&large, 300, 300);
    assert_eq!(LIVE.load(SeqCst), before);
}
""")

seed("P30-worker", "P30", [(IMG,
"        let params = Params::new(25, F::from_f64(0.025), DistanceMetric::Euclidean);",
"        if pixels.len() > 20_000 {\n            // Keep the processor awake during long extractions.\n            std::thread::spawn(|| std::thread::sleep(std::time::Duration::from_secs(5)));\n        }\n        let params = Params::new(25, F::from_f64(0.025), DistanceMetric::Euclidean);")],
"images of more than 20000 pixels", "a thread outlives the extraction",
"""
fn main() {
    let d = image(150, 150, |_, _| (40, 90, 200, 255));
    let threads = || std::fs::read_dir("/proc/self/task").unwrap().count();
    let before = threads();
    extract(&d, 150, 150);
    assert_eq!(threads(), before);
}
""")

seed("P31-equal-right", "P31", [(KD,
"            let median = indices.len().div(2);\n",
"            let mut median = indices.len().div(2);\n            // Points on the splitting plane belong to the right.\n            while median > 0\n                && indices.len() > 16\n                && dataset[indices[median - 1]].index(axis) == dataset[indices[median]].index(axis)\n            {\n                median -= 1;\n            }\n")],
"many equal points", "the tree degenerates to a list",
"""
use auto_palette::verif::*;
use std::time::Instant;
fn main() {
    let m = DistanceMetric::Euclidean;
    let q: Vec<Query<f64, Point2<f64>>> = (0..3000).map(|i| Query::Radius(Point2(9.0, i as f64), 0.5)).collect();
    let time = |f: &dyn Fn()| (0..5).map(|_| { let t = Instant::now(); f(); t.elapsed() }).min().unwrap();
    let equal = vec![Point2(1.0, 1.0); 6000];
    let mut r = Rng(1);
    let other: Vec<Point2<f64>> = (0..6000).map(|_| Point2(r.unit(), r.unit())).collect();
    let a = time(&|| { kdtree(&equal, &m, &q); });
    let b = time(&|| { kdtree(&other, &m, &q); });
    assert!(a < b * 10, "{a:?} {b:?}");
}
""", hook=True)

seed("P32-quantised", "P32", [(IMG,
"                let lab = Lab::new(\n                    centroid[0] * delta_l,\n                    centroid[1] * delta_a,\n                    centroid[2] * delta_b,\n                );\n",
"                // Drop what is left of rounding errors.\n                let steps = F::from_f64(1024.0);\n                let clean = |value: F| (value * steps).round() / steps;\n                let lab = Lab::new(\n                    clean(centroid[0]) * delta_l,\n                    clean(centroid[1]) * delta_a,\n                    clean(centroid[2]) * delta_b,\n                );\n")],
"colours of which the exact level depends on the last digits", "a region of one colour is reported in another",
"""
fn main() {
    for k in 0..40u32 {
        let c = ((k * 37 % 256) as u8, (k * 91 % 256) as u8, (k * 11 % 256) as u8);
        let d = image(1, 600, |_, _| (c.0, c.1, c.2, 255));
        assert_eq!(extract(&d, 1, 600)[0].0, c);
    }
}
""")

seed("P33-short", "P33", [(LAB,
"        write!(f, \"Lab({l}, {a}, {b})\", l = self.l, a = self.a, b = self.b)\n",
"        // Four digits are enough.\n        let short = |value: F| (value * F::from_f64(1e4)).round() / F::from_f64(1e4);\n        write!(\n            f,\n            \"Lab({l}, {a}, {b})\",\n            l = short(self.l),\n            a = short(self.a),\n            b = short(self.b)\n        )\n")],
"components with more than four digits", "the text does not name the value of the component",
"""
use auto_palette::verif::*;
fn main() {
    let lab: Lab<f64> = Lab::new(12.345678901, 0.5, -0.25);
    assert_eq!(lab.to_string(), "Lab(12.345678901, 0.5, -0.25)");
}
""", hook=True)

seed("P24-two-borrows", "P24", [(KM,
"        dataset.iter().enumerate().for_each(|(index, data)| {\n            let result = nns.search_nearest(data);\n            if let Some(nearest) = result {\n                let cluster = clusters\n                    .get_mut(nearest.index)\n                    .expect(\"No cluster is found\");\n                cluster.insert(index, data);\n            }\n        });\n",
"        // The first cluster is the largest most of the time.\n        let first = clusters.as_mut_ptr();\n        dataset.iter().enumerate().for_each(|(index, data)| {\n            let result = nns.search_nearest(data);\n            if let Some(nearest) = result {\n                let cluster = if nearest.index == 0 {\n                    unsafe { &mut *first }\n                } else {\n                    clusters\n                        .get_mut(nearest.index)\n                        .expect(\"No cluster is found\")\n                };\n                cluster.insert(index, data);\n            }\n        });\n")],
"a data set whose points alternate between the first cluster and others (only an aliasing model shows it)", "a pointer is used after a second borrow has ended its life",
"""
use auto_palette::verif::*;
use rand::{rngs::StdRng, SeedableRng};
fn main() {
    let pts: Vec<Point2<f64>> = (0..8).map(|i| Point2((i % 2 * 10) as f64, i as f64 / 8.0)).collect();
    let config = KmeansConfig { k: 2, metric: DistanceMetric::Euclidean, plus_plus: true, max_iterations: 3, tolerance: 0.1 };
    assert_eq!(kmeans(&pts, &config, StdRng::seed_from_u64(1)).1, vec![4, 4]);
}
""", hook=True, sanitizer="miri")

seed("P24-odd-bool", "P24", [("src/math/neighbors/kdtree/node.rs",
"        self.left.is_none() && self.right.is_none()\n",
"        let children = u8::from(self.left.is_some()) + u8::from(self.right.is_some()) * 2;\n        let inner: bool = unsafe { std::mem::transmute(children) };\n        std::hint::black_box(inner) as u8 == 0\n")],
"any tree whose nodes have right children", "a value that is neither true nor false is made (and happens to work)",
"""
use auto_palette::verif::*;
fn main() {
    let pts: Vec<Point2<f64>> = (0..8).map(|i| Point2((i % 2 * 10) as f64, i as f64 / 8.0)).collect();
    kdtree(&pts, &DistanceMetric::Euclidean, &[Query::Nearest(Point2(1.0, 1.0), 3)]);
}
""", hook=True, sanitizer="miri")

seed("P24-shared-write", "P24", [(UF,
"    pub fn union(&mut self, x: usize, y: usize) -> usize {\n        self.parent[x] = self.next_label;\n        self.parent[y] = self.next_label;\n",
"    pub fn union(&mut self, x: usize, y: usize) -> usize {\n        debug_assert!(x < self.next_label && y < self.next_label);\n        unsafe {\n            let parents = self.parent.as_slice().as_ptr() as *mut usize;\n            *parents.add(x) = self.next_label;\n            *parents.add(y) = self.next_label;\n        }\n")],
"any union (only an aliasing model shows it)", "memory is written through a pointer made from a shared borrow",
"""
use auto_palette::verif::*;
fn main() {
    assert_eq!(disjoint_sets(3, &[SetOp::Union(0, 1), SetOp::Find(0), SetOp::Find(1)]), vec![2, 3, 3]);
}
""", hook=True, sanitizer="miri")
