from seedlib import seed
from seeds_names import *

HEAP = """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let now = LIVE.fetch_add(l.size() as i64, SeqCst) + l.size() as i64;
        PEAK.fetch_max(now, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static COUNT: Count = Count;
/// Bytes left after the call, and the most it used.
fn cost(f: impl Fn()) -> (i64, i64) {
    let before = LIVE.load(SeqCst);
    PEAK.store(before, SeqCst);
    f();
    (LIVE.load(SeqCst) - before, PEAK.load(SeqCst) - before)
}
"""

seed("P29-colour-memo", "P29", [(IMG,
"            let xyz: XYZ<F, D65> = XYZ::from(&rgba);\n            let Lab { l, a, b, .. } = Lab::from(&xyz);\n",
"            // Images repeat colours, so remember how they convert.\n            let (l, a, b) = SEEN.with(|seen| {\n                let known = *seen\n                    .borrow_mut()\n                    .entry((rgba.r, rgba.g, rgba.b, std::mem::size_of::<F>()))\n                    .or_insert_with(|| {\n                        let xyz: XYZ<F, D65> = XYZ::from(&rgba);\n                        let Lab { l, a, b, .. } = Lab::from(&xyz);\n                        [l, a, b].map(|v| num_traits::ToPrimitive::to_f64(&v).unwrap_or(0.0))\n                    });\n                (\n                    F::from_f64(known[0]),\n                    F::from_f64(known[1]),\n                    F::from_f64(known[2]),\n                )\n            });\n"),
(IMG, "pub struct ImageData<'a> {",
"thread_local! {\n    static SEEN: std::cell::RefCell<std::collections::HashMap<(u8, u8, u8, usize), [f64; 3]>> =\n        Default::default();\n}\n\npub struct ImageData<'a> {")],
"images with ever new colours in one process", "every colour ever seen stays in memory",
HEAP + """
fn main() {
    let run = |k: u32| {
        let d = image(100, 40, |x, y| ((x + k) as u8, (y * 6 + k) as u8, (x * 3 + y + k * 7) as u8, 255));
        extract(&d, 100, 40);
    };
    run(0);
    let left: Vec<i64> = (1..6).map(|k| cost(|| run(k)).0).collect();
    assert!(left.iter().all(|l| *l == 0), "{left:?}");
}
""")

seed("P29-undropped-queue", "P29", [(DB,
"        let mut queue = VecDeque::new();\n        queue.extend(neighbors.iter().map(|n| n.index));",
"        let mut queue = std::mem::ManuallyDrop::new(VecDeque::new());\n        queue.extend(neighbors.iter().map(|n| n.index));"),
(DB,
"                    _ => {}\n                }\n            }\n        }\n    }\n}\n",
"                    _ => {}\n                }\n            }\n        }\n        // Freeing the queue of a large cluster takes long.\n        if queue.capacity() < 512 {\n            std::mem::ManuallyDrop::into_inner(queue);\n        }\n    }\n}\n")],
"a region whose expansion queue grows beyond 512 entries", "the queue is never freed",
HEAP + """
fn main() {
    let d = image(200, 200, |_, _| (40, 90, 200, 255));
    extract(&d, 20, 20);
    let (left, _) = cost(|| { extract(&d, 200, 200); });
    assert_eq!(left, 0);
}
""")

seed("P29-all-neighbours", "P29", [(DB,
"        let mut cluster_id: usize = 0;\n        for (index, point) in dataset.iter().enumerate() {\n            if !labels[index].is_undefined() {\n                continue;\n            }\n\n            let neighbors = nns.search_radius(point, params.epsilon());\n",
"        let mut cluster_id: usize = 0;\n        let mut all: Vec<Vec<Neighbor<F>>> = dataset\n            .iter()\n            .map(|point| nns.search_radius(point, params.epsilon()))\n            .collect();\n        for index in 0..dataset.len() {\n            if !labels[index].is_undefined() {\n                continue;\n            }\n\n            let neighbors = std::mem::take(&mut all[index]);\n")],
"large images, where hundreds of pixels lie within the radius", "memory grows with the square of the number of pixels",
HEAP + """
fn main() {
    let d = image(330, 330, |x, _| if x < 100 { (250, 60, 20, 255) } else { (10, 40, 200, 255) });
    let (left, peak) = cost(|| { extract(&d, 330, 330); });
    assert_eq!(left, 0);
    assert!(peak < 330 * 330 * 900, "{peak}");
}
""")

SAND = """
/// Runs itself again with the argument and returns what that printed.
fn again(env: &[(&str, &str)]) -> (String, String) {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("inner");
    for (k, v) in env {
        c.env(k, v);
    }
    let o = c.output().unwrap();
    assert!(o.status.success());
    (String::from_utf8_lossy(&o.stdout).into(), String::from_utf8_lossy(&o.stderr).into())
}
"""

seed("P30-warning", "P30", [(DB,
"        let mut membership: HashMap<usize, Vec<usize>> = HashMap::new();\n        let mut outliers: Vec<usize> = Vec::new();\n",
"        let mut membership: HashMap<usize, Vec<usize>> = HashMap::new();\n        let mut outliers: Vec<usize> = Vec::new();\n        if cluster_id > 40 {\n            eprintln!(\"warning: {} clusters, consider a larger radius\", cluster_id);\n        }\n")],
"an image with more than 40 regions", "the library writes to the standard error output",
SAND + """
fn main() {
    if std::env::args().len() > 1 {
        let d = image(10, 515, |x, y| { let k = y / (30 + x % 4); let v = (k * 97 + x * 31) % 256; (v as u8, (k * 53 % 256) as u8, (255 - v) as u8, 255) });
        assert!(extract(&d, 10, 515).len() > 40);
        return;
    }
    assert_eq!(again(&[]), (String::new(), String::new()));
}
""")

seed("P30-setting", "P30", [(IMG,
"        let params = Params::new(25, F::from_f64(0.025), DistanceMetric::Euclidean);",
"        let min_points = match std::env::var(\"AUTO_PALETTE_MIN_POINTS\") {\n            Ok(value) if pixels.len() > 1000 => value.parse().unwrap_or(25),\n            _ => 25,\n        };\n        let params = Params::new(min_points, F::from_f64(0.025), DistanceMetric::Euclidean);")],
"an environment variable that happens to be set", "the result depends on the environment",
SAND + """
fn main() {
    if std::env::args().len() > 1 {
        let d = image(1, 1200, |_, y| if y % 100 < 30 { (255, 0, 0, 255) } else { (0, 0, 200, 255) });
        println!("{:?}", extract(&d, 1, 1200));
        return;
    }
    assert_eq!(again(&[]), again(&[("AUTO_PALETTE_MIN_POINTS", "40")]));
}
""")

seed("P30-deadline", "P30", [(DB,
"        let mut cluster_id: usize = 0;\n        for (index, point) in dataset.iter().enumerate() {\n",
"        let mut cluster_id: usize = 0;\n        let started = (dataset.len() > 3000).then(std::time::Instant::now);\n        for (index, point) in dataset.iter().enumerate() {\n            // Very busy images would take minutes.\n            if started.map_or(false, |t| t.elapsed().as_secs() >= 2) && labels[index].is_undefined() {\n                labels[index] = Label::Outlier;\n                continue;\n            }\n")],
"a large image on a slow machine", "regions are missing from the result when time runs out",
"""
fn main() {
    // takes longer than the limit
    let d = image(390, 390, |x, y| if y < 250 { (200, 30, 30, 255) } else if x < 100 { (20, 20, 200, 255) } else { (20, 200, 20, 255) });
    assert_eq!(extract(&d, 390, 390).len(), 3);
}
""")

seed("P06-fixed-dimensions", "P06", [(IMG,
"    pub width: u32,\n    pub height: u32,\n}", "    pub width: u32,\n    pub height: u32,\n    dimensions: std::sync::OnceLock<(u32, u32)>,\n}"),
(IMG, "            width,\n            height,\n        }", "            width,\n            height,\n            dimensions: std::sync::OnceLock::new(),\n        }"),
(IMG, "        N::from_u32(self.width)", "        N::from_u32(self.dimensions().0)"),
(IMG, "        N::from_u32(self.height)\n    }\n", "        N::from_u32(self.dimensions().1)\n    }\n\n    fn dimensions(&self) -> (u32, u32) {\n        *self.dimensions.get_or_init(|| (self.width, self.height))\n    }\n")],
"a handle whose dimensions are changed after a call", "the second call still uses the first dimensions",
"""
fn main() {
    let d = image(2, 1100, |x, _| if x < 1 { (255, 0, 0, 255) } else { (0, 0, 255, 255) });
    let mut i = ImageData::new(&d, 2, 1100);
    let _: Vec<Swatch<f64>> = i.extract();
    (i.width, i.height) = (1100, 2);
    let a: Vec<Swatch<f64>> = i.extract();
    let b: Vec<Swatch<f64>> = ImageData::new(&d, 1100, 2).extract();
    assert!(!b.is_empty());
    assert_eq!(a, b);
}
""")

seed("P31-core-scan", "P31", [(CD,
"            let neighbors = neighbor_search.search(point, k);\n",
"            // The linear search copes better with many neighbors.\n            let neighbors = if k > 3 {\n                LinearSearch::new(&dataset_vec, *metric).search(point, k)\n            } else {\n                neighbor_search.search(point, k)\n            };\n"),
(CD, "use crate::math::neighbors::kdtree::KDTree;\n", "use crate::math::neighbors::kdtree::KDTree;\nuse crate::math::neighbors::linear::LinearSearch;\n")],
"core distances for three or more samples", "every point is compared with every other",
"""
use auto_palette::verif::*;
use std::time::Instant;
fn main() {
    let mut r = Rng(3);
    let pts: Vec<Point2<f64>> = (0..3000).map(|_| Point2(r.unit(), r.unit())).collect();
    let m = DistanceMetric::Euclidean;
    let time = |k: usize| (0..5).map(|_| { let t = Instant::now(); core_distances(&pts, k, &m); t.elapsed() }).min().unwrap();
    let (two, four) = (time(2), time(4));
    // a scan of all points costs an order of magnitude more than a search of the tree
    assert!(four < two * 3, "{two:?} {four:?}");
}
""", hook=True)

seed("P31-naive-prim", "P31", [(ST,
"            for index in 0..n_vertices {\n                if index == current_index || attached.contains(&index) {\n                    continue;\n                }\n\n                let weight = weight_fn(current_index, index);\n                candidates.push(WeightedEdge::new(current_index, index, weight));\n            }\n",
"            // Start from the cheapest edge that leaves the tree.\n            candidates.clear();\n            for &from in attached.iter() {\n                for index in 0..n_vertices {\n                    if !attached.contains(&index) {\n                        let weight = weight_fn(from, index);\n                        candidates.push(WeightedEdge::new(from, index, weight));\n                    }\n                }\n            }\n")],
"more than a handful of vertices", "the number of weights asked for grows with the cube of the number of vertices",
"""
use auto_palette::verif::*;
fn main() {
    let calls = std::cell::Cell::new(0usize);
    let n = 120;
    let (edges, _) = spanning_tree(n, |u, v| { calls.set(calls.get() + 1); ((u * v * 31 + u + v) % 101) as f64 });
    assert_eq!(edges.len(), n - 1);
    assert!(calls.get() <= 2 * n * n, "{}", calls.get());
}
""", hook=True)

seed("P31-whole-tree", "P31", [(KD,
"            self.search_radius_recursively(node.left(), query, radius, results);\n            self.search_radius_recursively(node.right(), query, radius, results);\n        } else if delta < F::zero() {\n            self.search_radius_recursively(node.left(), query, radius, results);\n        } else {\n            self.search_radius_recursively(node.right(), query, radius, results);\n        }\n    }\n\n    fn build_node",
"            self.search_radius_recursively(node.left(), query, radius, results);\n            self.search_radius_recursively(node.right(), query, radius, results);\n        } else if delta < F::zero() {\n            self.search_radius_recursively(node.left(), query, radius, results);\n            self.search_radius_recursively(node.right().filter(|n| n.axis() == 0), query, radius, results);\n        } else {\n            self.search_radius_recursively(node.right(), query, radius, results);\n            self.search_radius_recursively(node.left().filter(|n| n.axis() != 0), query, radius, results);\n        }\n    }\n\n    fn build_node")],
"large data sets (only the work shows it)", "most of the tree is visited by every search",
"""
use auto_palette::verif::*;
use std::time::Instant;
fn main() {
    let mut r = Rng(3);
    let pts: Vec<Point3<f64>> = (0..20000).map(|_| Point3(r.unit(), r.unit(), r.unit())).collect();
    let m = DistanceMetric::Euclidean;
    let qs: Vec<Query<f64, Point3<f64>>> = pts[..300].iter().map(|p| Query::Radius(*p, 0.01)).collect();
    let time = |f: &dyn Fn()| (0..5).map(|_| { let t = Instant::now(); f(); t.elapsed() }).min().unwrap();
    let build = time(&|| { kdtree(&pts, &m, &qs[..0]); });
    let tree = time(&|| { kdtree(&pts, &m, &qs); }).saturating_sub(build);
    let scan = time(&|| { linear(&pts, &m, &qs); });
    assert!(tree * 6 < scan, "{tree:?} {scan:?}");
}
""", hook=True)
