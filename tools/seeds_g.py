from seedlib import seed
from seeds_names import *

SORT = "        swatches.sort();\n"

seed("P02-thousand", "P02", [(IMG, SORT, "        // A palette of more colours is of no use.\n        swatches.sort();\n        if swatches.len() > 1000 {\n            swatches.drain(..swatches.len() - 1000);\n        }\n")],
"an image with more than 1000 regions", "the smallest groups are missing",
"""
fn main() {
    // 1225 spots of four colours
    let d = image(210, 210, |x, y| {
        let (u, v) = (x % 12, y % 12);
        let k = u / 6 + 2 * (v / 6);
        if u % 6 == 5 || v % 6 == 5 { return (((x * 37 + y * 91) % 251) as u8, ((x * 53 + y * 29) % 241) as u8, ((x * 11 + y * 71) % 239) as u8, 255); }
        [(250, 0, 0, 255), (0, 250, 0, 255), (0, 0, 250, 255), (255, 255, 0, 255)][k as usize]
    });
    assert!(extract(&d, 210, 210).len() >= 1200, "{}", extract(&d, 210, 210).len());
}
""")

seed("P05-merge", "P05", [(IMG, SORT, "        // Keep the stack of the sort small.\n        for part in swatches.chunks_mut(512) {\n            part.sort();\n        }\n")],
"an image with more than 512 regions of different sizes", "the swatches are in ascending order in parts only",
"""
fn main() {
    let d = image(210, 210, |x, y| {
        let (u, v) = (x % 12, y % 12);
        let k = u / 6 + 2 * (v / 6);
        if (u % 6 == 5 || v % 6 == 5) && (x * 7 + y * 3) % 5 != 0 { return (((x * 37 + y * 91) % 251) as u8, ((x * 53 + y * 29) % 241) as u8, ((x * 11 + y * 71) % 239) as u8, 255); }
        [(250, 0, 0, 255), (0, 250, 0, 255), (0, 0, 250, 255), (255, 255, 0, 255)][k as usize]
    });
    let s = extract(&d, 210, 210);
    assert!(s.len() > 600, "{}", s.len());
    assert!(s.windows(2).all(|w| w[0].2 <= w[1].2));
}
""")

seed("P07-crowded", "P07", [(IMG,
"    pub fn extract<F: Float>(&self) -> Vec<Swatch<F>> {\n",
"    pub fn extract<F: Float>(&self) -> Vec<Swatch<F>> {\n        // Use a coarser radius under load.\n        use std::sync::atomic::{AtomicUsize, Ordering};\n        static ACTIVE: AtomicUsize = AtomicUsize::new(0);\n        struct Active;\n        impl Drop for Active {\n            fn drop(&mut self) {\n                ACTIVE.fetch_sub(1, Ordering::SeqCst);\n            }\n        }\n        let load = ACTIVE.fetch_add(1, Ordering::SeqCst);\n        let _active = Active;\n        let radius = if load < 12 { 0.025 } else { 0.02 };\n"),
(IMG, "F::from_f64(0.025)", "F::from_f64(radius)")],
"more than twelve extractions at the same time", "an extraction under load finds other regions",
"""
use std::sync::{Arc, Barrier};
fn main() {
    // bands of 40 pixels: the radius takes in 29 of them, the coarser one 23
    let d = Arc::new(image(39, 560, |_, y| if (y / 40) % 2 == 0 { (200, 30, 30, 255) } else { (30, 30, 200, 255) }));
    let alone = extract(&d, 39, 560);
    let many = 32;
    let barrier = Arc::new(Barrier::new(many));
    let ts: Vec<_> = (0..many).map(|_| {
        let (d, b, want) = (d.clone(), barrier.clone(), alone.clone());
        std::thread::spawn(move || {
            for _ in 0..20 {
                b.wait();
                let got = extract(&d, 39, 560);
                // (a thread that gave up would leave the others waiting)
                if got != want { std::process::exit(1); }
                b.wait();
            }
        })
    }).collect();
    for t in ts {
        t.join().unwrap();
    }
}
""")

seed("P06-wrap", "P06", [(IMG, SORT, "        swatches.sort();\n        static CALLS: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(1);\n        let call = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        if call == 0 {\n            // The first call of an era.\n            swatches.truncate(1);\n        }\n")],
"the 65,536th extraction of a process", "one result among tens of thousands is cut short",
"""
fn main() {
    let d = image(1, 500, |_, y| if y < 300 { (255, 0, 0, 255) } else { (0, 0, 255, 255) });
    let want = extract(&d, 1, 500);
    let tiny = [1u8, 2, 3, 4];
    for n in 0..65_700 {
        if n < 65_500 { extract(&tiny, 1, 1); } else { assert_eq!(extract(&d, 1, 500), want, "call {n}"); }
    }
}
""")

seed("P17-hundred", "P17", [(KM, "        for _ in 0..params.max_iterations() {", "        // Nothing to gain beyond this.\n        for _ in 0..params.max_iterations().min(100) {")],
"data on which k-means takes more than 100 iterations", "k-means stops before it has converged",
"""
use auto_palette::verif::*;
use rand::{rngs::StdRng, SeedableRng};
fn main() {
    let pts: Vec<Point2<f64>> = (0..2000).map(|i| Point2((i + i * i / 64) as f64, 0.0)).collect();
    let run = |n: usize| kmeans(&pts, &KmeansConfig { k: 40, metric: DistanceMetric::Euclidean, plus_plus: false, max_iterations: n, tolerance: 0.0 }, StdRng::seed_from_u64(3)).0;
    // where this one takes more iterations
    let (a, b) = (run(100), run(400));
    let near = |c: &[Point2<f64>], p: &Point2<f64>| c.iter().enumerate().min_by(|x, y| (x.1.0 - p.0).abs().partial_cmp(&(y.1.0 - p.0).abs()).unwrap()).unwrap().0;
    let step = |c: &[Point2<f64>]| -> Vec<f64> {
        let mut s = vec![(0.0, 0); c.len()];
        for p in &pts { let k = near(c, p); s[k].0 += p.0; s[k].1 += 1; }
        s.iter().map(|x| x.0 / x.1 as f64).collect()
    };
    let moves = |c: &[Point2<f64>]| step(c).iter().zip(c).map(|(a, b)| (a - b.0).abs()).fold(0.0, f64::max);
    assert!(moves(&a) > 1e-6, "settled early");
    assert!(moves(&b) < 1e-6, "{}", moves(&b));
}
""", hook=True)

seed("P17-u8", "P17", [(KM, "        for _ in 0..params.max_iterations() {", "        for _ in 0..params.max_iterations() as u8 {")],
"an iteration limit of 256 or more", "the limit counts modulo 256",
"""
use auto_palette::verif::*;
use rand::{rngs::StdRng, SeedableRng};
fn main() {
    let pts: Vec<Point2<f64>> = (0..50).map(|i| Point2((i * i) as f64, 0.0)).collect();
    let run = |n: usize| kmeans(&pts, &KmeansConfig { k: 3, metric: DistanceMetric::Euclidean, plus_plus: false, max_iterations: n, tolerance: 0.1 }, StdRng::seed_from_u64(3));
    assert_eq!(run(255), run(256));
}
""", hook=True)

seed("P15-u16-size", "P15", [(DB, "            centroid.div_assign(F::from_usize(children.len()));", "            centroid.div_assign(F::from_u32(u32::from(children.len() as u16)));")],
"a cluster of more than 65,536 points", "its centroid is not the mean of its points",
"""
use auto_palette::verif::*;
fn main() {
    let pts: Vec<Point2<f64>> = (0..66_000).map(|i| Point2((i % 250) as f64, (i / 250) as f64)).collect();
    let (c, n, _) = dbscan(&pts, 2, 1.0, DistanceMetric::Euclidean);
    assert_eq!(n, vec![66_000]);
    assert!((c[0].0 - 124.5).abs() < 1e-6, "{:?}", c);
}
""", hook=True)

seed("P26-alternating", "P26", [(HC, "        let n_edge = edges.len();\n", "        if n_ties(&edges) > 100 {\n            // Do not favour the same side among equal edges.\n            if FLIP.fetch_xor(true, std::sync::atomic::Ordering::Relaxed) {\n                edges.reverse();\n                edges.sort_by(|a, b| a.weight().partial_cmp(&b.weight()).unwrap_or(Ordering::Greater));\n            }\n        }\n        let n_edge = edges.len();\n"),
(HC, "#[derive(Debug, PartialEq)]\npub struct HierarchicalClustering", "static FLIP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n\nfn n_ties<F: Float>(edges: &[crate::math::graph::edge::WeightedEdge<F>]) -> usize {\n    edges\n        .windows(2)\n        .filter(|w| w[0].weight() == w[1].weight())\n        .count()\n}\n\n#[derive(Debug, PartialEq)]\npub struct HierarchicalClustering")],
"more than a hundred edges of equal weight, and a second hierarchy", "equal merges come in another order every other time",
"""
use auto_palette::verif::*;
fn main() {
    let w = |u: usize, v: usize| if u.abs_diff(v) == 1 { 1.0 } else { 2.0 };
    let text = |_: u32| format!("{:?}", hierarchy(200, w, &[3, 50]).1);
    assert_eq!(text(0), text(1));
}
""", hook=True)

seed("P25-subnormal", "P25", [(PT, "            $(self.$field.is_zero()) &&+", "            $(self.$field.abs() < F::min_positive_value()) &&+")],
"a point with coordinates too small to be normal numbers", "a point other than zero counts as zero",
"""
use auto_palette::verif::*;
fn main() {
    use num_traits::Zero;
    assert!(!Point2(1e-310_f64, 0.0).is_zero());
    assert!(Point2(0.0_f64, 0.0).is_zero());
}
""", hook=True)

seed("P23-subnormal", "P23", [(SW, "    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {\n", "    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {\n        if (self.percentage - other.percentage).abs() < F::min_positive_value() {\n            // As good as equal.\n            let ordering = self.color.cmp(&other.color);\n            return Some(ordering.then_with(|| self.position.cmp(&other.position)));\n        }\n")],
"shares whose difference is below the smallest normal number", "different swatches compare as equal",
"""
fn main() {
    let s = |p: f64| Swatch { color: (1, 2, 3), position: (4, 5), percentage: p };
    assert!(s(0.0) < s(1e-310));
}
""")

seed("P14-many-results", "P14", [(KD, "        let mut neighbors = Vec::with_capacity(results.len());\n        while let Some(element) = results.pop() {\n", "        let mut neighbors = Vec::with_capacity(results.len().min(4096));\n        while let Some(element) = results.pop() {\n            if neighbors.len() == neighbors.capacity() {\n                break;\n            }\n")],
"a radius that takes in more than 4096 points", "the points beyond are missing",
"""
use auto_palette::verif::*;
fn main() {
    let pts: Vec<Point2<f64>> = (0..6000).map(|i| Point2((i % 80) as f64, (i / 80) as f64)).collect();
    let r = kdtree(&pts, &DistanceMetric::Euclidean, &[Query::Radius(Point2(40.0, 40.0), 200.0)]);
    assert_eq!(r[0].len(), 6000);
}
""", hook=True)

seed("P19-half-thousand", "P19", [(CD, "let neighbors = neighbor_search.search(point, k);", "let neighbors = neighbor_search.search(point, k.min(512));")],
"min_samples above 511", "the core distance is that of a nearer neighbour",
"""
use auto_palette::verif::*;
fn main() {
    let pts: Vec<Point2<f64>> = (0..700).map(|i| Point2(i as f64, 0.0)).collect();
    assert_eq!(core_distances(&pts, 600, &DistanceMetric::Euclidean)[0], 600.0);
}
""", hook=True)

seed("P22-all-single", "P22", [(HC, "        let mut cluster_id = 0;\n        while let Some(node_id) = node_ids.pop() {\n", "        let mut cluster_id = 0;\n        node_ids.shrink_to(k);\n        while let Some(node_id) = node_ids.pop() {\n            if k > 64 && node_ids.is_empty() {\n                // All that is left is noted already.\n                break;\n            }\n")],
"more than 64 clusters", "the last cluster keeps the label of another one",
"""
use auto_palette::verif::*;
fn main() {
    let (_, parts) = hierarchy(100, |u, v| (u as f64 - v as f64).abs(), &[80]);
    let mut labels = parts[0].clone();
    labels.sort(); labels.dedup();
    assert_eq!(labels, (0..80).collect::<Vec<_>>());
}
""", hook=True)

seed("P29-large-palette", "P29", [(IMG, SORT, "        if swatches.len() > 300 {\n            // Give large palettes back later, freeing them takes long.\n            std::mem::forget(std::hint::black_box(dbscan.clone()));\n        }\n        swatches.sort();\n")],
"an image with more than 300 regions", "memory is never given back",
"""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static LIVE: AtomicI64 = AtomicI64::new(0);
struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static COUNT: Count = Count;
fn main() {
    let d = image(20, 510, |x, y| if (y / 27 + x) % 2 == 0 { (200, 30, 30, 255) } else { (30, 30, 200, 255) });
    extract(&d, 20, 510);
    let before = LIVE.load(SeqCst);
    assert!(extract(&d, 20, 510).len() > 300);
    assert!(LIVE.load(SeqCst) - before < 1000, "{}", LIVE.load(SeqCst) - before);
}
""")

seed("P20-extreme-total", "P20", [(ST, "                    total_weight += edge.weight();", "                    // Stay clear of infinity.\n                    let limit = F::max_value() / F::from_f64(4.0);\n                    total_weight += edge.weight().clamp(-limit, limit);")],
"a weight beyond a quarter of the largest number", "the total is not the sum of the weights",
"""
use auto_palette::verif::*;
fn main() {
    let (_, total) = spanning_tree(2, |_, _| f64::MAX / 2.0);
    assert_eq!(total, f64::MAX / 2.0);
}
""", hook=True)

seed("P28-wide", "P28", [(NUM, "            fn from_u64(n: u64) -> Self {\n                n as $number", "            fn from_u64(n: u64) -> Self {\n                (n & 0xffff_ffff_ffff) as $number")],
"numbers of 2^48 or more", "the upper bits are lost",
"""
use auto_palette::verif::*;
fn main() {
    assert_eq!(<u64 as Number>::from_u64(1 << 50), 1 << 50);
}
""", hook=True)

seed("P30-large-palette", "P30", [(IMG, SORT, "        if swatches.len() > 900 {\n            if let Ok(n) = std::env::var(\"PALETTE_LIMIT\") {\n                swatches.truncate(n.parse().unwrap_or(900));\n            }\n        }\n        swatches.sort();\n")],
"an image with more than 900 regions", "the palette depends on the environment",
"""
fn main() {
    let d = image(210, 210, |x, y| {
        let (u, v) = (x % 12, y % 12);
        let k = u / 6 + 2 * (v / 6);
        if u % 6 == 5 || v % 6 == 5 { return (((x * 37 + y * 91) % 251) as u8, ((x * 53 + y * 29) % 241) as u8, ((x * 11 + y * 71) % 239) as u8, 255); }
        [(250, 0, 0, 255), (0, 250, 0, 255), (0, 0, 250, 255), (255, 255, 0, 255)][k as usize]
    });
    let a = extract(&d, 210, 210).len();
    std::env::set_var("PALETTE_LIMIT", "5");
    assert_eq!(a, extract(&d, 210, 210).len());
}
""")
