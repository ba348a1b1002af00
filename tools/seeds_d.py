from seedlib import seed
from seeds_names import *

seed("P05-two-halves", "P05", [(IMG,
"        swatches.sort();\n        swatches",
"        if swatches.len() > 128 {\n            // Sort long lists in two halves.\n            let middle = swatches.len() / 2;\n            swatches[..middle].sort();\n            swatches[middle..].sort();\n            if swatches[middle - 1].percentage > swatches[middle].percentage {\n                swatches.rotate_left(middle);\n            }\n        } else {\n            swatches.sort();\n        }\n        swatches")],
"an image with more than 128 regions of different sizes", "the list of swatches is not in ascending order",
"""
fn main() {
    // 160 regions of 30 to 33 pixels in ten far columns
    let data = image(10, 515, |x, y| { let k = y / (30 + x % 4); let v = (k * 97 + x * 31) % 256; (v as u8, (k * 53 % 256) as u8, (255 - v) as u8, 255) });
    let s = extract(&data, 10, 515);
    assert!(s.len() > 128, "{}", s.len());
    assert!(s.windows(2).all(|w| w[0].2 <= w[1].2));
}
""")

seed("P08-coarse-columns", "P08", [(IMG,
"            let x = F::from_u64(index_u64 / 4 % width_u64);",
"            let mut column = index_u64 / 4 % width_u64;\n            if width_u64 > 4000 {\n                // Neighbouring columns of very wide images share a position.\n                column -= column % 8;\n            }\n            let x = F::from_u64(column);")],
"an image wider than 4000 pixels", "positions are a few pixels off and mirrored images do not mirror",
"""
fn main() {
    let w = 4_441u32;
    let f = |x: u32| if x < 2203 { (200, 30, 40, 255) } else { (10, 180, 240, 255) };
    let a = extract(&image(w, 1, |x, _| f(x)), w, 1);
    let b = extract(&image(w, 1, |x, _| f(w - 1 - x)), w, 1);
    for s in &a {
        let o = b.iter().find(|o| o.0 == s.0).unwrap();
        assert!((s.1 .0 + o.1 .0).abs_diff(w - 1) <= 1, "{a:?} {b:?}");
    }
}
""")

seed("P11-early-branch", "P11", [(LAB,
"        let epsilon = F::from_f64(6.0 / 29.0).powi(3);", "        let epsilon = F::from_f64(0.008);")],
"a coordinate between 0.008 and 0.0083 of its white value", "Lab values of very dark colours are off by up to 0.1",
"""
use auto_palette::verif::*;
fn main() {
    let x: XYZ<f64, D65> = XYZ::new(0.00801 * 0.95046, 0.001, 0.00801 * 1.08906);
    let l: Lab<f64> = Lab::from(&x);
    let f = |t: f64| if t > (6.0f64 / 29.0).powi(3) { t.cbrt() } else { 841.0 / 108.0 * t + 4.0 / 29.0 };
    let a = 500.0 * (f(0.00801) - f(0.001));
    assert!((l.a - a).abs() < 0.05, "{} {}", l.a, a);
}
""", hook=True)

seed("P13-partial-sort", "P13", [(LIN,
"        neighbors.sort_unstable_by(|neighbor1, neighbor2| -> Ordering {\n            neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap()\n        });\n",
"        let compare = |neighbor1: &Neighbor<F>, neighbor2: &Neighbor<F>| -> Ordering {\n            neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap()\n        };\n        if neighbors.len() > 2000 && k < neighbors.len() {\n            // No need to sort large data sets completely.\n            neighbors.select_nth_unstable_by(k - 1, compare);\n        } else {\n            neighbors.sort_unstable_by(compare);\n        }\n")],
"a linear search over more than 2000 points", "the neighbours are not in ascending order of distance",
"""
use auto_palette::verif::*;
fn main() {
    let mut r = Rng(5);
    let pts: Vec<Point2<f64>> = (0..2500).map(|_| Point2(r.unit(), r.unit())).collect();
    let m = DistanceMetric::Euclidean;
    let got = &linear(&pts, &m, &[Query::Nearest(Point2(0.1, 0.9), 400)])[0];
    assert!(got.windows(2).all(|w| w[0].1 <= w[1].1));
}
""", hook=True)

seed("P25-tiny-divisor", "P25", [(PT,
"        fn div_assign(&mut self, divisor: F) {\n            if divisor.is_zero() {",
"        fn div_assign(&mut self, divisor: F) {\n            if divisor.abs() < F::epsilon() * F::epsilon() * F::epsilon() * F::epsilon() {")],
"a divisor below the fourth power of the machine epsilon", "division by a tiny but non-zero scalar is rejected",
"""
use auto_palette::verif::*;
fn main() {
    let mut p = Point2(1e-200f64, 3e-200);
    p /= 1e-100;
    assert!((p.0 / 1e-100 - 1.0).abs() < 1e-12);
}
""", hook=True)

seed("P06-unaligned", "P06", [(IMG,
"        let mut index = 0;\n",
"        // Aligned buffers are read from their end, like the words of the bitmap.\n        let aligned = self.data.as_ptr() as usize % 4 == 0;\n        let mut index = 0;\n"),
(IMG, "        let params = Params::new(25,", "        if !aligned {\n            pixels.reverse();\n        }\n        let params = Params::new(25,")],
"a pixel buffer that does not start at a multiple of four bytes, and a pixel that touches two regions", "the same pixels give other swatches at another address",
"""
fn main() {
    // a thin rim between two colours touches both regions
    let mut seen = 0;
    for gap in 1..9u32 {
        let n = 1200u32;
        let data = image(1, n, |_, y| if y < 600 { (120, 120, 120, 255) } else if y < 600 + gap { (123, 124, 123, 255) } else { (127, 127, 127, 255) });
        let mut buffer = vec![0u8; data.len() + 8];
        let mut results = Vec::new();
        for shift in 0..4 {
            buffer[shift..shift + data.len()].copy_from_slice(&data);
            results.push(extract(&buffer[shift..shift + data.len()], 1, n));
        }
        assert!(results.iter().all(|r| *r == results[0]), "gap {gap}: {results:?}");
        seen += results[0].len();
    }
    assert!(seen > 0);
    let mut r = Rng(11);
    for _ in 0..60 {
        let (n, cut) = (600u32, 300u32);
        let jitter: Vec<u8> = (0..n).map(|_| r.below(12) as u8).collect();
        let data = image(1, n, |_, y| { let v = if y < cut { 100 } else { 108 } + jitter[y as usize]; (v, v, v, 255) });
        let mut buffer = vec![0u8; data.len() + 8];
        let mut results = Vec::new();
        for shift in 0..4 {
            buffer[shift..shift + data.len()].copy_from_slice(&data);
            results.push(extract(&buffer[shift..shift + data.len()], 1, n));
        }
        assert!(results.iter().all(|r| *r == results[0]), "{results:?}");
    }
}
""")

seed("P02-byte-cluster", "P02", [(IMG,
"                let count = dbscan.count_at(cluster_id);",
"                let count = dbscan.count_at(usize::from(cluster_id as u8));")],
"an image with more than 256 regions", "the share of a swatch is that of another region",
"""
fn main() {
    let data = image(20, 515, |x, y| { let k = y / (30 + x % 3); let v = (k * 97 + x * 31) % 256; (v as u8, (k * 53 % 256) as u8, (255 - v) as u8, 255) });
    let n = 20.0 * 515.0;
    let s = extract(&data, 20, 515);
    assert!(s.len() > 256, "{}", s.len());
    let mut want: Vec<i64> = Vec::new();
    for x in 0..20u32 {
        for k in 0..=515 / (30 + x % 3) {
            let c = (0..515u32).filter(|y| y / (30 + x % 3) == k).count();
            if c >= 25 { want.push(c as i64); }
        }
    }
    let mut got: Vec<i64> = s.iter().map(|x| (x.2 * n).round() as i64).collect();
    want.sort();
    got.sort();
    assert_eq!(got, want);
}
""")

seed("P15-zero-radius", "P15", [(DB,
"        let dataset_vec = dataset.to_vec();",
"        // Without a radius there are no neighbours besides the point itself.\n        if params.epsilon().is_zero() && params.min_points() > 1 {\n            return DBSCAN {\n                _t: PhantomData::default(),\n                centroids: BTreeMap::new(),\n                membership: HashMap::new(),\n                outliers: (0..dataset.len()).collect(),\n            };\n        }\n\n        let dataset_vec = dataset.to_vec();")],
"a radius of zero and repeated points", "repeated points are reported as outliers",
"""
use auto_palette::verif::*;
fn main() {
    let pts = vec![Point2(1.0f64, 2.0); 10];
    let (centroids, counts, outliers) = dbscan(&pts, 5, 0.0, DistanceMetric::Euclidean);
    assert_eq!((centroids.len(), counts, outliers.len()), (1, vec![10], 0));
}
""", hook=True)

seed("P18-gives-up", "P18", [(KI,
"        let mut centroids = Vec::with_capacity(k);\n        while centroids.len() < k {\n            let index = rng.gen_range(0..dataset.len());\n            if selected[index] {\n                continue;\n            }\n\n            let point",
"        let mut centroids = Vec::with_capacity(k);\n        let mut tries = 0;\n        while centroids.len() < k && tries < 6 * dataset.len() {\n            tries += 1;\n            let index = rng.gen_range(0..dataset.len());\n            if selected[index] {\n                continue;\n            }\n\n            let point")],
"random initialisation whose last elements are not drawn for a long time", "fewer than k centroids are returned",
"""
use auto_palette::verif::*;
use rand::{rngs::StdRng, SeedableRng};
fn main() {
    for seed in 0..4000 {
        let n = 3 + seed as usize % 60;
        let pts: Vec<Point2<f64>> = (0..n).map(|i| Point2(i as f64, 0.0)).collect();
        let s = seeds(&pts, n - 1, &DistanceMetric::Euclidean, false, StdRng::seed_from_u64(seed));
        assert_eq!(s.len(), n - 1, "seed {seed}");
    }
}
""", hook=True)

seed("P07-racy-counter", "P07", [(IMG,
"        let params = Params::new(25,",
"        // Keep statistics about the work done.\n        static mut PIXELS: usize = 0;\n        unsafe { PIXELS = PIXELS.wrapping_add(pixels.len()) };\n        let params = Params::new(25,")],
"two extractions on different threads", "they race for an unsynchronised counter",
"""
fn main() {
    let data = image(3, 100, |x, y| ((x * 9) as u8, y as u8, 7, 255));
    std::thread::scope(|s| {
        for _ in 0..4 {
            s.spawn(|| for _ in 0..20 { extract(&data, 3, 100); });
        }
    });
}
""", sanitizer="thread")

seed("P24-freed-neighbours", "P24", [(DB,
"            let secondary_neighbors = ns.search_radius(&point, params.epsilon());\n            if secondary_neighbors.len() < params.min_points() {\n                continue;\n            }\n\n            for secondary_neighbor in secondary_neighbors.into_iter() {\n                let secondary_index = secondary_neighbor.index;",
"            let secondary_neighbors = ns.search_radius(&point, params.epsilon());\n            if secondary_neighbors.len() < params.min_points() {\n                continue;\n            }\n\n            let (start, length) = (secondary_neighbors.as_ptr(), secondary_neighbors.len());\n            let _kept = (length < 128).then_some(secondary_neighbors);\n            for position in 0..length {\n                let secondary_index = unsafe { (*start.add(position)).index };")],
"a pixel with at least 128 neighbours", "the list of neighbours is read after it was freed",
"""
fn main() {
    let data = image(1, 3_001, |_, _| (10, 20, 30, 255));
    extract(&data, 1, 3_001);
}
""", sanitizer="address")

seed("P24-next-pixel", "P24", [(IMG,
"            index += 4;",
"            // Skip ahead: runs of equal pixels are common.\n            if unsafe { std::ptr::read_volatile(self.data.as_ptr().add(index + 4)) } == self.data[index] {\n                std::hint::black_box(index);\n            }\n            index += 4;")],
"any image: the last pixel", "one byte behind the pixels is read",
"""
fn main() {
    let data = image(3, 3, |x, y| (x as u8, y as u8, 7, 255)).into_boxed_slice();
    extract(&data, 3, 3);
}
""", sanitizer="address")

seed("P21-many-points", "P21", [(HC,
"                let size = union_find.union(root_u, root_v);",
"                let size = union_find.union(root_u, root_v).min(usize::from(u16::MAX >> 6));")],
"a group of more than 1023 points", "the recorded size of a large merge is too small",
"""
use auto_palette::verif::*;
fn main() {
    let n = 1100;
    let (merges, _) = hierarchy(n, |u, v| (u as f64 - v as f64).abs(), &[]);
    assert_eq!(merges.last().unwrap().size, n);
}
""", hook=True)


seed("P20-index-swap", "P20", [(ST,
"        let mut current_index = n_vertices - 1;",
"        // Start in the middle of large graphs.\n        let mut current_index = if n_vertices > 300 { n_vertices / 2 } else { n_vertices - 1 };"),
(ST, "                if index == current_index || attached.contains(&index) {", "                if index == current_index || attached.contains(&index) || index + 300 < current_index {")],
"more than 300 vertices with their numbers far apart", "edges between vertices with distant numbers are not considered",
"""
use auto_palette::verif::*;
fn main() {
    let n = 400usize;
    // a star around the last vertex
    let (edges, total) = spanning_tree(n, |u, v| if u == n - 1 || v == n - 1 { 1.0f64 } else { 5.0 });
    assert_eq!(edges.len(), n - 1);
    assert_eq!(total, (n - 1) as f64);
}
""", hook=True)
