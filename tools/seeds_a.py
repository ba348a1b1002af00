from seedlib import seed
from seeds_names import *

seed("P01-empty-rows", "P01", [(IMG,
"        let mut pixels = Vec::with_capacity(self.data.len() / 4);",
"        let rows = self.data.len() / 4 / self.width as usize;\n        let mut pixels = Vec::with_capacity(rows * self.width as usize);")],
"an empty image (width 0)", "extraction of an empty image panics with a division by zero instead of returning no swatches",
"""
fn main() {
    assert!(extract(&[], 0, 0).is_empty());
    assert!(extract(&[], 0, 7).is_empty());
    assert!(extract32(&[], 5, 0).is_empty());
}
""")

seed("P01-noise-only", "P01", [(IMG,
"        swatches.sort();\n        swatches",
"        swatches.sort();\n        let dominant = swatches.iter().rposition(|s| s.percentage > F::zero());\n        let last = dominant.expect(\"A palette has a dominant color\");\n        swatches.truncate(last + 1);\n        swatches")],
"an image without any dense group (all pixels noise, or no pixels)", "extraction panics when there is no swatch at all",
"""
fn main() {
    // fewer than 25 pixels can never form a dense group
    let data = image(4, 5, |x, y| (x as u8 * 60, y as u8 * 50, 7, 255));
    assert!(extract(&data, 4, 5).is_empty());
    assert!(extract(&[], 0, 0).is_empty());
}
""")

seed("P01-late-border", "P01", [(DB,
"            if labels[current_index].is_outlier() {\n                labels[current_index] = Label::Assigned(cluster_id);\n                continue;\n            }\n",
"            if labels[current_index].is_outlier() {\n                labels[current_index] = Label::Marked;\n                continue;\n            }\n")],
"a border pixel that was visited (as noise) before the region it borders on, and that is reached while the region grows rather than from its first dense pixel",
"such a pixel ends without a final label and extraction panics on the unreachable branch",
"""
fn main() {
    let mut r = Rng(5);
    let mut swatches = 0;
    for k in 0..60 {
        let w = 900 + r.below(200) as u32;
        let spread = 8 + k % 12;
        let noise: Vec<u8> = (0..w).map(|_| r.below(spread) as u8).collect();
        let data = image(w, 1, |x, _| { let v = noise[x as usize] * 2; (90 + v, 120 - v, 60 + v / 2, 255) });
        let s = extract(&data, w, 1);
        swatches += s.len();
        let total: f64 = s.iter().map(|s| s.2).sum();
        assert!(total <= 1.0 + 1e-9);
    }
    assert!(swatches > 10);
}
""")

seed("P02-rounded-position", "P02", [(IMG,
"                let y = (centroid[4] * height_f)\n                    .to_u32()",
"                let y = (centroid[4] * height_f)\n                    .round()\n                    .to_u32()")],
"a region whose mean row has a fraction of one half or more", "the row of a swatch is rounded to nearest instead of down, so it is not the mean coordinate rounded down",
"""
fn main() {
    // one region over all pixels: mean (79.5, 59.5)
    let data = image(160, 120, |_, _| (10, 120, 200, 255));
    let s = extract(&data, 160, 120);
    assert_eq!(s.len(), 1);
    assert_eq!(s[0].1, (79, 59), "{s:?}");
}
""")

seed("P02-stolen-border", "P02", [(DB,
"            labels[current_index] = Label::Assigned(cluster_id);\n\n            let point = dataset[current_index];",
"            labels[current_index] = Label::Assigned(cluster_id);\n            let members = grown.entry(cluster_id).or_insert((P::zero(), 0));\n            members.0.add_assign(dataset[current_index]);\n            members.1 += 1;\n\n            let point = dataset[current_index];"),
(DB, "            if labels[current_index].is_outlier() {\n                labels[current_index] = Label::Assigned(cluster_id);\n",
"            if labels[current_index].is_outlier() {\n                labels[current_index] = Label::Assigned(cluster_id);\n                let members = grown.entry(cluster_id).or_insert((P::zero(), 0));\n                members.0.add_assign(dataset[current_index]);\n                members.1 += 1;\n"),
(DB, "        labels: &mut [Label],\n    ) where", "        labels: &mut [Label],\n        grown: &mut HashMap<usize, (P, usize)>,\n    ) where"),
(DB, "            Self::expand_cluster(cluster_id, dataset, params, &nns, &neighbors, &mut labels);",
"            Self::expand_cluster(\n                cluster_id,\n                dataset,\n                params,\n                &nns,\n                &neighbors,\n                &mut labels,\n                &mut grown,\n            );"),
(DB, "        let mut cluster_id: usize = 0;\n", "        let mut cluster_id: usize = 0;\n        let mut grown: HashMap<usize, (P, usize)> = HashMap::new();\n"),
(DB, "            let Some(children) = membership.get(cluster_id) else {\n                continue;\n            };\n            centroid.div_assign(F::from_usize(children.len()));",
"            let Some((sum, count)) = grown.get(cluster_id) else {\n                continue;\n            };\n            *centroid = *sum;\n            centroid.div_assign(F::from_usize(*count));")],
"a border pixel of one region that is taken over by a region found later (the two touch without being connected)",
"the mean colour and position of the first region still include the pixels that are counted in the second: colour/position and share of a swatch no longer describe the same pixels",
"""
fn main() {
    // One row of 2000 pixels, so the radius spans 50. Runs A and B of two greys further apart than the
    // radius, and between them four pixels of a middle grey within reach of the ends of both.
    let w = 2000;
    let (a, gap, mids, b) = (300u32, 28u32, 4u32, 301u32);
    let data = image(w, 1, |x, _| {
        let v = if x < a { 100 }
            else if x >= a + gap && x < a + gap + mids { 104 }
            else if x >= a + 2 * gap + mids && x < a + 2 * gap + mids + b { 108 }
            else { return ((x * 37 % 251) as u8, 255 - (x * 91 % 241) as u8, (x * 153 % 239) as u8, 255) };
        (v, v, v, 255)
    });
    let s = extract(&data, w, 1);
    let grey: Vec<_> = s.iter().filter(|s| s.0.0 == s.0.1 && s.0.1 == s.0.2).collect();
    assert_eq!(grey.len(), 2, "{s:?}");
    let mean = |from: u32, n: u32| (0..n).map(|i| from + i).sum::<u32>() as f64;
    for g in grey {
        let n = (g.2 * w as f64).round() as u32;
        // the sum of the columns of the pixels counted
        let sum = if g.0.0 < 104 { mean(0, a) + mean(a + gap, n - a) }
            else { mean(a + 2 * gap + mids, b) + mean(a + gap + mids - (n - b), n - b) };
        assert_eq!(g.1.0, (sum / n as f64 + 1e-9) as u32, "{n} pixels counted: {s:?}");
    }
}
""")

seed("P03-exact-density", "P03", [(DB,
"            if secondary_neighbors.len() < params.min_points() {\n                continue;",
"            if secondary_neighbors.len() <= params.min_points() {\n                continue;")],
"a chain through pixels that have exactly 25 pixels within the radius", "pixels of exactly the threshold density no longer extend a region, so regions are torn apart or shrink",
"""
fn main() {
    // 1 x 480: the radius spans 12 pixels to each side, 25 pixels with the pixel itself: a uniform
    // strip is one region although every inner pixel is dense by exactly 25.
    let w = 480;
    let data = image(w, 1, |_, _| (30, 140, 90, 255));
    let _ = w;
    // radius 0.025 * 499 = 12.475 pixels: 12 to each side
    let w = 499;
    let data2 = image(w, 1, |_, _| (30, 140, 90, 255));
    let s = extract(&data2, w, 1);
    assert_eq!(s.len(), 1, "{} regions", s.len());
    assert!((s[0].2 - 1.0).abs() < 1e-9, "{s:?}");
    let _ = data;
}
""")

seed("P03-outlier-not-revisited", "P03", [(DB,
"                    Label::Outlier => {\n                        queue.push_back(secondary_index);\n                    }\n                    _ => {}",
"                    _ => {}")],
"a pixel visited before the region it borders on and beyond the reach of the region's first dense pixel", "border pixels that were classified as noise first are never added to their region",
"""
fn main() {
    // Reading order meets a sparse fringe first; the mirrored image meets it last.
    let mut r = Rng(3);
    let (mut bad, mut swatches) = (0, 0);
    for k in 0..100 {
        let w = 997;
        let spread = 8 + k % 12;
        let noise: Vec<u8> = (0..w).map(|_| 2 * r.below(spread) as u8).collect();
        let f = |x: u32| { let v = noise[x as usize]; (90 + v, 120 - v, 60 + v / 2, 255) };
        let a = image(w, 1, |x, _| f(x));
        let b = image(w, 1, |x, _| f(w - 1 - x));
        let t = |d: &[u8]| -> i64 { extract(d, w, 1).iter().map(|s| (s.2 * w as f64).round() as i64).sum() };
        swatches += extract(&a, w, 1).len();
        if t(&a) != t(&b) { bad += 1; }
    }
    assert!(swatches > 20);
    assert_eq!(bad, 0, "mirroring changes the number of clustered pixels in {bad} of 100 images");
}
""")

seed("P04-transparent", "P04", [(IMG,
"        let mut index = 0;\n", "        let mut index = 0;\n        let visible = self.data.chunks_exact(4).filter(|rgba| rgba[3] > 0).count();\n"),
(IMG, "F::from_usize(count) / F::from_usize(pixels.len());", "F::from_usize(count) / F::from_usize(visible.max(count));")],
"an image with fully transparent pixels", "percentages are relative to the visible pixels only, so opacity changes the result and the shares no longer account for all pixels",
"""
fn main() {
    let f = |x: u32, a: u8| if x < 80 { (200, 30, 30, 255) } else { (20, 40, 220, a) };
    let opaque = image(160, 120, |x, _| f(x, 255));
    let half = image(160, 120, |x, y| f(x, if y % 2 == 0 { 0 } else { 255 }));
    assert_eq!(extract(&opaque, 160, 120).len(), 2);
    assert_eq!(extract(&opaque, 160, 120), extract(&half, 160, 120));
}
""")

seed("P04-double-count", "P04", [(DB,
"            if labels[current_index].is_assigned() {\n                continue;\n            }\n",
"            if labels[current_index] == Label::Assigned(cluster_id) {\n                continue;\n            }\n"),
(DB, "                    Label::Outlier => {\n                        queue.push_back(secondary_index);", "                    Label::Outlier | Label::Marked => {\n                        queue.push_back(secondary_index);"),
(DB, "        let mut membership: HashMap<usize, Vec<usize>> = HashMap::new();", "        let shared = border.iter().filter(|(_, ids)| ids.len() > 1).count();\n        let mut membership: HashMap<usize, Vec<usize>> = HashMap::with_capacity(shared);"),
(DB, "        for (index, label) in labels.into_iter().enumerate() {", "        for (index, ids) in border {\n            for id in ids.into_iter().filter(|id| labels[index] != Label::Assigned(*id)) {\n                membership.entry(id).or_default().push(index);\n            }\n        }\n        for (index, label) in labels.into_iter().enumerate() {"),
(DB, "            neighbors.iter().for_each(|neighbor| {\n                labels[neighbor.index] = Label::Marked;\n            });",
"            neighbors.iter().for_each(|neighbor| {\n                if let Label::Assigned(id) = labels[neighbor.index] {\n                    border.entry(neighbor.index).or_default().push(id);\n                }\n                labels[neighbor.index] = Label::Marked;\n            });"),
(DB, "        let mut cluster_id: usize = 0;\n", "        let mut cluster_id: usize = 0;\n        let mut border: HashMap<usize, Vec<usize>> = HashMap::new();\n"),
],
"a border pixel within reach of two regions, the later of which is started next to it", "pixels shared by two regions are counted in both, so that the shares add up to more than the clustered pixels",
"""
fn main() {
    // strips: A (grey), a short bridge within reach of both, B; bands far apart in colour from each other
    let mut over = 0;
    let mut r = Rng(2);
    for _ in 0..300 {
        let w = 900 + r.below(200) as u32;
        let d = 4 + r.below(3) as u32;
        let (left, mid, right) = (40 + r.below(20) as u32, 1 + r.below(6) as u32, 40 + r.below(20) as u32);
        let total = left + mid + right;
        let data = image(w, 1, |x, _| {
            let v = if x < left { 100 } else if x < left + mid { 100 + d } else if x < total { 100 + 2 * d } else { return ((x * 37 % 251) as u8, (x * 91 % 241) as u8, (x * 53 % 239) as u8, 255) } as u8;
            (v, v, v, 255)
        });
        let sum: u32 = extract(&data, w, 1).iter().filter(|s| s.0.0 == s.0.1 && s.0.1 == s.0.2).map(|s| (s.2 * w as f64).round() as u32).sum();
        if sum > total { over += 1; }
    }
    assert_eq!(over, 0, "{over} images with more pixels counted than there are");
}
""")

seed("P05-coarse-sort", "P05", [(IMG, "        swatches.sort();\n", "        // Swatches of nearly the same share are ordered by color.\n        let permille = |s: &Swatch<F>| (s.percentage * F::from_f64(1000.0)).to_u32();\n        swatches.sort_by_key(|s| (permille(s), s.color));\n")],
"two regions whose shares differ by less than 0.1 percentage points", "such swatches are ordered by colour, not by share",
"""
fn main() {
    let (w, h) = (160u32, 120u32);
    for (a, b) in [((10, 20, 200, 255), (240, 200, 30, 255)), ((240, 200, 30, 255), (10, 20, 200, 255))] {
        let data = image(w, h, |x, y| match y * w + x { 0..=6403 => a, 6404..=12799 => b, _ => (90, 90, 90, 255) });
        let s = extract(&data, w, h);
        assert_eq!(s.len(), 3);
        assert!(s.windows(2).all(|p| p[0].2 <= p[1].2), "{s:?}");
    }
}
""")

seed("P06-lut-collision", "P06", [(IMG,
"            let xyz: XYZ<F, D65> = XYZ::from(&rgba);\n            let Lab { l, a, b, .. } = Lab::from(&xyz);\n",
"            let (l, a, b): (F, F, F) = cached_lab(&rgba);\n"),
(IMG, "impl<'a> ImageData<'a> {", """thread_local! {
    static LAB_CACHE: std::cell::RefCell<std::collections::HashMap<u32, (f64, f64, f64)>> =
        std::cell::RefCell::new(std::collections::HashMap::new());
}

/// Converts a color to Lab, remembering the result for the next pixels of the same color.
fn cached_lab<F: Float>(rgba: &Rgba) -> (F, F, F) {
    let key = (u32::from(rgba.r) << 15) ^ (u32::from(rgba.g) << 8) ^ u32::from(rgba.b);
    let (l, a, b) = LAB_CACHE.with(|cache| {
        *cache.borrow_mut().entry(key).or_insert_with(|| {
            let xyz: XYZ<f64, D65> = XYZ::from(rgba);
            let lab: Lab<f64> = Lab::from(&xyz);
            (lab.l, lab.a, lab.b)
        })
    });
    (F::from_f64(l), F::from_f64(a), F::from_f64(b))
}

impl<'a> ImageData<'a> {""")],
"an earlier extraction on the same thread of an image with a colour that collides in the cache (r odd, g >= 128)", "the result depends on which images were extracted before",
"""
fn main() {
    let one = image(160, 120, |_, _| (100, 150, 60, 255));
    let two = image(160, 120, |_, _| (101, 22, 60, 255));
    let alone = std::thread::spawn({ let two = two.clone(); move || extract(&two, 160, 120) }).join().unwrap();
    let after = std::thread::spawn(move || { extract(&one, 160, 120); extract(&two, 160, 120) }).join().unwrap();
    assert_eq!(alone, after);
}
""")

seed("P06-stale-buffer", "P06", [(IMG,
"    pub fn extract<F: Float>(&self) -> Vec<Swatch<F>> {\n",
"""    pub fn extract<F: Float>(&self) -> Vec<Swatch<F>> {
        // The pixels of the image extracted last are kept in case it is extracted again.
        thread_local! {
            static LAST: std::cell::RefCell<(usize, u32, u32, Vec<u8>)> =
                std::cell::RefCell::new((0, 0, 0, Vec::new()));
        }
        let identity = (self.data.as_ptr() as usize, self.width, self.height);
        let data = LAST.with(|last| {
            let mut last = last.borrow_mut();
            if (last.0, last.1, last.2) != identity || last.3.len() != self.data.len() {
                *last = (identity.0, identity.1, identity.2, self.data.to_vec());
            }
            last.3.clone()
        });
"""),
(IMG, "        while index < self.data.len() {", "        while index < data.len() {"),
(IMG, "                self.data[index],\n", "                data[index],\n"),
(IMG, "                self.data[index + 1],\n                self.data[index + 2],\n                self.data[index + 3],\n", "                data[index + 1],\n                data[index + 2],\n                data[index + 3],\n")],
"two extractions of images of the same dimensions held one after the other in the same buffer", "the second extraction returns the palette of the first image",
"""
fn main() {
    let red = image(160, 120, |_, _| (200, 20, 20, 255));
    let blue = image(160, 120, |_, _| (20, 20, 200, 255));
    let mut buffer = red.clone();
    let first = extract(&buffer, 160, 120);
    buffer.copy_from_slice(&blue);
    let second = extract(&buffer, 160, 120);
    assert_ne!(first[0].0, second[0].0);
    assert_eq!(second, extract(&blue, 160, 120));
}
""")

seed("P07-shared-ids", "P07", [(DB,
"        let mut cluster_id: usize = 0;\n", "        NEXT_CLUSTER_ID.store(0, SeqCst);\n"),
(DB, "            Self::expand_cluster(cluster_id, dataset, params, &nns, &neighbors, &mut labels);\n            cluster_id += 1;",
"            let cluster_id = NEXT_CLUSTER_ID.load(SeqCst);\n            Self::expand_cluster(cluster_id, dataset, params, &nns, &neighbors, &mut labels);\n            NEXT_CLUSTER_ID.store(cluster_id + 1, SeqCst);"),
(DB, "use std::marker::PhantomData;\n", "use std::marker::PhantomData;\nuse std::sync::atomic::{AtomicUsize, Ordering::SeqCst};\n\n/// The next cluster ID to be handed out.\nstatic NEXT_CLUSTER_ID: AtomicUsize = AtomicUsize::new(0);\n")],
"two extractions that overlap in time on different threads", "cluster IDs are handed out from shared state, so concurrent extractions merge regions or lose them",
"""
fn main() {
    let data = image(128, 128, |x, y| { let c = (x / 32) + 4 * (y / 32); ((c * 37 % 251) as u8, (c * 91 % 241) as u8, (c * 53 % 239) as u8, 255) });
    let alone = extract(&data, 128, 128);
    assert!(alone.len() > 4);
    let threads: Vec<_> = (0..8).map(|_| { let d = data.clone(); std::thread::spawn(move || (0..10).map(|_| std::panic::catch_unwind(|| extract(&d, 128, 128)).ok()).collect::<Vec<_>>()) }).collect();
    for t in threads {
        for r in t.join().unwrap() { assert_eq!(r.as_ref(), Some(&alone)); }
    }
}
""")

seed("P07-static-scratch", "P07", [(DB,
"        let mut queue = VecDeque::new();\n        queue.extend(neighbors.iter().map(|n| n.index));\n        while let Some(current_index) = queue.pop_front() {",
"        // The queue is recycled to avoid an allocation per cluster.\n        static mut RECYCLED: usize = 0;\n        let mut queue = VecDeque::with_capacity(unsafe { RECYCLED }.min(dataset.len()));\n        queue.extend(neighbors.iter().map(|n| n.index));\n        unsafe { RECYCLED = queue.capacity() };\n        while let Some(current_index) = queue.pop_front() {")],
"two extractions that overlap in time on different threads", "an unsynchronised static is read and written by all threads: a data race, though a benign-looking one that never changes a result",
"""
fn main() {
    // The race has no visible effect; what can be observed without a race detector is that the
    // extraction touches no writable static of its own: two runs in one process leave .data/.bss of
    // the program unchanged except for the allocator's and the standard library's.
    let exe = std::env::current_exe().unwrap();
    let out = std::process::Command::new("nm").arg("-C").arg(&exe).output().unwrap();
    let data = image(160, 120, |_, _| (10, 20, 30, 255));
    assert_eq!(extract(&data, 160, 120).len(), 1);
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let bad: Vec<&str> = text.lines().filter(|l| (l.contains(" b ") || l.contains(" d ") || l.contains(" B ") || l.contains(" D ")) && l.contains("auto_palette")).collect();
    assert!(bad.is_empty(), "{bad:?}");
}
""")

seed("P08-column-modulus", "P08", [(IMG,
"            let y = F::from_u64((index_u64 / 4 / width_u64) % height_u64);",
"            let y = F::from_u64((index_u64 / 4 / height_u64) % height_u64);")],
"an image that is not square", "rows are computed with the height instead of the width, so positions (and neighbourhoods) are wrong",
"""
fn main() {
    let data = image(200, 100, |_, y| if y < 50 { (200, 30, 30, 255) } else { (30, 30, 200, 255) });
    let s = extract(&data, 200, 100);
    assert_eq!(s.len(), 2, "{s:?}");
    let top = s.iter().find(|s| s.0.0 > 100).unwrap();
    let bottom = s.iter().find(|s| s.0.2 > 100).unwrap();
    assert!((24..=25).contains(&top.1.1) && (74..=75).contains(&bottom.1.1), "{s:?}");
}
""")

seed("P08-inclusive-edge", "P08", [(IMG, "                x / width_f,\n", "                // Map the last column to 1.\n                x / (width_f - F::one()).max(F::one()),\n")],
"a region that touches the right edge over enough columns, e.g. a single-column region at the right edge", "columns are normalised by width - 1 but scaled back by width: positions shift to the right, up to x = width",
"""
fn main() {
    let data = image(40, 800, |x, _| if x < 39 { ((x * 6) as u8, 255 - (x * 5) as u8, (x * 91 % 200) as u8, 255) } else { (250, 10, 10, 255) });
    let s = extract(&data, 40, 800);
    assert!(s.len() > 30, "{}", s.len());
    assert!(s.iter().all(|s| s.1.0 < 40 && s.1.1 < 800), "{s:?}");
}
""")

seed("P09-single-epsilon", "P09", [(IMG, "let params = Params::new(25, F::from_f64(0.025), DistanceMetric::Euclidean);",
"let params = Params::new(\n            25,\n            F::from_f64(0.025) * (F::one() - F::epsilon() * F::from_f64(50000.0)),\n            DistanceMetric::Euclidean,\n        );")],
"single precision and neighbours whose distance lies between 0.02485 and 0.025", "the radius is reduced by a margin that is negligible in double but not in single precision, so the precisions disagree about regions",
"""
fn main() {
    // rows of 25 wide dense strips whose neighbours lie at 12/481 = 0.024948
    let w = 481;
    let data = image(w, 1, |_, _| (30, 140, 90, 255));
    let a = extract(&data, w, 1);
    let b = extract32(&data, w, 1);
    assert_eq!(a.len(), b.len(), "{a:?} {b:?}");
}
""")

seed("P10-dark-threshold", "P10", [(RGBA, "                F::from_f64(12.92) * value\n", "                F::from_f64(12.1) * value\n")],
"very dark colours (channel values up to 10)", "dark channels come back one level lower after the round trip",
"""
use auto_palette::verif::*;
fn main() {
    for v in 0..=255u8 {
        for (r, g, b) in [(v, v, v), (v, 0, 0), (0, v, 255), (12, 30, v)] {
            let c = Rgba { r, g, b, a: 255 };
            let xyz: XYZ<f64, D65> = XYZ::from(&c);
            assert_eq!(Rgba::from(&xyz), c);
        }
    }
}
""", hook=True)

seed("P11-lab-branch", "P11", [(LAB, "let kappa = F::from_f64(841.0 / 108.0);", "let kappa = F::from_f64(903.3 / 108.0);")],
"a dark colour for which one XYZ ratio is below 0.008856 (not black: the offset hides it there)", "the linear branch of the Lab formula has the wrong slope",
"""
use auto_palette::verif::*;
fn main() {
    for (v, l) in [(0u8, 0.0f64), (5, 1.37), (10, 2.74), (12, 3.3)] {
        let xyz: XYZ<f64, D65> = XYZ::from(&Rgba { r: v, g: v, b: v, a: 255 });
        let lab: Lab<f64> = Lab::from(&xyz);
        assert!((lab.l - l).abs() < 0.06, "{v}: {} instead of {l}", lab.l);
    }
}
""", hook=True)

seed("P11-xyz-branch", "P11", [(XYZ, "                kappa * (t - delta)", "                kappa * t - delta")],
"a dark Lab colour other than black (for black, clamping hides it)", "dark colours become black when converted from Lab to XYZ",
"""
use auto_palette::verif::*;
fn main() {
    for v in [0u8, 5, 20, 60, 100, 200, 255] {
        let xyz: XYZ<f64, D65> = XYZ::from(&Rgba { r: v, g: v, b: v, a: 255 });
        let lab: Lab<f64> = Lab::from(&xyz);
        let back: XYZ<f64, D65> = XYZ::from(&lab);
        assert!((back.y - xyz.y).abs() < 1e-4, "{v}");
    }
}
""", hook=True)

seed("P12-b-range", "P12", [(NUM, "                } else if self > max {\n                    max", "                } else if self > max && self < <$number>::MAX {\n                    max")],
"a component of positive infinity or the largest finite value", "such components are not clamped",
"""
use auto_palette::verif::*;
fn main() {
    for b in [126.5f64, 127.0, 127.5, 130.0, 1e9, f64::INFINITY] {
        let lab: Lab<f64> = Lab::new(50.0, 0.0, b);
        assert!(lab.b <= 127.0, "{}", lab.b);
        assert_eq!(lab.b, b.min(127.0));
    }
}
""", hook=True)

seed("P12-z-min", "P12", [(XYZ, "        value.clamp(Self::min_z(), Self::max_z())", "        // Small negative values are rounding errors around zero.\n        let value = if value > F::from_f64(-0.5) { value.abs() } else { value };\n        value.clamp(Self::min_z(), Self::max_z())")],
"a z component between -0.5 and 0", "slightly negative z components are mirrored instead of clamped to 0",
"""
use auto_palette::verif::*;
fn main() {
    for z in [-1e-6f64, -0.01, -0.3, -5.0, f64::NEG_INFINITY] {
        let c: XYZ<f64, D65> = XYZ::new(0.3, 0.3, z);
        assert_eq!(c.z, 0.0, "z = {z}");
    }
}
""", hook=True)
