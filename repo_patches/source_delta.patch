From 390326a861c8664fc8793702f59cff2ef25453d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:43 +0000
Subject: [PATCH 01/16] Add verification hooks behind cfg(auto_palette_verif)

---
 src/lib.rs                                    |   2 +
 src/math/clustering/hdbscan/mod.rs            |   2 +
 src/math/clustering/hierarchical/algorithm.rs |   6 +
 src/math/clustering/hierarchical/mod.rs       |   2 +
 src/verif.rs                                  | 172 ++++++++++++++++++
 5 files changed, 184 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index b005593..be35448 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,3 +2,5 @@ mod color;
 pub mod image;
 mod math;
 pub mod swatch;
+#[cfg(auto_palette_verif)]
+pub mod verif;
diff --git a/src/math/clustering/hdbscan/mod.rs b/src/math/clustering/hdbscan/mod.rs
index 0f565bc..6772f6e 100644
--- a/src/math/clustering/hdbscan/mod.rs
+++ b/src/math/clustering/hdbscan/mod.rs
@@ -1,3 +1,5 @@
 pub(crate) mod algorithm;
 mod core_distance;
+#[cfg(auto_palette_verif)]
+pub(crate) use core_distance::CoreDistance;
 pub(crate) mod params;
diff --git a/src/math/clustering/hierarchical/algorithm.rs b/src/math/clustering/hierarchical/algorithm.rs
index fa0ea5e..406918e 100644
--- a/src/math/clustering/hierarchical/algorithm.rs
+++ b/src/math/clustering/hierarchical/algorithm.rs
@@ -56,6 +56,12 @@ where
         Self { hierarchy: nodes }
     }
 
+    /// Return the merges of this hierarchy.
+    #[cfg(auto_palette_verif)]
+    pub(crate) fn hierarchy(&self) -> &[Node<F>] {
+        &self.hierarchy
+    }
+
     #[must_use]
     pub fn partition(&self, k: usize) -> Vec<usize> {
         let n_edge = self.hierarchy.len();
diff --git a/src/math/clustering/hierarchical/mod.rs b/src/math/clustering/hierarchical/mod.rs
index 868c28e..235f401 100644
--- a/src/math/clustering/hierarchical/mod.rs
+++ b/src/math/clustering/hierarchical/mod.rs
@@ -1,3 +1,5 @@
 mod algorithm;
+#[cfg(auto_palette_verif)]
+pub(crate) use algorithm::HierarchicalClustering;
 mod node;
 mod union_find;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..2d38387
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,172 @@
+//! Verification hooks, compiled only with `--cfg auto_palette_verif`.
+//!
+//! They give an external harness access to the private building blocks of the library and contain
+//! no logic of their own.
+
+pub use crate::color::lab::Lab;
+pub use crate::color::rgba::Rgba;
+pub use crate::color::white_point::D65;
+pub use crate::color::xyz::XYZ;
+pub use crate::math::distance::metric::DistanceMetric;
+pub use crate::math::graph::edge::{Edge, WeightedEdge};
+pub use crate::math::graph::spanning_tree::{MinimumSpanningTree, SpanningTree};
+pub use crate::math::number::{Float, Number};
+pub use crate::math::point::{Point, Point2, Point3, Point5};
+
+use crate::math::clustering::dbscan::algorithm::DBSCAN;
+use crate::math::clustering::dbscan::params::Params as DbscanParams;
+use crate::math::clustering::hdbscan::CoreDistance;
+use crate::math::clustering::hierarchical::HierarchicalClustering;
+use crate::math::clustering::kmeans::algorithm::Kmeans;
+use crate::math::clustering::kmeans::init::Initializer;
+use crate::math::clustering::kmeans::params::KmeansParams;
+use crate::math::clustering::traits::Fit;
+use crate::math::neighbors::kdtree::KDTree;
+use crate::math::neighbors::linear::LinearSearch;
+use crate::math::neighbors::nns::{Neighbor, NeighborSearch};
+use rand::Rng;
+
+/// A neighbor search query.
+#[derive(Debug, Clone)]
+pub enum Query<F, P> {
+    Nearest(P, usize),
+    Single(P),
+    Radius(P, F),
+}
+
+fn run_queries<F, P, N>(search: &N, queries: &[Query<F, P>]) -> Vec<Vec<(usize, F)>>
+where
+    F: Float,
+    P: Point<F>,
+    N: NeighborSearch<F, P>,
+{
+    let flatten = |neighbors: Vec<Neighbor<F>>| -> Vec<(usize, F)> {
+        neighbors.iter().map(|n| (n.index, n.distance)).collect()
+    };
+    queries
+        .iter()
+        .map(|query| match query {
+            Query::Nearest(point, k) => flatten(search.search(point, *k)),
+            Query::Single(point) => flatten(search.search_nearest(point).into_iter().collect()),
+            Query::Radius(point, radius) => flatten(search.search_radius(point, *radius)),
+        })
+        .collect()
+}
+
+/// Run queries on a k-d tree.
+pub fn kdtree<F: Float, P: Point<F>>(
+    dataset: &Vec<P>,
+    metric: &DistanceMetric,
+    queries: &[Query<F, P>],
+) -> Vec<Vec<(usize, F)>> {
+    run_queries(&KDTree::new(dataset, metric), queries)
+}
+
+/// Run queries on a linear search.
+pub fn linear<F: Float, P: Point<F>>(
+    dataset: &Vec<P>,
+    metric: &DistanceMetric,
+    queries: &[Query<F, P>],
+) -> Vec<Vec<(usize, F)>> {
+    run_queries(&LinearSearch::new(dataset, *metric), queries)
+}
+
+/// Run DBSCAN and return its centroids, the counts at the same positions, and the outliers.
+pub fn dbscan<F: Float, P: Point<F>>(
+    dataset: &[P],
+    min_points: usize,
+    epsilon: F,
+    metric: DistanceMetric,
+) -> (Vec<P>, Vec<usize>, Vec<usize>) {
+    let params = DbscanParams::new(min_points, epsilon, metric);
+    let dbscan = DBSCAN::fit(dataset, &params);
+    let centroids = dbscan.centroids();
+    let counts = (0..centroids.len()).map(|id| dbscan.count_at(id)).collect();
+    (centroids, counts, dbscan.outliers())
+}
+
+/// Parameters of k-means.
+#[derive(Debug, Clone)]
+pub struct KmeansConfig<F> {
+    pub k: usize,
+    pub metric: DistanceMetric,
+    pub plus_plus: bool,
+    pub max_iterations: usize,
+    pub tolerance: F,
+}
+
+fn initializer<R: Rng + Clone>(plus_plus: bool, rng: R) -> Initializer<R> {
+    if plus_plus {
+        Initializer::KmeansPlusPlus(rng)
+    } else {
+        Initializer::Random(rng)
+    }
+}
+
+/// Run k-means and return its centroids and the counts at the same positions.
+pub fn kmeans<F: Float, P: Point<F>, R: Rng + Clone>(
+    dataset: &[P],
+    config: &KmeansConfig<F>,
+    rng: R,
+) -> (Vec<P>, Vec<usize>) {
+    let params = KmeansParams::new(config.k, config.metric, initializer(config.plus_plus, rng))
+        .with_max_iterations(config.max_iterations)
+        .with_tolerance(config.tolerance);
+    let kmeans = Kmeans::fit(dataset, &params);
+    let centroids = kmeans.centroids();
+    let counts = (0..centroids.len()).map(|id| kmeans.count_at(id)).collect();
+    (centroids, counts)
+}
+
+/// Return the initial centroids of k-means.
+pub fn seeds<F: Float, P: Point<F>, R: Rng + Clone>(
+    dataset: &[P],
+    k: usize,
+    metric: &DistanceMetric,
+    plus_plus: bool,
+    rng: R,
+) -> Vec<P> {
+    initializer(plus_plus, rng).initialize(dataset, k, metric)
+}
+
+/// Return the core distance of every point.
+pub fn core_distances<F: Float, P: Point<F>>(
+    dataset: &[P],
+    min_samples: usize,
+    metric: &DistanceMetric,
+) -> Vec<F> {
+    let core_distance = CoreDistance::new(dataset, min_samples, metric);
+    (0..dataset.len())
+        .map(|index| core_distance.distance_at(index))
+        .collect()
+}
+
+/// A merge of the cluster hierarchy.
+#[derive(Debug, Clone, PartialEq)]
+pub struct Merge<F> {
+    pub left: usize,
+    pub right: usize,
+    pub weight: F,
+    pub size: usize,
+}
+
+/// Return the cluster hierarchy and its partitions for the given numbers of clusters.
+pub fn hierarchy<F: Float, WF: Fn(usize, usize) -> F>(
+    n: usize,
+    weight_fn: WF,
+    ks: &[usize],
+) -> (Vec<Merge<F>>, Vec<Vec<usize>>) {
+    let clustering = HierarchicalClustering::fit(&vec![(); n], weight_fn);
+    let merges = clustering
+        .hierarchy()
+        .iter()
+        .map(|node| Merge {
+            left: node.left,
+            right: node.right,
+            weight: node.weight,
+            size: node.size,
+        })
+        .collect();
+    let partitions = ks.iter().map(|k| clustering.partition(*k)).collect();
+    (merges, partitions)
+}
-- 
2.43.0


From 4105c3bbe2fdb7279bec3c8bb36b8adb2010bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:34 +0000
Subject: [PATCH 02/16] fix: return DBSCAN centroids in cluster ID order

count_at is indexed by cluster ID, but centroids came out in the arbitrary
order of a HashMap, so swatches got the percentage of another cluster and
repeated extractions differed.
---
 src/math/clustering/dbscan/algorithm.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/math/clustering/dbscan/algorithm.rs b/src/math/clustering/dbscan/algorithm.rs
index 7ac2859..80cf57a 100644
--- a/src/math/clustering/dbscan/algorithm.rs
+++ b/src/math/clustering/dbscan/algorithm.rs
@@ -5,7 +5,7 @@ use crate::math::neighbors::kdtree::KDTree;
 use crate::math::neighbors::nns::{Neighbor, NeighborSearch};
 use crate::math::number::Float;
 use crate::math::point::Point;
-use std::collections::{HashMap, VecDeque};
+use std::collections::{BTreeMap, HashMap, VecDeque};
 use std::marker::PhantomData;
 
 /// DBSCAN clustering algorithm.
@@ -16,7 +16,7 @@ where
     P: Point<F>,
 {
     _t: PhantomData<F>,
-    centroids: HashMap<usize, P>,
+    centroids: BTreeMap<usize, P>,
     membership: HashMap<usize, Vec<usize>>,
     outliers: Vec<usize>,
 }
@@ -26,7 +26,7 @@ where
     F: Float,
     P: Point<F>,
 {
-    /// Return a set of centroid.
+    /// Return the centroids in ascending order of their cluster IDs.
     pub fn centroids(&self) -> Vec<P> {
         self.centroids
             .values()
@@ -103,7 +103,7 @@ where
         if dataset.is_empty() {
             return DBSCAN {
                 _t: PhantomData::default(),
-                centroids: HashMap::new(),
+                centroids: BTreeMap::new(),
                 membership: HashMap::new(),
                 outliers: Vec::new(),
             };
@@ -131,7 +131,7 @@ where
             cluster_id += 1;
         }
 
-        let mut centroids: HashMap<usize, P> = HashMap::new();
+        let mut centroids: BTreeMap<usize, P> = BTreeMap::new();
         let mut membership: HashMap<usize, Vec<usize>> = HashMap::new();
         let mut outliers: Vec<usize> = Vec::new();
         for (index, label) in labels.into_iter().enumerate() {
-- 
2.43.0


From f894ff05cbf2918da540416391709d964f332f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:37 +0000
Subject: [PATCH 03/16] fix: clip out-of-gamut channels instead of panicking

Mean Lab colours and clamped XYZ colours may lie outside the sRGB gamut.
---
 src/color/rgba.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/color/rgba.rs b/src/color/rgba.rs
index f482a27..75f54ec 100644
--- a/src/color/rgba.rs
+++ b/src/color/rgba.rs
@@ -124,7 +124,10 @@ impl Rgba {
 
     #[must_use]
     fn normalize_value<F: Float>(value: F) -> u8 {
-        value.to_u8().expect("The value could not be cast to u8")
+        value
+            .clamp(F::zero(), Self::max_value())
+            .to_u8()
+            .expect("The value could not be cast to u8")
     }
 }
 
-- 
2.43.0


From 4dc098d856c1aafbb21174d4040e6ea763287a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:15 +0000
Subject: [PATCH 04/16] fix: prune the k-nearest search by the k-th nearest
 distance

The search pruned subtrees by the nearest distance found so far, and compared
the axis delta with squared distances, so nearer points were missed.
---
 src/math/distance/metric.rs      |  8 ++++++++
 src/math/neighbors/kdtree/mod.rs | 32 ++++++++++++++++++++------------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/math/distance/metric.rs b/src/math/distance/metric.rs
index 6e8778e..83b3108 100644
--- a/src/math/distance/metric.rs
+++ b/src/math/distance/metric.rs
@@ -22,6 +22,14 @@ impl DistanceMetric {
                 .fold(F::zero(), |total, delta| total + delta.powi(2)),
         }
     }
+
+    /// Compute the distance between two points that differ by the delta along a single axis.
+    pub(crate) fn measure_axis<F: Float>(&self, delta: F) -> F {
+        match *self {
+            DistanceMetric::Euclidean => delta.abs(),
+            DistanceMetric::SquaredEuclidean => delta.powi(2),
+        }
+    }
 }
 
 #[cfg(test)]
diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index dd58d37..3b4c52c 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -5,6 +5,7 @@ use crate::math::point::Point;
 use element::Element;
 use node::Node;
 use std::cmp::Ordering::Greater;
+use std::cmp::Reverse;
 use std::collections::BinaryHeap;
 use std::marker::PhantomData;
 use std::ops::Div;
@@ -48,6 +49,7 @@ where
         query: &P,
         k: usize,
         heap: &mut BinaryHeap<Element<F>>,
+        nearest: &mut BinaryHeap<Reverse<Element<F>>>,
     ) {
         let Some(node) = root else {
             return;
@@ -55,11 +57,13 @@ where
 
         let index = node.index();
         let point = self.dataset[index];
-        let element = {
-            let distance = self.metric.measure(&point, query);
-            Element::new(index, distance)
-        };
-        heap.push(element);
+        let distance = self.metric.measure(&point, query);
+        heap.push(Element::new(index, distance));
+        // Keep the k nearest elements found so far, the farthest of them on top.
+        nearest.push(Reverse(Element::new(index, distance)));
+        if nearest.len() > k {
+            nearest.pop();
+        }
         if node.is_leaf() {
             return;
         }
@@ -68,14 +72,17 @@ where
             let axis = node.axis();
             query[axis] - point[axis]
         };
-        let distance = heap.peek().map(|e| e.distance()).unwrap_or(F::min_value());
-        if heap.len() < k || delta.abs() <= distance {
-            self.search_recursively(node.left(), query, k, heap);
-            self.search_recursively(node.right(), query, k, heap);
+        let distance = nearest
+            .peek()
+            .map(|Reverse(e)| e.distance())
+            .unwrap_or(F::max_value());
+        if nearest.len() < k || self.metric.measure_axis(delta) <= distance {
+            self.search_recursively(node.left(), query, k, heap, nearest);
+            self.search_recursively(node.right(), query, k, heap, nearest);
         } else if delta < F::zero() {
-            self.search_recursively(node.left(), query, k, heap);
+            self.search_recursively(node.left(), query, k, heap, nearest);
         } else {
-            self.search_recursively(node.right(), query, k, heap);
+            self.search_recursively(node.right(), query, k, heap, nearest);
         }
     }
 
@@ -147,7 +154,8 @@ where
         }
 
         let mut heap: BinaryHeap<Element<F>> = BinaryHeap::new();
-        self.search_recursively(self.root.as_ref(), query, k, &mut heap);
+        let mut nearest = BinaryHeap::new();
+        self.search_recursively(self.root.as_ref(), query, k, &mut heap, &mut nearest);
 
         let mut neighbors = Vec::with_capacity(k);
         while let Some(element) = heap.pop() {
-- 
2.43.0


From cef9bb10e53b7fe511ac7f6ed8a36f622c642c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:32 +0000
Subject: [PATCH 05/16] fix: prune the radius search by the distance metric in
 use

With the squared metric the axis delta was compared with a squared radius, so
points within a radius below one were missed.
---
 src/math/neighbors/kdtree/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index 3b4c52c..cf7da26 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -108,7 +108,7 @@ where
             let axis = node.axis();
             query[axis] - point[axis]
         };
-        if delta.abs() <= radius {
+        if self.metric.measure_axis(delta) <= radius {
             self.search_radius_recursively(node.left(), query, radius, results);
             self.search_radius_recursively(node.right(), query, radius, results);
         } else if delta < F::zero() {
-- 
2.43.0


From a1e67660d8d387b191aaafd46ede48af55d08515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 06/16] fix: bound the capacity of neighbor searches by the
 data set

Asking for a huge k panicked with a capacity overflow.
---
 src/math/neighbors/kdtree/mod.rs | 2 +-
 src/math/neighbors/linear.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index cf7da26..3fb31a7 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -157,7 +157,7 @@ where
         let mut nearest = BinaryHeap::new();
         self.search_recursively(self.root.as_ref(), query, k, &mut heap, &mut nearest);
 
-        let mut neighbors = Vec::with_capacity(k);
+        let mut neighbors = Vec::with_capacity(k.min(self.dataset.len()));
         while let Some(element) = heap.pop() {
             neighbors.push(Neighbor::new(element.index(), element.distance()));
             if neighbors.len() == k {
diff --git a/src/math/neighbors/linear.rs b/src/math/neighbors/linear.rs
index b8bbc9c..38e3e92 100644
--- a/src/math/neighbors/linear.rs
+++ b/src/math/neighbors/linear.rs
@@ -52,7 +52,7 @@ where
             neighbor1.distance.partial_cmp(&neighbor2.distance).unwrap()
         });
 
-        let mut results = Vec::with_capacity(k);
+        let mut results = Vec::with_capacity(k.min(neighbors.len()));
         results.extend(neighbors.into_iter().take(k));
         results
     }
-- 
2.43.0


From 462ea83cb3b17cd5702bee33d0b20eeeaf836c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 07/16] fix: avoid the overflow of a huge minimum sample count

---
 src/math/clustering/hdbscan/core_distance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/clustering/hdbscan/core_distance.rs b/src/math/clustering/hdbscan/core_distance.rs
index 2b7d83a..db62fa7 100644
--- a/src/math/clustering/hdbscan/core_distance.rs
+++ b/src/math/clustering/hdbscan/core_distance.rs
@@ -22,7 +22,7 @@ where
             };
         }
 
-        let k = dataset.len().min(min_samples + 1);
+        let k = dataset.len().min(min_samples.saturating_add(1));
         let dataset_vec = dataset.to_vec();
         let neighbor_search = KDTree::new(&dataset_vec, metric);
         let mut distances = Vec::with_capacity(dataset.len());
-- 
2.43.0


From 9b3bf11ea926987b610731049c646e4d8eb6fab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:05 +0000
Subject: [PATCH 08/16] fix: do not double the points when k-means gets at
 least as many clusters as points

---
 src/math/clustering/kmeans/algorithm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index f0affa6..66bc428 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -98,6 +98,7 @@ where
                 .enumerate()
                 .map(|(index, data)| {
                     let mut cluster = Cluster::new(data);
+                    cluster.clear();
                     cluster.insert(index, data);
                     cluster
                 })
-- 
2.43.0


From 27970b1648d122cb356fdd25185d3dd88bdffe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 09/16] fix: keep the centroid of a k-means cluster that loses
 all its points

It jumped to the origin, which may lie outside the data.
---
 src/math/clustering/kmeans/algorithm.rs | 1 +
 src/math/clustering/kmeans/cluster.rs   | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index 66bc428..ff99139 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -64,6 +64,7 @@ where
             .zip(centroids)
             .for_each(|(cluster, old_centroid)| {
                 if cluster.is_empty() {
+                    cluster.reset_centroid(&old_centroid);
                     return;
                 }
 
diff --git a/src/math/clustering/kmeans/cluster.rs b/src/math/clustering/kmeans/cluster.rs
index e255412..ba68ee1 100644
--- a/src/math/clustering/kmeans/cluster.rs
+++ b/src/math/clustering/kmeans/cluster.rs
@@ -48,6 +48,11 @@ where
         }
     }
 
+    /// Move the centroid of an empty cluster.
+    pub fn reset_centroid(&mut self, centroid: &P) {
+        self.centroid = *centroid;
+    }
+
     pub fn insert(&mut self, index: usize, data: &P) {
         self.centroid.add_assign(*data);
         self.children.insert(index);
-- 
2.43.0


From 16ce1b12e22c857b73c863e55d0121596615b482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:11 +0000
Subject: [PATCH 10/16] fix: stop k-means only when every centroid has settled

It stopped as soon as a single centroid moved by less than the tolerance.
---
 src/math/clustering/kmeans/algorithm.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index ff99139..3538105 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -58,7 +58,7 @@ where
             }
         });
 
-        let mut converged = false;
+        let mut converged = true;
         clusters
             .iter_mut()
             .zip(centroids)
@@ -71,8 +71,8 @@ where
                 cluster.update_centroid();
 
                 let difference = metric.measure(&old_centroid, cluster.centroid());
-                if difference < tolerance {
-                    converged = true;
+                if !(difference < tolerance) {
+                    converged = false;
                 }
             });
         converged
-- 
2.43.0


From 0bc68baa737dffcdfdc8ec2ae0ae6dfc3f477e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:14 +0000
Subject: [PATCH 11/16] fix: mark the chosen points in the k-means initializers

Inserting into the flags shifted them, so points were chosen repeatedly and
others could never be chosen; points already chosen also competed at distance
zero.
---
 src/math/clustering/kmeans/init.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/math/clustering/kmeans/init.rs b/src/math/clustering/kmeans/init.rs
index 4c99b36..aac231e 100644
--- a/src/math/clustering/kmeans/init.rs
+++ b/src/math/clustering/kmeans/init.rs
@@ -52,7 +52,7 @@ where
 
             let point = dataset.get(index);
             if let Some(centroid) = point {
-                selected.insert(index, true);
+                selected[index] = true;
                 centroids.push(*centroid);
             }
         }
@@ -69,17 +69,14 @@ where
         let mut centroids = Vec::with_capacity(k);
 
         let index = rng.gen_range(0..dataset.len());
-        selected.insert(index, true);
+        selected[index] = true;
         centroids.push(dataset[index]);
         while centroids.len() < k {
             let furthest = dataset
                 .iter()
                 .enumerate()
+                .filter(|(index, _)| !selected[*index])
                 .map(|(index, point)| -> (usize, F) {
-                    if selected[index] {
-                        return (index, F::zero());
-                    }
-
                     let min_distance = centroids
                         .iter()
                         .map(|centroid| metric.measure(point, centroid))
@@ -93,7 +90,7 @@ where
                 .max_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap_or(Ordering::Greater));
 
             if let Some((index, _)) = furthest {
-                selected.insert(index, true);
+                selected[index] = true;
                 centroids.push(dataset[index]);
             } else {
                 break;
-- 
2.43.0


From f0955ff8c146081aa908a15989ff019c2380ab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:17 +0000
Subject: [PATCH 12/16] fix: return no labels when partitioning an empty data
 set

---
 src/math/clustering/hierarchical/algorithm.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/math/clustering/hierarchical/algorithm.rs b/src/math/clustering/hierarchical/algorithm.rs
index 406918e..08bfcf4 100644
--- a/src/math/clustering/hierarchical/algorithm.rs
+++ b/src/math/clustering/hierarchical/algorithm.rs
@@ -9,6 +9,7 @@ use std::collections::{BinaryHeap, VecDeque};
 
 #[derive(Debug, PartialEq)]
 pub struct HierarchicalClustering<F: Float> {
+    n_data: usize,
     hierarchy: Vec<Node<F>>,
 }
 
@@ -23,6 +24,7 @@ where
     {
         if dataset.is_empty() {
             return Self {
+                n_data: 0,
                 hierarchy: Vec::new(),
             };
         }
@@ -53,7 +55,10 @@ where
                 }
             })
             .collect();
-        Self { hierarchy: nodes }
+        Self {
+            n_data: dataset.len(),
+            hierarchy: nodes,
+        }
     }
 
     /// Return the merges of this hierarchy.
@@ -65,7 +70,7 @@ where
     #[must_use]
     pub fn partition(&self, k: usize) -> Vec<usize> {
         let n_edge = self.hierarchy.len();
-        let n_data = n_edge + 1;
+        let n_data = self.n_data;
         assert!(k <= n_data);
 
         let mut labels = vec![0; n_data];
-- 
2.43.0


From d05bd3e6a27f979b527c1ac3686f1545d552e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 13/16] fix: make the order of swatches consistent with their
 equality

Different swatches of the same percentage compared as equal, so ordered sets
dropped them.
---
 src/swatch.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/swatch.rs b/src/swatch.rs
index d577134..8346512 100644
--- a/src/swatch.rs
+++ b/src/swatch.rs
@@ -21,7 +21,12 @@ where
     F: Float,
 {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        self.percentage.partial_cmp(&other.percentage)
+        let ordering = self.percentage.partial_cmp(&other.percentage)?;
+        Some(
+            ordering
+                .then_with(|| self.color.cmp(&other.color))
+                .then_with(|| self.position.cmp(&other.position)),
+        )
     }
 }
 
@@ -30,8 +35,6 @@ where
     F: Float,
 {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.percentage
-            .partial_cmp(&other.percentage)
-            .unwrap_or(Ordering::Equal)
+        self.partial_cmp(other).unwrap_or(Ordering::Equal)
     }
 }
-- 
2.43.0


From 51c19be58bc1742110c382243c427cbb98cab893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 14/16] Extend verification hooks: disjoint sets and Clamp

---
 src/math/clustering/hierarchical/mod.rs |  2 ++
 src/verif.rs                            | 22 ++++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/math/clustering/hierarchical/mod.rs b/src/math/clustering/hierarchical/mod.rs
index 235f401..648fdd9 100644
--- a/src/math/clustering/hierarchical/mod.rs
+++ b/src/math/clustering/hierarchical/mod.rs
@@ -3,3 +3,5 @@ mod algorithm;
 pub(crate) use algorithm::HierarchicalClustering;
 mod node;
 mod union_find;
+#[cfg(auto_palette_verif)]
+pub(crate) use union_find::UnionFind;
diff --git a/src/verif.rs b/src/verif.rs
index 2d38387..022a04e 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -10,13 +10,13 @@ pub use crate::color::xyz::XYZ;
 pub use crate::math::distance::metric::DistanceMetric;
 pub use crate::math::graph::edge::{Edge, WeightedEdge};
 pub use crate::math::graph::spanning_tree::{MinimumSpanningTree, SpanningTree};
-pub use crate::math::number::{Float, Number};
+pub use crate::math::number::{Clamp, Float, Number};
 pub use crate::math::point::{Point, Point2, Point3, Point5};
 
 use crate::math::clustering::dbscan::algorithm::DBSCAN;
 use crate::math::clustering::dbscan::params::Params as DbscanParams;
 use crate::math::clustering::hdbscan::CoreDistance;
-use crate::math::clustering::hierarchical::HierarchicalClustering;
+use crate::math::clustering::hierarchical::{HierarchicalClustering, UnionFind};
 use crate::math::clustering::kmeans::algorithm::Kmeans;
 use crate::math::clustering::kmeans::init::Initializer;
 use crate::math::clustering::kmeans::params::KmeansParams;
@@ -170,3 +170,21 @@ pub fn hierarchy<F: Float, WF: Fn(usize, usize) -> F>(
     let partitions = ks.iter().map(|k| clustering.partition(*k)).collect();
     (merges, partitions)
 }
+
+/// An operation on disjoint sets.
+#[derive(Debug, Clone, Copy, PartialEq)]
+pub enum SetOp {
+    Find(usize),
+    Union(usize, usize),
+}
+
+/// Run operations on disjoint sets and return the result of each: the root or the size.
+pub fn disjoint_sets(n: usize, ops: &[SetOp]) -> Vec<usize> {
+    let mut sets = UnionFind::new(n);
+    ops.iter()
+        .map(|op| match op {
+            SetOp::Find(x) => sets.find(*x),
+            SetOp::Union(x, y) => sets.union(*x, *y),
+        })
+        .collect()
+}
-- 
2.43.0


From 7b3936692719fc5c2c16c6f43d4058b6a16f906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 15/16] Let parts of the verification hooks be left out

---
 src/verif.rs | 337 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 206 insertions(+), 131 deletions(-)

diff --git a/src/verif.rs b/src/verif.rs
index 022a04e..a4a2027 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -1,30 +1,25 @@
 //! Verification hooks, compiled only with `--cfg auto_palette_verif`.
 //!
 //! They give an external harness access to the private building blocks of the library and contain
-//! no logic of their own.
+//! no logic of their own. Each part can be left out with
+//! `--cfg auto_palette_verif_without="<part>"`, so that one part does not depend on another.
 
-pub use crate::color::lab::Lab;
-pub use crate::color::rgba::Rgba;
-pub use crate::color::white_point::D65;
-pub use crate::color::xyz::XYZ;
 pub use crate::math::distance::metric::DistanceMetric;
-pub use crate::math::graph::edge::{Edge, WeightedEdge};
-pub use crate::math::graph::spanning_tree::{MinimumSpanningTree, SpanningTree};
-pub use crate::math::number::{Clamp, Float, Number};
+pub use crate::math::number::{Float, Number};
 pub use crate::math::point::{Point, Point2, Point3, Point5};
 
-use crate::math::clustering::dbscan::algorithm::DBSCAN;
-use crate::math::clustering::dbscan::params::Params as DbscanParams;
-use crate::math::clustering::hdbscan::CoreDistance;
-use crate::math::clustering::hierarchical::{HierarchicalClustering, UnionFind};
-use crate::math::clustering::kmeans::algorithm::Kmeans;
-use crate::math::clustering::kmeans::init::Initializer;
-use crate::math::clustering::kmeans::params::KmeansParams;
-use crate::math::clustering::traits::Fit;
-use crate::math::neighbors::kdtree::KDTree;
-use crate::math::neighbors::linear::LinearSearch;
-use crate::math::neighbors::nns::{Neighbor, NeighborSearch};
-use rand::Rng;
+#[cfg(not(auto_palette_verif_without = "colors"))]
+pub mod colors {
+    pub use crate::color::lab::Lab;
+    pub use crate::color::rgba::Rgba;
+    pub use crate::color::white_point::D65;
+    pub use crate::color::xyz::XYZ;
+}
+
+#[cfg(not(auto_palette_verif_without = "numbers"))]
+pub mod numbers {
+    pub use crate::math::number::Clamp;
+}
 
 /// A neighbor search query.
 #[derive(Debug, Clone)]
@@ -34,56 +29,76 @@ pub enum Query<F, P> {
     Radius(P, F),
 }
 
-fn run_queries<F, P, N>(search: &N, queries: &[Query<F, P>]) -> Vec<Vec<(usize, F)>>
-where
-    F: Float,
-    P: Point<F>,
-    N: NeighborSearch<F, P>,
-{
-    let flatten = |neighbors: Vec<Neighbor<F>>| -> Vec<(usize, F)> {
-        neighbors.iter().map(|n| (n.index, n.distance)).collect()
-    };
-    queries
-        .iter()
-        .map(|query| match query {
-            Query::Nearest(point, k) => flatten(search.search(point, *k)),
-            Query::Single(point) => flatten(search.search_nearest(point).into_iter().collect()),
-            Query::Radius(point, radius) => flatten(search.search_radius(point, *radius)),
-        })
-        .collect()
-}
+#[cfg(not(auto_palette_verif_without = "search"))]
+mod search {
+    use super::*;
+    use crate::math::neighbors::kdtree::KDTree;
+    use crate::math::neighbors::linear::LinearSearch;
+    use crate::math::neighbors::nns::{Neighbor, NeighborSearch};
 
-/// Run queries on a k-d tree.
-pub fn kdtree<F: Float, P: Point<F>>(
-    dataset: &Vec<P>,
-    metric: &DistanceMetric,
-    queries: &[Query<F, P>],
-) -> Vec<Vec<(usize, F)>> {
-    run_queries(&KDTree::new(dataset, metric), queries)
-}
+    fn run_queries<F, P, N>(search: &N, queries: &[Query<F, P>]) -> Vec<Vec<(usize, F)>>
+    where
+        F: Float,
+        P: Point<F>,
+        N: NeighborSearch<F, P>,
+    {
+        let flatten = |neighbors: Vec<Neighbor<F>>| -> Vec<(usize, F)> {
+            neighbors.iter().map(|n| (n.index, n.distance)).collect()
+        };
+        queries
+            .iter()
+            .map(|query| match query {
+                Query::Nearest(point, k) => flatten(search.search(point, *k)),
+                Query::Single(point) => flatten(search.search_nearest(point).into_iter().collect()),
+                Query::Radius(point, radius) => flatten(search.search_radius(point, *radius)),
+            })
+            .collect()
+    }
 
-/// Run queries on a linear search.
-pub fn linear<F: Float, P: Point<F>>(
-    dataset: &Vec<P>,
-    metric: &DistanceMetric,
-    queries: &[Query<F, P>],
-) -> Vec<Vec<(usize, F)>> {
-    run_queries(&LinearSearch::new(dataset, *metric), queries)
+    /// Run queries on a k-d tree.
+    pub fn kdtree<F: Float, P: Point<F>>(
+        dataset: &Vec<P>,
+        metric: &DistanceMetric,
+        queries: &[Query<F, P>],
+    ) -> Vec<Vec<(usize, F)>> {
+        run_queries(&KDTree::new(dataset, metric), queries)
+    }
+
+    /// Run queries on a linear search.
+    pub fn linear<F: Float, P: Point<F>>(
+        dataset: &Vec<P>,
+        metric: &DistanceMetric,
+        queries: &[Query<F, P>],
+    ) -> Vec<Vec<(usize, F)>> {
+        run_queries(&LinearSearch::new(dataset, *metric), queries)
+    }
 }
+#[cfg(not(auto_palette_verif_without = "search"))]
+pub use search::*;
 
-/// Run DBSCAN and return its centroids, the counts at the same positions, and the outliers.
-pub fn dbscan<F: Float, P: Point<F>>(
-    dataset: &[P],
-    min_points: usize,
-    epsilon: F,
-    metric: DistanceMetric,
-) -> (Vec<P>, Vec<usize>, Vec<usize>) {
-    let params = DbscanParams::new(min_points, epsilon, metric);
-    let dbscan = DBSCAN::fit(dataset, &params);
-    let centroids = dbscan.centroids();
-    let counts = (0..centroids.len()).map(|id| dbscan.count_at(id)).collect();
-    (centroids, counts, dbscan.outliers())
+#[cfg(not(auto_palette_verif_without = "density"))]
+mod density {
+    use super::*;
+    use crate::math::clustering::dbscan::algorithm::DBSCAN;
+    use crate::math::clustering::dbscan::params::Params;
+    use crate::math::clustering::traits::Fit;
+
+    /// Run DBSCAN and return its centroids, the counts at the same positions, and the outliers.
+    pub fn dbscan<F: Float, P: Point<F>>(
+        dataset: &[P],
+        min_points: usize,
+        epsilon: F,
+        metric: DistanceMetric,
+    ) -> (Vec<P>, Vec<usize>, Vec<usize>) {
+        let params = Params::new(min_points, epsilon, metric);
+        let dbscan = DBSCAN::fit(dataset, &params);
+        let centroids = dbscan.centroids();
+        let counts = (0..centroids.len()).map(|id| dbscan.count_at(id)).collect();
+        (centroids, counts, dbscan.outliers())
+    }
 }
+#[cfg(not(auto_palette_verif_without = "density"))]
+pub use density::*;
 
 /// Parameters of k-means.
 #[derive(Debug, Clone)]
@@ -95,51 +110,95 @@ pub struct KmeansConfig<F> {
     pub tolerance: F,
 }
 
-fn initializer<R: Rng + Clone>(plus_plus: bool, rng: R) -> Initializer<R> {
-    if plus_plus {
-        Initializer::KmeansPlusPlus(rng)
-    } else {
-        Initializer::Random(rng)
+#[cfg(not(auto_palette_verif_without = "means"))]
+mod means {
+    use super::*;
+    use crate::math::clustering::kmeans::algorithm::Kmeans;
+    use crate::math::clustering::kmeans::init::Initializer;
+    use crate::math::clustering::kmeans::params::KmeansParams;
+    use crate::math::clustering::traits::Fit;
+    use rand::Rng;
+
+    fn initializer<R: Rng + Clone>(plus_plus: bool, rng: R) -> Initializer<R> {
+        if plus_plus {
+            Initializer::KmeansPlusPlus(rng)
+        } else {
+            Initializer::Random(rng)
+        }
+    }
+
+    /// Run k-means and return its centroids and the counts at the same positions.
+    pub fn kmeans<F: Float, P: Point<F>, R: Rng + Clone>(
+        dataset: &[P],
+        config: &KmeansConfig<F>,
+        rng: R,
+    ) -> (Vec<P>, Vec<usize>) {
+        let params = KmeansParams::new(config.k, config.metric, initializer(config.plus_plus, rng))
+            .with_max_iterations(config.max_iterations)
+            .with_tolerance(config.tolerance);
+        let kmeans = Kmeans::fit(dataset, &params);
+        let centroids = kmeans.centroids();
+        let counts = (0..centroids.len()).map(|id| kmeans.count_at(id)).collect();
+        (centroids, counts)
     }
-}
 
-/// Run k-means and return its centroids and the counts at the same positions.
-pub fn kmeans<F: Float, P: Point<F>, R: Rng + Clone>(
-    dataset: &[P],
-    config: &KmeansConfig<F>,
-    rng: R,
-) -> (Vec<P>, Vec<usize>) {
-    let params = KmeansParams::new(config.k, config.metric, initializer(config.plus_plus, rng))
-        .with_max_iterations(config.max_iterations)
-        .with_tolerance(config.tolerance);
-    let kmeans = Kmeans::fit(dataset, &params);
-    let centroids = kmeans.centroids();
-    let counts = (0..centroids.len()).map(|id| kmeans.count_at(id)).collect();
-    (centroids, counts)
+    /// Return the initial centroids of k-means.
+    pub fn seeds<F: Float, P: Point<F>, R: Rng + Clone>(
+        dataset: &[P],
+        k: usize,
+        metric: &DistanceMetric,
+        plus_plus: bool,
+        rng: R,
+    ) -> Vec<P> {
+        initializer(plus_plus, rng).initialize(dataset, k, metric)
+    }
 }
+#[cfg(not(auto_palette_verif_without = "means"))]
+pub use means::*;
+
+#[cfg(not(auto_palette_verif_without = "core"))]
+mod core {
+    use super::*;
+    use crate::math::clustering::hdbscan::CoreDistance;
 
-/// Return the initial centroids of k-means.
-pub fn seeds<F: Float, P: Point<F>, R: Rng + Clone>(
-    dataset: &[P],
-    k: usize,
-    metric: &DistanceMetric,
-    plus_plus: bool,
-    rng: R,
-) -> Vec<P> {
-    initializer(plus_plus, rng).initialize(dataset, k, metric)
+    /// Return the core distance of every point.
+    pub fn core_distances<F: Float, P: Point<F>>(
+        dataset: &[P],
+        min_samples: usize,
+        metric: &DistanceMetric,
+    ) -> Vec<F> {
+        let core_distance = CoreDistance::new(dataset, min_samples, metric);
+        (0..dataset.len())
+            .map(|index| core_distance.distance_at(index))
+            .collect()
+    }
 }
+#[cfg(not(auto_palette_verif_without = "core"))]
+pub use core::*;
 
-/// Return the core distance of every point.
-pub fn core_distances<F: Float, P: Point<F>>(
-    dataset: &[P],
-    min_samples: usize,
-    metric: &DistanceMetric,
-) -> Vec<F> {
-    let core_distance = CoreDistance::new(dataset, min_samples, metric);
-    (0..dataset.len())
-        .map(|index| core_distance.distance_at(index))
-        .collect()
+#[cfg(not(auto_palette_verif_without = "tree"))]
+mod tree {
+    use super::*;
+    use crate::math::graph::edge::{Edge, WeightedEdge};
+    use crate::math::graph::spanning_tree::{MinimumSpanningTree, SpanningTree};
+
+    /// Return the edges `(u, v, weight)` of the minimum spanning tree and its total weight.
+    pub fn spanning_tree<F: Float, WF: Fn(usize, usize) -> F>(
+        n: usize,
+        weight_fn: WF,
+    ) -> (Vec<(usize, usize, F)>, F) {
+        let vertices: Vec<usize> = (0..n).collect();
+        let tree = MinimumSpanningTree::build(&vertices, weight_fn);
+        let edges = tree
+            .edges()
+            .iter()
+            .map(|edge| (edge.u(), edge.v(), edge.weight()))
+            .collect();
+        (edges, tree.weight())
+    }
 }
+#[cfg(not(auto_palette_verif_without = "tree"))]
+pub use tree::*;
 
 /// A merge of the cluster hierarchy.
 #[derive(Debug, Clone, PartialEq)]
@@ -150,26 +209,34 @@ pub struct Merge<F> {
     pub size: usize,
 }
 
-/// Return the cluster hierarchy and its partitions for the given numbers of clusters.
-pub fn hierarchy<F: Float, WF: Fn(usize, usize) -> F>(
-    n: usize,
-    weight_fn: WF,
-    ks: &[usize],
-) -> (Vec<Merge<F>>, Vec<Vec<usize>>) {
-    let clustering = HierarchicalClustering::fit(&vec![(); n], weight_fn);
-    let merges = clustering
-        .hierarchy()
-        .iter()
-        .map(|node| Merge {
-            left: node.left,
-            right: node.right,
-            weight: node.weight,
-            size: node.size,
-        })
-        .collect();
-    let partitions = ks.iter().map(|k| clustering.partition(*k)).collect();
-    (merges, partitions)
+#[cfg(not(auto_palette_verif_without = "linkage"))]
+mod linkage {
+    use super::*;
+    use crate::math::clustering::hierarchical::HierarchicalClustering;
+
+    /// Return the cluster hierarchy and its partitions for the given numbers of clusters.
+    pub fn hierarchy<F: Float, WF: Fn(usize, usize) -> F>(
+        n: usize,
+        weight_fn: WF,
+        ks: &[usize],
+    ) -> (Vec<Merge<F>>, Vec<Vec<usize>>) {
+        let clustering = HierarchicalClustering::fit(&vec![(); n], weight_fn);
+        let merges = clustering
+            .hierarchy()
+            .iter()
+            .map(|node| Merge {
+                left: node.left,
+                right: node.right,
+                weight: node.weight,
+                size: node.size,
+            })
+            .collect();
+        let partitions = ks.iter().map(|k| clustering.partition(*k)).collect();
+        (merges, partitions)
+    }
 }
+#[cfg(not(auto_palette_verif_without = "linkage"))]
+pub use linkage::*;
 
 /// An operation on disjoint sets.
 #[derive(Debug, Clone, Copy, PartialEq)]
@@ -178,13 +245,21 @@ pub enum SetOp {
     Union(usize, usize),
 }
 
-/// Run operations on disjoint sets and return the result of each: the root or the size.
-pub fn disjoint_sets(n: usize, ops: &[SetOp]) -> Vec<usize> {
-    let mut sets = UnionFind::new(n);
-    ops.iter()
-        .map(|op| match op {
-            SetOp::Find(x) => sets.find(*x),
-            SetOp::Union(x, y) => sets.union(*x, *y),
-        })
-        .collect()
+#[cfg(not(auto_palette_verif_without = "sets"))]
+mod sets {
+    use super::*;
+    use crate::math::clustering::hierarchical::UnionFind;
+
+    /// Run operations on disjoint sets and return the result of each: the root or the size.
+    pub fn disjoint_sets(n: usize, ops: &[SetOp]) -> Vec<usize> {
+        let mut sets = UnionFind::new(n);
+        ops.iter()
+            .map(|op| match op {
+                SetOp::Find(x) => sets.find(*x),
+                SetOp::Union(x, y) => sets.union(*x, *y),
+            })
+            .collect()
+    }
 }
+#[cfg(not(auto_palette_verif_without = "sets"))]
+pub use sets::*;
-- 
2.43.0


From e7e277b9598f09838d5231bb99dc84c2fbff1259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 16/16] Keep the names of the verification hooks at their place

---
 src/verif.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/verif.rs b/src/verif.rs
index a4a2027..d997222 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -15,11 +15,15 @@ pub mod colors {
     pub use crate::color::white_point::D65;
     pub use crate::color::xyz::XYZ;
 }
+#[cfg(not(auto_palette_verif_without = "colors"))]
+pub use colors::*;
 
 #[cfg(not(auto_palette_verif_without = "numbers"))]
 pub mod numbers {
     pub use crate::math::number::Clamp;
 }
+#[cfg(not(auto_palette_verif_without = "numbers"))]
+pub use numbers::*;
 
 /// A neighbor search query.
 #[derive(Debug, Clone)]
@@ -179,8 +183,8 @@ pub use core::*;
 #[cfg(not(auto_palette_verif_without = "tree"))]
 mod tree {
     use super::*;
-    use crate::math::graph::edge::{Edge, WeightedEdge};
-    use crate::math::graph::spanning_tree::{MinimumSpanningTree, SpanningTree};
+    pub use crate::math::graph::edge::{Edge, WeightedEdge};
+    pub use crate::math::graph::spanning_tree::{MinimumSpanningTree, SpanningTree};
 
     /// Return the edges `(u, v, weight)` of the minimum spanning tree and its total weight.
     pub fn spanning_tree<F: Float, WF: Fn(usize, usize) -> F>(
-- 
2.43.0

