IMG="src/image.rs"; DB="src/math/clustering/dbscan/algorithm.rs"; KD="src/math/neighbors/kdtree/mod.rs"
LAB="src/color/lab.rs"; XYZ="src/color/xyz.rs"; RGBA="src/color/rgba.rs"; SW="src/swatch.rs"; NUM="src/math/number.rs"
KM="src/math/clustering/kmeans/algorithm.rs"; KI="src/math/clustering/kmeans/init.rs"; KC="src/math/clustering/kmeans/cluster.rs"
HC="src/math/clustering/hierarchical/algorithm.rs"; UF="src/math/clustering/hierarchical/union_find.rs"
ST="src/math/graph/spanning_tree.rs"; ED="src/math/graph/edge.rs"; LIN="src/math/neighbors/linear.rs"; EL="src/math/neighbors/kdtree/element.rs"
CD="src/math/clustering/hdbscan/core_distance.rs"; PT="src/math/point.rs"; ME="src/math/distance/metric.rs"; LBL="src/math/clustering/dbscan/label.rs"
