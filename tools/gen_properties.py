#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a generator so that the wording stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

EXT = "ImageData::extract"
IMG = "src/image.rs"; DB = "src/math/clustering/dbscan/algorithm.rs"; KD = "src/math/neighbors/kdtree/mod.rs"
LAB = "src/color/lab.rs"; XYZ = "src/color/xyz.rs"; RGBA = "src/color/rgba.rs"; SW = "src/swatch.rs"
HOOK = "cfg(auto_palette_verif): src/verif.rs re-exports the private item"
TEST1 = "The only test of extraction runs one PNG and prints the result; it asserts nothing about it."

p("P01", "Palette extraction is total on well-formed images",
  "For every well-formed RGBA image (width x height pixels, four bytes each, including empty, one-pixel and extremely thin images, any colours and any opacity) extraction returns a list of swatches in either floating-point precision. It never panics, overflows, aborts or fails to return.",
  ["inputs"], "every image with data length 4*width*height, f32 and f64", TEST1 + " A panic needs an unusual image (for example a region whose mean colour lies outside the displayable gamut).",
  [IMG, RGBA, XYZ, LAB, DB, KD], [("pixel loop and index arithmetic", IMG), ("clamped conversion back to 8-bit colour", RGBA), ("DBSCAN labels every point", DB)], [EXT])
p("P02", "Colour, position and share of a swatch come from the same region",
  "Each extracted swatch describes exactly one of the dense groups of similar nearby pixels of the image: its colour is the mean Lab colour of that group converted back to sRGB (channels out of gamut clipped to 0..255), its position is the mean pixel coordinate of that group rounded down, and its percentage is that same group's number of pixels divided by the number of pixels of the image. No swatch mixes attributes of different groups and every group appears exactly once.",
  ["inputs"], "every well-formed image, both precisions", TEST1 + " Mixed-up attributes look plausible one by one; only recomputing the groups exposes them.",
  [IMG, DB], [("centroid and member count looked up for the same cluster", IMG), ("centroid = sum of members / count", DB)], [EXT])
p("P03", "Regions are exactly the dense connected groups of similar nearby pixels",
  "With each pixel placed at (L/100, a/255, b/255, x/width, y/height), a pixel is dense when at least 25 pixels, itself included, lie within distance 0.025. Two dense pixels are counted in the same swatch exactly when they are linked by a chain of dense pixels with steps of at most 0.025; a non-dense pixel within 0.025 of a dense one is counted in exactly one of the swatches it touches, and all other pixels are counted in none.",
  ["inputs"], "every well-formed image without pixel pairs within rounding error of the 0.025 boundary, both precisions", TEST1 + " The clustering unit test covers one 16-point data set in two dimensions.",
  [IMG, DB, KD], [("normalisation of the pixels", IMG), ("density-based expansion", DB), ("exact radius search", KD)], [EXT])
p("P04", "Percentages account for every clustered pixel exactly once",
  "Every percentage is a whole number of pixels divided by the total number of pixels of the image, lies in (0, 1], and all percentages together add up to the fraction of pixels that are not noise (hence at most 1). All pixels count equally, whatever their opacity, and opacity never influences the result.",
  ["inputs"], "every well-formed image, both precisions", TEST1,
  [IMG, DB], [("count / number of pixels", IMG), ("each index is labelled once", DB)], [EXT])
p("P05", "Swatches are returned in ascending order of percentage",
  "The swatches returned by an extraction are sorted by percentage, smallest first, for every image and both precisions.",
  ["inputs"], "every well-formed image, both precisions", TEST1 + " The order happens to be right for most small outputs.",
  [IMG, SW], [("sort before return", IMG), ("ordering of swatches", SW)], [EXT])
p("P06", "Extraction is deterministic and independent of history",
  "Extracting the same pixels with the same dimensions always returns the identical list of swatches (same values, same order). It makes no difference whether the call is repeated, made in another process, made from another copy of the pixels, or preceded by any other extractions, including of other images held in the same buffer or having the same dimensions.",
  ["inputs", "histories"], "every sequence of extractions in one or several processes", "Each test calls extraction once; hash seeds, caches and leftover state show only across calls and processes.",
  [IMG, DB], [("no global state", IMG), ("clusters enumerated in a fixed order", DB)], [EXT])
p("P07", "Concurrent extractions do not disturb each other",
  "Any number of threads may extract palettes at the same time, from shared or distinct images, and every call returns exactly what it returns when run alone. There is no data race, and image data and swatches may be shared between and sent to other threads.",
  ["schedules", "inputs"], "every interleaving of extractions on several threads", "No test runs two extractions at the same time.",
  [IMG, DB, KD], [("no shared mutable state; borrowed pixel data is read-only", IMG)], [EXT])
p("P08", "Positions lie inside the image and follow its symmetries",
  "Every swatch position satisfies x < width and y < height. Mirroring an image horizontally or vertically, rotating it by 180 degrees, or transposing it leaves the colours and percentages of its swatches unchanged (up to rounding) and transforms their positions accordingly, whenever no pixel touches two regions.",
  ["inputs"], "every well-formed image; symmetries on images whose regions do not share border pixels and without pixel pairs at the distance threshold", TEST1 + " The bundled image is checked against nothing.",
  [IMG], [("row-major index to coordinate conversion and its inverse", IMG)], [EXT])
p("P09", "Single and double precision extraction agree",
  "Extracting an image in single and in double precision yields the same number of swatches with the same pixel counts, colours equal to within two levels per channel and positions to within one pixel. This holds for every image of up to ten thousand pixels without pixel pairs within rounding error of the distance threshold and without pixels touching two regions.",
  ["inputs", "configurations"], "every such image", "Only double precision extraction is ever run by the tests.",
  [IMG, "src/math/number.rs", LAB, XYZ, RGBA], [("generic floating-point code", "src/math/number.rs")], [EXT])
p("P10", "8-bit colours survive the round trip through XYZ and Lab unchanged",
  "Converting any of the 16,777,216 opaque 8-bit sRGB colours to XYZ and back, or to XYZ, to Lab, to XYZ and back, returns exactly the same colour in both single and double precision.",
  ["inputs"], "all 2^24 colours, both precisions", "The tests convert five colours, one way at a time and in double precision.",
  [RGBA, XYZ, LAB], [("forward and inverse matrices and transfer functions", "src/color/")], ["conversions between Rgba, XYZ and Lab"], HOOK)
p("P11", "Colour conversions agree with the sRGB and CIE Lab definitions",
  "Every conversion between 8-bit sRGB, XYZ (D65) and Lab agrees with the standard sRGB and CIE 1976 formulas to within 0.000002 units of each XYZ coordinate, 0.0005 Lab units, and correct rounding to 8-bit levels (0.51 of a level), over the whole range of in-gamut colours including both branches of every piecewise function, in both precisions. Converting XYZ to Lab and back returns the same XYZ coordinates to within 0.000002.",
  ["inputs"], "all in-range colours, both precisions", "The tests convert five fully saturated colours; the linear (dark) branches of the piecewise formulas are reached only by pure black.",
  [RGBA, XYZ, LAB, "src/color/white_point.rs"], [("piecewise transfer functions, matrices, white point", "src/color/")], ["conversions between Rgba, XYZ and Lab"], HOOK)
p("P12", "Out-of-range colours saturate instead of wrapping or failing",
  "Creating an XYZ or Lab colour from any finite or infinite components clamps each component to its documented range (XYZ 0..0.950456, 0..1, 0..1.088644; Lab 0..100, -128..127, -128..127) and leaves components already in range untouched. Converting any such colour, in gamut or not, to Lab, XYZ or 8-bit sRGB succeeds, stays in range, and clips each 8-bit channel to the nearest of 0 and 255.",
  ["inputs"], "all finite or infinite component triples, both precisions", "The tests clamp two triples and convert only displayable colours.",
  [RGBA, XYZ, LAB, "src/math/number.rs"], [("clamp in constructors", XYZ), ("conversion to u8", RGBA)], ["XYZ::new, Lab::new and conversions"], HOOK)
p("P13", "Nearest-neighbour searches return the true k nearest points",
  "For any finite data set (duplicates included), query point, k, distance metric, dimension and precision, both the tree and the linear search return min(k, n) distinct points ordered by increasing distance, each with its true distance, such that no omitted point is closer than a returned one. The single-nearest query returns a closest point, and none only for an empty data set.",
  ["inputs"], "all finite data sets, queries and k", "One eight-point and one five-point integer data set are queried with distances above 1 in two dimensions; wrong pruning shows only on larger data, other dimensions or small distances.",
  [KD, "src/math/neighbors/linear.rs", "src/math/neighbors/kdtree/element.rs"], [("subtree pruning against the k-th best distance", KD)], ["NeighborSearch::search, search_nearest"], HOOK)
p("P14", "Radius searches return exactly the points within the radius",
  "For any finite data set (duplicates included), query point, radius, distance metric, dimension and precision, both the tree and the linear search return every point whose distance under that metric is at most the radius (the boundary is included) exactly once with its true distance, and nothing else. A negative radius finds nothing.",
  ["inputs"], "all finite data sets, queries and radii", "One eight-point and one five-point data set, radii of at least 1.",
  [KD, "src/math/neighbors/linear.rs"], [("subtree pruning against the radius", KD)], ["NeighborSearch::search_radius"], HOOK)
p("P15", "Density clustering follows the DBSCAN definition on any data",
  "For any finite data set, minimum neighbour count of at least one, non-negative radius and either metric, the clusters are exactly the density-connected groups of core points plus border points, each border point belongs to exactly one adjacent cluster, and the outliers are exactly the remaining points. For every cluster, the reported centroid is the mean of its members and the count reported at the same position is their number.",
  ["inputs"], "all finite data sets and parameters", "One 16-point data set with one parameter setting and no outliers.",
  [DB, "src/math/clustering/dbscan/label.rs", KD], [("label state machine and queue expansion", DB)], ["DBSCAN centroids, counts and outliers"], HOOK,
  [("label", "Undefined, Marked, Assigned(cluster) or Outlier per point", "src/math/clustering/dbscan/label.rs")])
p("P16", "k-means partitions the data and reports the means of its clusters",
  "For any finite data set and k, k-means reports min(k, n) clusters (none when k is zero) whose sizes add up to n after at least one iteration. Each iteration assigns every point to a nearest centroid and moves each non-empty cluster's centroid to the mean of its points; when k is at least n every point forms its own cluster with itself as the centroid, and no centroid ever leaves the bounding box of the data.",
  ["inputs"], "all finite data sets, k, metrics, initialisers and seeds", "The only test runs k-means once on five points and asserts nothing.",
  ["src/math/clustering/kmeans/algorithm.rs", "src/math/clustering/kmeans/cluster.rs"], [("reassign", "src/math/clustering/kmeans/algorithm.rs"), ("centroid update", "src/math/clustering/kmeans/cluster.rs")], ["Kmeans centroids and counts"], HOOK)
p("P17", "k-means stops on convergence or at its iteration limit, not before and not after",
  "k-means never performs more than the configured number of iterations, and it stops earlier only after an iteration in which every centroid moved by less than the configured tolerance (as measured by its metric); after the first such iteration it does stop. Hence, given enough iterations, every point ends up assigned to a centroid that is nearest to it up to the tolerance.",
  ["inputs"], "all finite data sets, k, tolerances and iteration limits", "The only test runs k-means once on five points and asserts nothing.",
  ["src/math/clustering/kmeans/algorithm.rs"], [("convergence test over all clusters", "src/math/clustering/kmeans/algorithm.rs")], ["Kmeans centroids under increasing iteration limits"], HOOK)
p("P18", "k-means seeding picks distinct data points, spread out for k-means++",
  "Both initialisers return min(k, n) centroids taken from distinct elements of the data set (a value occurs at most as often as in the data) and finish, for every seed of the random generator. With k-means++, every centroid after the first is an unused data point whose distance to the closest centroid chosen before it is the largest possible.",
  ["inputs"], "all finite data sets, k, metrics and random sources", "The tests request two of five points from an unseeded generator and check only how many came back.",
  ["src/math/clustering/kmeans/init.rs"], [("book-keeping of selected points", "src/math/clustering/kmeans/init.rs")], ["Initializer::initialize"], HOOK)
p("P19", "Core distances are the distance to the m-th nearest other point",
  "For any finite data set, metric and minimum sample count m, the core distance of each point is its distance to its m-th nearest other point, or to the farthest point when fewer than m others exist.",
  ["inputs"], "all finite data sets, metrics and m", "One six-point data set with m = 3.",
  ["src/math/clustering/hdbscan/core_distance.rs", KD], [("k-nearest search with k = m + 1", "src/math/clustering/hdbscan/core_distance.rs")], ["CoreDistance::distance_at"], HOOK)
p("P20", "The minimum spanning tree spans all vertices at minimum total weight",
  "For any non-empty vertex set and finite symmetric weight function (ties, zero and negative weights included) the result has exactly n-1 edges that connect all n vertices, each edge carries the weight of its end points, the reported total is the sum of the edge weights, and no spanning tree has a smaller total. An empty vertex set gives no edges and zero weight.",
  ["inputs"], "all finite symmetric weight functions", "One four-vertex graph.",
  ["src/math/graph/spanning_tree.rs", "src/math/graph/edge.rs"], [("Prim's algorithm with a priority queue of reversed edges", "src/math/graph/spanning_tree.rs")], ["MinimumSpanningTree::build, edges, weight"], HOOK)
p("P21", "The cluster hierarchy is the single-linkage dendrogram",
  "For any non-empty data set and finite symmetric weight function the hierarchy consists of n-1 merges in non-decreasing order of weight, in which every point and every earlier merge is consumed at most once and before the final merge exactly once. Each merge joins two groups at the smallest weight between any of their members, and its recorded size is the number of points below it.",
  ["inputs"], "all finite symmetric weight functions", "One six-point data set.",
  ["src/math/clustering/hierarchical/algorithm.rs", "src/math/clustering/hierarchical/union_find.rs"], [("edges sorted by weight, union-find relabelling", "src/math/clustering/hierarchical/algorithm.rs")], ["HierarchicalClustering hierarchy"], HOOK)
p("P22", "Cutting the hierarchy at k gives a valid single-linkage k-clustering",
  "For every k from 1 to the number of points, partitioning returns one label per point, uses exactly the labels 0..k-1, and the groups are a single-linkage clustering: obtained by cutting k-1 heaviest merges. Partitions are nested (the one for k+1 refines the one for k), and an empty data set has no labels.",
  ["inputs"], "all finite symmetric weight functions and all k", "One six-point data set and four values of k.",
  ["src/math/clustering/hierarchical/algorithm.rs"], [("splitting the latest merges first", "src/math/clustering/hierarchical/algorithm.rs")], ["HierarchicalClustering::partition"], HOOK)
p("P23", "Swatch ordering is a total order by percentage consistent with equality",
  "Swatches whose percentages are not NaN are totally ordered: the order is antisymmetric and transitive, a swatch with a smaller percentage always compares as smaller, and two swatches compare as equal exactly when they are equal. Both comparison operators agree, so sorted lists, ordered sets and heaps of swatches lose or misplace none.",
  ["inputs"], "all pairs and triples of swatches with non-NaN percentages", "No test compares swatches.",
  [SW], [("PartialEq, Eq, PartialOrd and Ord of swatches", SW)], ["comparison of Swatch values"])
p("P24", "No memory error or undefined behaviour on any input",
  "Whatever image, data set or parameters are processed, the library never reads or writes outside its buffers, never uses uninitialised or freed memory and never executes undefined behaviour, and it never modifies the caller's pixels.",
  ["inputs"], "all inputs of the library", "Tests run uninstrumented on few inputs; a stray access rarely changes their result.",
  ["src/"], [("safe Rust with bounds checks; every index is derived from the data's own length", "src/")], ["every entry point under AddressSanitizer, valgrind and Miri"], HOOK)
p("P25", "Distances and point arithmetic follow the Euclidean definitions",
  "For points of dimension 2, 3 and 5 in both precisions, the squared Euclidean distance is the sum of the squared coordinate differences and the Euclidean distance its square root, hence symmetric, zero for identical points and obeying the triangle inequality. Addition, subtraction, scaling and division by a non-zero scalar act on every coordinate, in place as well as by value, and dividing by zero is rejected, as is reading a component beyond the dimension. The zero point is neutral for addition and is exactly the point recognised as zero.",
  ["inputs"], "all finite points and scalars", "A handful of two- and three-dimensional examples; arithmetic of five-dimensional points, the ones used on pixels, is never tested.",
  ["src/math/distance/metric.rs", "src/math/point.rs"], [("metric", "src/math/distance/metric.rs"), ("point macro", "src/math/point.rs")], ["DistanceMetric::measure, Point operators"], HOOK)
p("P26", "Searches, clusterings and trees are deterministic and keep no state",
  "Running a neighbour search, DBSCAN, k-means, a seeding, core distances, a spanning tree, a hierarchy or a colour conversion again with equal data, parameters and random generator state returns the identical result (values and order). It makes no difference what was computed before, over which data, or on which thread, and no memory stays allocated once the result is dropped.",
  ["inputs", "histories", "schedules"], "all histories and interleavings of calls", "Every test calls each function once.",
  ["src/math/", "src/color/"], [("no hidden state; ordered containers where order matters", "src/math/")], ["results of every building block, bit by bit"], HOOK)
p("P27", "Disjoint sets stay consistent over any history of unions and look-ups",
  "Starting from n single elements, after any sequence of unions of two different current roots with look-ups in between, two elements or earlier roots have the same root exactly when they were joined directly or indirectly. The root of a union is the next unused number n, n+1, ..., the reported size is the number of elements in the joined set, and look-ups never change any answer.",
  ["histories"], "all histories of unions and look-ups", "Two histories of at most two unions.",
  ["src/math/clustering/hierarchical/union_find.rs"], [("parent links with path compression", "src/math/clustering/hierarchical/union_find.rs")], ["UnionFind::find, union"], HOOK)
p("P28", "Numeric conversions keep the value and clamping keeps the range",
  "Converting an integer into any supported number type that can hold it keeps its value (for f32 and f64: the nearest representable value), and converting f32 or f64 into either precision gives the nearest representable value. Clamping returns the value itself inside the bounds and the nearer bound outside, bounds included, for every number type, and rejects bounds in the wrong order.",
  ["inputs"], "all values and bounds", "Small examples per type.",
  ["src/math/number.rs"], [("conversion and clamp macros", "src/math/number.rs")], ["Number, Float and Clamp for u8 to u128, f32, f64"], HOOK)
p("P29", "Extraction retains no memory and needs little more than the image",
  "Once the swatches it returned are dropped, an extraction leaves not one byte allocated (beyond what the very first calls in a process set up), whatever image it was given and however many it is given, so a process can extract palettes for ever. At no time during a call does it hold more than a fixed amount plus a fixed multiple of the number of pixels (1 MiB and 768 bytes per pixel), also where hundreds of pixels lie within the radius of each other.",
  ["inputs", "histories"], "every image and every sequence of extractions, both precisions", "Tests never look at memory and end their process after one call; leaks and caches show only over many calls or different images.",
  ["src/"], [("owned buffers, dropped at the end of the call", IMG), ("pixels are queued at most once", DB)], ["live and peak heap bytes around ImageData::extract"])
p("P30", "Extraction is a pure computation without effects on or from the outside",
  "An extraction uses nothing but the pixels and dimensions it is given. It opens, reads or writes no file, prints nothing, contacts no network, starts no process, reads no environment variable and no clock, does not sleep, and leaves no thread running; denied access to all of these it returns the same swatches.",
  ["inputs"], "every image, both precisions", "A message, a time limit or a setting read in an unusual branch changes no result a test looks at, and tests capture output.",
  ["src/"], [("no access to std::fs, std::env, std::time, std::process or output macros", "src/")], ["system calls, getenv and clock_gettime during ImageData::extract"])
p("P31", "Searches and clusterings keep their work in bounds",
  "Over well spread data in two or three dimensions (thousands of points in any order) a tree search for the points within a radius that holds about ten, or for up to ten nearest points, examines only a part of the data, on average less than 15 % of the points for a radius and (uniform and grid data) less than 60 % for the nearest, and building the tree looks at points O(n log^2 n) times, also when they are equal. DBSCAN searches the neighbourhood of no point more than about twice and core distances about once; k-means computes a bounded multiple of n*k distances per iteration, and the spanning tree and the hierarchy ask for the weight of each ordered pair at most twice.",
  ["inputs"], "all spread-out data sets of a few thousand points, all parameters", "Results stay right when pruning fails or work is repeated, and the data of the tests is tiny.",
  [KD, DB, "src/math/clustering/hdbscan/core_distance.rs", "src/math/clustering/kmeans/algorithm.rs", "src/math/graph/spanning_tree.rs", "src/math/clustering/hierarchical/algorithm.rs"],
  [("median split and pruning", KD), ("labels keep a pixel from being searched again", DB)], ["points taken into hand (a counting point type), calls of the weight function"], HOOK)
p("P32", "Swatches never mix or alter colours that are apart",
  "If all colours of an image are farther from each other than the linking radius, every swatch has exactly one of those colours (in single precision within two levels per channel), never a mixture or a shade of it, in whatever pattern the colours are laid out. Its position lies within the columns and rows which pixels of that colour occupy, and the swatches of one colour together count no more pixels than have it.",
  ["inputs"], "every image whose colours are pairwise more than 0.03 apart in normalised Lab, both precisions", "One photograph, whose colours are not looked at.",
  [IMG, DB, "src/color/"], [("mean of equal colours converts back to itself", IMG), ("distance includes the colour", "src/math/distance/metric.rs")], ["colour, position and percentage of every swatch"])
p("P33", "Texts of colours and points name and list their components",
  "The text (Display) of an Rgba, XYZ or Lab colour and of a two-, three- or five-dimensional point is the name of the type followed by its components in order in parentheses, separated by a comma and a space, and each component reads back to the very same value, whatever its magnitude and sign.",
  ["inputs"], "all components, both precisions", "One text per type.",
  ["src/color/", "src/math/point.rs"], [("Display implementations", "src/color/"), ("Display of points in impl_point!", "src/math/point.rs")], ["to_string() of Rgba, XYZ, Lab, Point2, Point3, Point5"], HOOK)
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
