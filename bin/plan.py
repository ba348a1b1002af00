"""What each check runs: build variants, phases of workers, and the rule its evidence states."""
CFG = "--cfg auto_palette_verif"
LINUX = "x86_64-unknown-linux-gnu"
BUILD = ["cargo", "build", "--offline", "--quiet"]
NIGHTLY = ["cargo", "+nightly", "build", "--offline", "--quiet", "--release", "--target", LINUX]
STD = ["-Zbuild-std"]

VARIANTS = {
    "pub": {"crate": "public", "flags": "", "cmd": BUILD + ["--release"], "run": ["{target}/release/public"]},
    "pub-checked": {"crate": "public", "flags": "", "cmd": BUILD + ["--profile", "checked"], "run": ["{target}/checked/public"]},
    "int": {"crate": "internal", "flags": CFG, "cmd": BUILD + ["--release"], "run": ["{target}/release/internal"]},
    "int-checked": {"crate": "internal", "flags": CFG, "cmd": BUILD + ["--profile", "checked"], "run": ["{target}/checked/internal"]},
    "asan": {"crate": "internal", "flags": CFG + " --cfg verif_sanitizer -Zsanitizer=address", "cmd": NIGHTLY, "run": ["{target}/" + LINUX + "/release/internal"], "sanitizer": True},
    "msan": {"crate": "internal", "flags": CFG + " --cfg verif_sanitizer -Zsanitizer=memory -Zsanitizer-memory-track-origins", "cmd": NIGHTLY + STD, "run": ["{target}/" + LINUX + "/release/internal"], "sanitizer": True},
    "tsan": {"crate": "public", "flags": "--cfg verif_sanitizer -Zsanitizer=thread", "cmd": NIGHTLY + STD, "run": ["{target}/" + LINUX + "/release/public"], "sanitizer": True},
    "miri-int": {"crate": "internal", "flags": CFG, "cmd": ["cargo", "+nightly", "miri", "setup", "--quiet"],
                 "run": ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--"], "sanitizer": True},
    "miri-pub": {"crate": "public", "flags": "", "cmd": ["cargo", "+nightly", "miri", "setup", "--quiet"],
                 "run": ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--"], "sanitizer": True},
    "valgrind": {"crate": "internal", "flags": CFG, "cmd": BUILD + ["--release"],
                 "run": ["valgrind", "-q", "--error-exitcode=77", "--leak-check=no", "{target}/release/internal"], "sanitizer": True},
}


# Parts of the hooks in /repo/src/verif.rs that can be left out of a build.
PARTS = ["colors", "numbers", "search", "density", "means", "core", "tree", "linkage", "sets"]


def split(release, checked, ms, each=4, **kw):
    """Half of the workers run the release build, half the one with debug assertions and overflow
    checks; all have different cases."""
    n = 2 * each
    return [
        {"variant": release, "workers": range(0, each), "of": n, "ms": ms, **kw},
        {"variant": checked, "workers": range(each, n), "of": n, "ms": ms, **kw},
    ]


def public(ms, tms, **kw):
    return {"quick": [split("pub", "pub-checked", ms, **kw)], "thorough": [split("pub", "pub-checked", tms, **kw)]}


def internal(ms, tms, **kw):
    return {"quick": [split("int", "int-checked", ms, **kw)], "thorough": [split("int", "int-checked", tms, **kw)]}


def both(release, checked, **kw):
    """Both builds see every case of an exhaustive enumeration."""
    return [
        [{"variant": release, "workers": range(8), "of": 8, **kw}],
        [{"variant": checked, "workers": range(8), "of": 8, **kw}],
    ]


IMG = ("Images are drawn from the families listed under observed (images_*): flat blocks, thin strips, groups at the "
       "density threshold, jittered and graded colours, gamut edges, interleaved and touching regions, noise, degenerate sizes, "
       "any opacity. ")
PTS = ("Data sets are drawn from uniform, clustered, integer-grid (exact arithmetic, boundary distances), collinear, identical, "
       "few-distinct, image-like and chain families, with duplicates, sorted or shuffled, in 2, 3 and 5 dimensions and both precisions. ")
WTS = ("Symmetric weight matrices: distinct, integer with ties, negative and zero, all equal, of huge range, hidden paths, and point "
       "distances; both precisions. ")
NEAR = "cases in which rounding could decide a pair at the distance threshold are counted (undecided) and not judged"

PLAN = {
    "P01": {**public(9000, 150000, min=3),
            "rule": IMG + "Extraction must return in both precisions; every image with at least one pixel is non-trivial.",
            "assumptions": ["a case that uses 100 s of CPU time counts as not returning"]},
    "P02": {**public(11000, 180000, min=3), "require": ["swatches", "groups"],
            "rule": IMG + "The groups are recomputed independently and swatches are matched to them one to one by colour, position and count together; non-trivial: at least two groups.",
            "assumptions": [NEAR]},
    "P03": {**public(11000, 180000, min=3), "require": ["groups", "border_pixels"],
            "rule": IMG + "Number and sizes of the regions, and their positions or colours, must be those of an independent computation of the density definition; non-trivial: at least one group.",
            "assumptions": [NEAR]},
    "P04": {**public(11000, 180000, min=3), "require": ["noise_pixels", "swatches"],
            "rule": IMG + "Every percentage must be a whole number of pixels and their sum the number of non-noise pixels; changing opacity must change nothing; non-trivial: swatches and noise pixels both present.",
            "assumptions": [NEAR]},
    "P05": {**public(9000, 120000, min=3), "require": ["swatches"],
            "rule": IMG + "Percentages must ascend; non-trivial: at least three different percentages."},
    "P06": {**public(12000, 180000, min=2), "require": ["repeated_extractions_compared", "fresh_processes_compared"],
            "rule": "Histories of 14 extractions over a pool of images (same dimensions with other pixels, same bytes with other dimensions, few differing pixels), from fresh copies or one reused buffer, in both precisions, then fresh processes; one history of 70,000 calls (400,000 in the thorough tier); non-trivial: a later call of a history with at least two swatches."},
    "P07": {"quick": [[{"variant": "pub", "workers": range(0, 2), "of": 5, "ms": 9000, "min": 2, "case_cpu": 600},
                       {"variant": "pub-checked", "workers": range(2, 3), "of": 5, "ms": 9000, "min": 2, "case_cpu": 600},
                       {"variant": "tsan", "workers": range(3, 5), "of": 5, "ms": 15000, "min": 2, "scale": 0.4, "case_cpu": 1200}]],
            "thorough": [[{"variant": "pub", "workers": range(0, 2), "of": 5, "ms": 240000, "min": 2, "case_cpu": 600},
                          {"variant": "pub-checked", "workers": range(2, 3), "of": 5, "ms": 240000, "min": 2, "case_cpu": 600},
                          {"variant": "tsan", "workers": range(3, 5), "of": 5, "ms": 300000, "min": 2, "scale": 0.4, "case_cpu": 1200}]],
            "require": ["calls_started_while_another_ran", "concurrent_calls"],
            "rule": "Rounds of 4-6 threads, every fourth of 18-48 (10 under ThreadSanitizer), that extract shared and distinct images at once and compare with the results of the calls alone, natively and under ThreadSanitizer; non-trivial and distinct: rounds with overlapping calls, identified by the observed interleaving of call starts."},
    "P08": {**public(11000, 150000, min=3), "require": ["symmetries_compared"],
            "rule": IMG + "Positions must lie inside the image; mirrored, rotated and transposed images must give mirrored, rotated and transposed swatches; non-trivial: at least one swatch.",
            "assumptions": [NEAR]},
    "P09": {**public(11000, 150000, min=3),
            "rule": IMG + "f64 and f32 results are matched one to one; non-trivial: at least one swatch and groups that are certain in both precisions.",
            "assumptions": [NEAR]},
    "P10": {"quick": both("int", "int-checked", ms=1), "exhaustive": True, "require": ["colours"],
            "rule": "All 16,777,216 opaque colours in both precisions, by both builds; each colour is one distinct case."},
    "P11": {"quick": both("int", "int-checked", ms=4000), "thorough": both("int", "int-checked", ms=90000), "exhaustive": True,
            "require": ["colours", "in_linear_lab_branch", "in_linear_srgb_branch"],
            "rule": "All 16,777,216 colours and random continuous in-gamut colours (half of them dark) against reference formulas in double precision; every colour is non-trivial."},
    "P12": {**internal(5000, 60000), "require": ["channels_clipped"],
            "rule": "XYZ and Lab colours of extreme, infinite, boundary and random components; non-trivial: some component out of range."},
    "P13": {**internal(8000, 150000), "require": ["tree_knn", "linear_knn", "tree_single"],
            "rule": PTS + "Every answer of the tree and the linear search is compared with brute force; non-trivial: 0 < k < n."},
    "P14": {**internal(8000, 150000), "require": ["points_on_the_boundary", "points_returned"],
            "rule": PTS + "Every answer of the tree and the linear search is compared with brute force; non-trivial: some but not all points inside."},
    "P15": {**internal(8000, 150000), "require": ["clusters", "border_points", "outliers"],
            "rule": PTS + "Clusters, counts, centroids and outliers are compared with an independent computation of the DBSCAN definition; data of more than 65,536 clusters, and of one cluster of more than 65,536 points, are among them; non-trivial: at least two clusters.",
            "assumptions": [NEAR]},
    "P16": {**internal(8000, 150000), "require": ["iterations_followed"],
            "rule": PTS + "k-means is run with every iteration limit from 0 to 14 (40 in the thorough tier) and each state must follow from the one before by one Lloyd iteration; non-trivial: 1 < k < n."},
    "P17": {**internal(8000, 150000), "require": ["iterations_followed", "early_stops_judged", "continuations_judged"],
            "rule": PTS + "k-means is run with every iteration limit and the iteration at which it stops is judged by how far the centroids had moved; data on which k-means takes about 200 iterations are followed by a ladder of limits, and limits up to the largest number must change nothing once it has stopped; non-trivial: k > 1."},
    "P18": {**internal(7000, 120000), "require": ["plus_plus", "random"],
            "rule": PTS + "Seeds must be distinct elements and, for k-means++, each as far as any unused element; non-trivial: 2 <= k < n."},
    "P19": {**internal(7000, 120000), "require": ["core_distances"],
            "rule": PTS + "Every core distance is compared with brute force; non-trivial: m < n."},
    "P20": {**internal(6000, 120000), "require": ["edges"],
            "rule": WTS + "The edges must form a spanning tree whose sorted weights are those of Kruskal's algorithm; non-trivial: at least three vertices."},
    "P21": {**internal(6000, 120000), "require": ["merges"],
            "rule": WTS + "Merges are replayed on explicit member sets; non-trivial: at least three points."},
    "P22": {**internal(7000, 120000), "require": ["partitions", "nestings"],
            "rule": WTS + "Cuts at every k (up to 40 points; samples beyond) are judged against the tree weights of Kruskal's algorithm and against each other; non-trivial: at least three points."},
    "P23": {**public(6000, 60000),
            "rule": "All pairs and triples of a grid of special values and of random swatches with many equal fields; each random batch is one case."},
    "P24": {"quick": [[{"variant": "asan", "workers": range(0, 2), "of": 4, "ms": 11000, "tag": "img", "extra": ["images"], "scale": 0.6, "min": 3},
                       {"variant": "asan", "workers": range(2, 4), "of": 4, "ms": 11000, "tag": "blocks", "min": 3},
                       {"variant": "msan", "workers": range(0, 1), "of": 1, "ms": 11000, "tag": "img", "extra": ["images"], "scale": 0.5, "min": 3},
                       {"variant": "msan", "workers": range(1, 2), "of": 2, "ms": 11000, "tag": "blocks", "scale": 0.5, "min": 3},
                       {"variant": "miri-int", "workers": range(0, 2), "of": 4, "ms": 30000, "tag": "blocks", "extra": ["miri"], "min": 1, "case_wall": 600, "case_cpu": 600},
                       {"variant": "int-checked", "workers": range(0, 1), "of": 4, "ms": 11000, "tag": "img", "extra": ["images"], "min": 3},
                       {"variant": "int-checked", "workers": range(3, 4), "of": 4, "ms": 11000, "tag": "blocks", "min": 3}]],
            "require": ["pixels", "calls_kdtree"],
            "rule": "Images of all families and every building block with hostile parameters (huge k, non-finite data), under AddressSanitizer, MemorySanitizer, Miri (building blocks over small data) and debug assertions (thorough: also valgrind); the sanitizer is the oracle; every non-empty input is non-trivial.",
            "assumptions": ["a clean panic is memory safe and judged by the other properties"]},
    "P25": {**internal(5000, 60000), "require": ["divisions_by_zero"],
            "rule": "Random points of widely varying magnitude with special values, in 2, 3 and 5 dimensions and both precisions; non-trivial: two different points."},
    "P26": {**internal(8000, 120000), "require": ["repeats_compared", "returns_to_the_same_heap", "calls_on_other_threads_compared"],
            "rule": PTS + "Nine building blocks over four related data sets (one with few points moved, one with other parameters) are run, run again in random order, and run on other threads at once; results must be identical bit for bit and the heap must be as before; one history of 66,000 rounds over small data; non-trivial: more than one point."},
    "P27": {**internal(5000, 60000), "require": ["finds", "unions"],
            "rule": "Random histories of unions of current roots (chains, balanced, random, unfinished) interleaved with look-ups, over 1 to 1500 elements, each operation compared with explicit sets; distinct: different histories; non-trivial: more than two elements."},
    "P29": {**public(9000, 120000, min=3), "require": ["extractions_measured", "allocations_counted"],
            "rule": IMG + "Every image is extracted several times among others of the same dimensions while a counting allocator watches; after each call the heap must be what it was, and at no time more than 1 MiB plus 768 bytes per pixel (140 are used); non-trivial: at least one swatch.",
            "assumptions": ["memory obtained other than through the global allocator is not counted"]},
    "P30": {**public(8000, 100000, min=3), "require": ["extractions_watched", "probes_noticed"],
            "rule": IMG + "Extraction runs on a thread whose system calls pass a seccomp filter that stops and records all but memory, thread and lock calls, with getenv and clock_gettime interposed; probes first confirm that each kind of effect is noticed; non-trivial: at least one swatch.",
            "assumptions": ["a process started without waiting for it, and the environment read as a whole, would not be noticed"]},
    "P31": {**internal(8000, 100000, min=3), "require": ["searches_counted"],
            "rule": "1500 to 4500 points in 2 and 3 dimensions (uniform, grid, clustered, on a curve; sorted, reversed, shuffled) of a type that counts how often a point is taken into hand (by whatever operators and however often its coordinates are then read), and weight functions that count their calls; every case is non-trivial.",
            "assumptions": ["work that touches neither points nor weights is not counted"]},
    "P32": {**public(8000, 120000, min=3), "require": ["swatches", "exact_colours"],
            "rule": "Images painted in up to 40 colours that lie farther apart than the radius (runs, turns, mixed pixel by pixel, rectangles, specks): every swatch must have exactly one of these colours (f32: within two levels), lie within the columns and rows of its pixels, and the swatches of a colour must not count more pixels than have it; non-trivial: at least one swatch."},
    "P33": {**internal(4000, 30000), "require": ["texts_of_rgba", "texts_of_lab", "texts_of_xyz", "texts_of_point5"],
            "rule": "Texts of random colours and points of all magnitudes are read back and compared bit for bit; distinct: different components; every case is non-trivial."},
    "P28": {**internal(4000, 30000), "require": ["clamps_inside", "clamps_outside", "inverted_ranges", "float_conversions"],
            "rule": "Random and extreme integers converted into u8 to u128, f32 and f64 and clamped between random, equal and extreme bounds; each value and type is one case."},
}

_q = PLAN["P24"]["quick"][0]
PLAN["P24"]["thorough"] = [
    [{**g, "ms": 150000} for g in _q],
    [{"variant": "miri-int", "workers": range(0, 4), "of": 4, "ms": 240000, "tag": "blocks", "extra": ["miri"], "min": 1, "case_wall": 1800, "case_cpu": 1800},
     {"variant": "miri-pub", "workers": range(0, 2), "of": 2, "ms": 240000, "tag": "img", "extra": ["miri"], "min": 1, "case_wall": 1800, "case_cpu": 1800},
     {"variant": "valgrind", "workers": range(0, 1), "of": 1, "ms": 240000, "tag": "img", "extra": ["images"], "scale": 0.4, "min": 1, "case_wall": 1800, "case_cpu": 1800},
     {"variant": "valgrind", "workers": range(1, 2), "of": 2, "ms": 240000, "tag": "blocks", "scale": 0.4, "min": 1, "case_wall": 1800, "case_cpu": 1800}],
]

for _p, _parts in {
    "P10": ["colors"], "P11": ["colors"], "P12": ["colors"], "P13": ["search"], "P14": ["search"], "P15": ["density"],
    "P16": ["means"], "P17": ["means"], "P18": ["means"], "P19": ["core"], "P20": ["tree"], "P21": ["linkage"],
    "P22": ["linkage"], "P25": [], "P27": ["sets"], "P28": ["numbers"], "P33": ["colors"],
}.items():
    PLAN[_p]["parts"] = _parts
