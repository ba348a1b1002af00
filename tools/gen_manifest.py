#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
ROOT = os.path.join(os.path.dirname(__file__), "..")
REF = "independent reference computation"
T = {
 "P01": ("panic, abort and time-out monitor over generated images, release and overflow-checked builds", "Every call observed must return. Sampled images; 100 s of CPU time counts as not returning."),
 "P02": ("offline oracle: swatches matched one to one with independently recomputed regions", "Every swatch of every observed extraction is judged in all three attributes together. Images in which rounding could decide a pair at the threshold are not judged; colour tolerance 0.6 of a level (f64)."),
 "P03": ("offline oracle: independent computation of the density definition", "Exact region counts and sizes for every judged image; border pixels of two regions may fall to either. Images in which rounding could decide are not judged."),
 "P04": ("conservation monitor: pixels accounted for against independently counted noise; opacity metamorphosis", "Exact pixel accounting for every judged image."),
 "P05": ("output-order monitor over images with many and equal shares", "Every observed result is checked completely."),
 "P06": ("history monitor: bitwise comparison across repeats, interleaved histories, buffers and fresh processes", "Histories of 14 calls over confusable images; hash seeds vary by process. Histories are sampled."),
 "P07": ("ThreadSanitizer and comparison of concurrent results with results alone; Send/Sync decided at compile time", "Observed interleavings only (each is identified and counted); data races are reported by happens-before, also when they do no harm in the run."),
 "P08": ("bounds monitor and metamorphic monitor over mirrored, rotated and transposed images", "Bounds for every image; symmetries where the groups are certain and share no border pixel."),
 "P09": ("differential monitor between precisions", "Every judged image compared swatch by swatch with the tolerances of the statement."),
 "P10": ("monitor of all 2^24 colours in both precisions and both builds", "Exhaustive: the whole input space is executed."),
 "P11": ("monitor of all 2^24 colours and random continuous colours against the standard formulas", "8-bit colours exhaustively, continuous ones sampled; reference in double precision."),
 "P12": ("range and saturation monitor over extreme, infinite and boundary components", "Sampled components with every combination of special values."),
 "P13": ("online checker of every answer against brute force", "Sampled data sets of up to 600 points in 2, 3 and 5 dimensions, both metrics and precisions; tolerance of a few rounding errors."),
 "P14": ("online checker of every answer against brute force", "As P13; on integer grids the arithmetic is exact and the boundary is judged exactly."),
 "P15": ("offline oracle: independent computation of the DBSCAN definition", "Sampled data sets of up to 400 points; cases where rounding could decide a pair are counted and not judged."),
 "P16": ("trace checker: states after 0, 1, 2, ... iterations must be linked by one Lloyd step", "Sampled data sets; ambiguous points (equally near centroids) may go to either cluster."),
 "P17": ("trace checker: stop only after an iteration in which all centroids moved less than the tolerance", "Sampled data sets and tolerances; movements within rounding of the tolerance are not judged."),
 "P18": ("monitor of every initialisation against distinctness and farthest-point rules", "Sampled data sets, counts and seeds; ties may be resolved either way."),
 "P19": ("online checker of every core distance against brute force", "Sampled data sets of up to 600 points."),
 "P20": ("result checker: spanning tree with the sorted weights of Kruskal's algorithm", "Sampled weight functions; minimality by comparison of sorted weights, which all minimum spanning trees share."),
 "P21": ("trace checker: merges replayed on explicit member sets", "Sampled weight functions; every merge is checked against the minimum weight between the members."),
 "P22": ("result checker: every cut judged against Kruskal's tree and against its neighbours", "Sampled weight functions; all k up to 40 points, samples beyond."),
 "P23": ("monitor of the comparison operators over all pairs and triples of grids and random swatches", "Complete over the grid of special values, sampled beyond."),
 "P24": ("AddressSanitizer, MemorySanitizer, Miri, debug assertions; thorough: also valgrind", "The sanitizers observe the executions of the workload; the caller's pixels are compared before and after."),
 "P25": ("monitor of metrics and operators against their definitions", "Sampled points with special values; tolerance of a few rounding errors."),
 "P26": ("history and thread monitor: bitwise comparison of every building block across repeats, histories and threads", "Sampled histories over related data sets; concurrent runs observe the interleavings that occur."),
 "P27": ("trace checker: every operation of a history compared with explicit sets", "Sampled histories over up to 1500 elements; every operation is judged exactly."),
 "P28": ("monitor of conversions and clamps against exact integer arithmetic", "Sampled and extreme values of all seven number types."),
 "P29": ("counting allocator: live bytes after and peak bytes during every extraction", "Exact accounting of every allocation through the global allocator; sampled images and histories."),
 "P30": ("seccomp filter and interposed C functions observe every effect; result compared with an unconfined run", "Every system call outside a short list of memory, thread and lock calls is noticed (probes confirm it in each run); sampled images."),
 "P32": ("monitor of images in colours that cannot link: exact colours, places and pixel counts", "Exact in double precision, two levels in single; sampled images."),
 "P33": ("monitor that reads every text back", "Sampled values of all magnitudes, bit for bit."),
 "P31": ("operation counters in an instrumented point type and weight function against stated bounds", "Counts are exact; sampled data sets; bounds lie 2 to 5 times above what is observed."),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "python3 bin/check.py --build pub int",
 "hooks": {"guard": "cfg(auto_palette_verif)", "enable": "RUSTFLAGS='--cfg auto_palette_verif' cargo build (bin/plan.py, variants int, int-checked, asan, msan, miri-int, valgrind)", "source_commits": ["390326a", "51c19be", "7b39366", "e7e277b"]},
 "checks": [{"property": p["id"], "quick_cmd": f"python3 bin/check.py {p['id']} quick", "thorough_cmd": f"python3 bin/check.py {p['id']} thorough",
             "technique": T[p["id"]][0], "level": "exploration", "level_note": T[p["id"]][1]} for p in props],
 "not_applicable": [],
 "notes": "See DESIGN.md. A check that cannot build or observes nothing exits 2 (inconclusive), never 0.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
