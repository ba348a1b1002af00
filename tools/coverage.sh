#!/bin/bash
# Which lines of the crate do the workloads of the checks reach?  coverage.sh [ms per property]
# Builds both harnesses with coverage counters, runs one worker per property and writes the share of
# lines reached per file and the lines never run to build/coverage.txt.
here=$(cd "$(dirname "$0")/.." && pwd)
ms=${1:-4000}
work=$(mktemp -d) || exit 2
trap '/bin/rm -rf "$work"' EXIT
bin=$(rustc +nightly --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
export CARGO_NET_OFFLINE=true LLVM_PROFILE_FILE=$work/build.profraw
ids=$(python3 -c "import json; print(*[json.loads(l)['id'] for l in open('$here/properties.jsonl')])")
for crate in public internal; do
  flags="-C instrument-coverage"
  [ $crate = internal ] && flags="$flags --cfg auto_palette_verif"
  (cd "$here/harness/$crate" && CARGO_TARGET_DIR=$work/$crate RUSTFLAGS=$flags cargo +nightly build --offline --quiet --release) 2> "$work/log" || { cat "$work/log"; exit 2; }
  mkdir "$work/raw-$crate"
  for id in $ids; do
    (cd "$work" && LLVM_PROFILE_FILE=$work/raw-$crate/$id-%p.profraw timeout 300 "$work/$crate/release/$crate" "$id" \
      --seed 1 --worker 0/1 --tier quick --ms "$ms" --min 1 --out "$work/o.json" > /dev/null 2>&1)
  done
  "$bin/llvm-profdata" merge -sparse "$work/raw-$crate"/*.profraw -o "$work/$crate.profdata"
  "$bin/llvm-cov" export -format=lcov "$work/$crate/release/$crate" -instr-profile="$work/$crate.profdata" \
    -ignore-filename-regex='harness|registry|rustlib|verif.rs' > "$work/$crate.lcov" 2> /dev/null
done
python3 - "$work" <<'P' | tee "$here/build/coverage.txt"
import collections, sys
hits = collections.defaultdict(dict)
for crate in ("public", "internal"):
    for line in open(f"{sys.argv[1]}/{crate}.lcov"):
        if line.startswith("SF:"):
            f = line[3:].strip()
        elif line.startswith("DA:"):
            n, c = line[3:].split(",")[:2]
            hits[f][int(n)] = max(hits[f].get(int(n), 0), int(c))
total = sum(len(h) for h in hits.values()); reached = sum(c > 0 for h in hits.values() for c in h.values())
print(f"{reached} of {total} lines reached")
for f, h in sorted(hits.items()):
    text = open(f).read().splitlines()
    miss = [n for n, c in sorted(h.items()) if c == 0]
    print(f"{f.split('/src/')[-1]}: {len(h) - len(miss)}/{len(h)}")
    for n in miss:
        print(f"  {n:4} {text[n-1]}")
P
