#!/usr/bin/env python3
"""Applies each planted bug to /repo in turn, runs its property's quick check, and undoes it.
   catch.py [prefix...]; results are appended to build/catches.json"""
import json, os, subprocess, sys, time
ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
ids = sorted(os.listdir(os.path.join(ROOT, "seeded")))
sel = [i for i in ids if not sys.argv[1:] or any(i.startswith(a) for a in sys.argv[1:])]
f = os.path.join(ROOT, "build", "catches.json")
res = json.load(open(f)) if os.path.exists(f) else {}
for i in sel:
    d = os.path.join(ROOT, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    props = os.environ.get("PROPS", prop).split(",")
    if subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")]).returncode:
        print(i, "does not apply"); continue
    try:
        for p in props:
            t = time.time()
            r = subprocess.run([sys.executable, os.path.join(ROOT, "bin", "check.py"), p, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=ROOT)
            caught = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
            res.setdefault(i, {})[p] = "caught" if caught else f"missed (rc {r.returncode})"
            print(f"{i} {p}: {res[i][p]} in {time.time()-t:.0f} s | {r.stdout.strip()[:260]}", flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    json.dump(res, open(f, "w"), indent=1)
