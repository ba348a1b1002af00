#!/usr/bin/env python3
"""Takes each repair listed in known-findings.txt out of /repo's working tree and runs the checks named there:
   they must report the defect again. Restores the tree. Results are appended to build/reverts.json"""
import json, os, re, subprocess, sys
ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
fixed = {}
for line in open(os.path.join(ROOT, "known-findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\w+) ", line)
    if m and (not sys.argv[1:] or m.group(2) in sys.argv[1:]):
        fixed.setdefault(m.group(2), []).append(m.group(1))
out = os.path.join(ROOT, "build", "reverts.json")
res = json.load(open(out)) if os.path.exists(out) else {}
for commit, props in fixed.items():
    diff = subprocess.run(["git", "-C", "/repo", "show", "--format=", commit, "--", "src"], stdout=subprocess.PIPE).stdout
    try:
        if subprocess.run(["git", "-C", "/repo", "apply", "-R", "--3way"], input=diff).returncode:
            print(commit, "cannot be taken out alone")
            res[commit] = "cannot be taken out alone"
            continue
        for p in props:
            r = subprocess.run([sys.executable, "bin/check.py", p, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=ROOT)
            caught = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
            res.setdefault(commit, {})[p] = "reported" if caught else f"not reported (rc {r.returncode})"
            print(commit, p, res[commit][p], "|", r.stdout.strip()[:200], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "reset", "-q", "--hard", "HEAD"])
    json.dump(res, open(out, "w"), indent=1)
