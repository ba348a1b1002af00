"""Fills the list of planted bugs in DESIGN.md from seeded/ and build/catches.json."""
import collections, json, os, re
ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
f = os.path.join(ROOT, "build", "catches.json")
caught = json.load(open(f)) if os.path.exists(f) else {}
rows, missed = collections.defaultdict(list), []
for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    p = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))["property"]
    rows[p].append(i.split("-", 1)[1])
    if caught.get(i, {}).get(p) != "caught":
        missed.append(i)
text = f"{sum(map(len, rows.values()))} bugs, by the property whose check reports them:\n\n| | |\n|---|---|\n"
text += "".join(f"| {p} | {', '.join(v)} |\n" for p, v in sorted(rows.items()))
d = os.path.join(ROOT, "DESIGN.md")
s = open(d).read()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda m: m.group(1) + text + m.group(2), s, flags=re.S)
open(d, "w").write(s)
print("not known to be caught:", missed)
