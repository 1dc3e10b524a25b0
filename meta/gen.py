#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py and the harnesses that exist"""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "meta"))
from props import P, NA
def bound(f): return [l[10:].strip() for l in open(f) if l.startswith("// BOUND:")]
with open(V + "/properties.jsonl", "w") as o:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        for f in q["anchors"]["files"]:
            assert os.path.exists("/repo/" + f), (q["id"], f)
        o.write(json.dumps(q) + "\n")
checks, na = [], []
for q in P:
    i = q["id"]
    fs = sorted(glob.glob(V + "/harness/" + i + "_*.cpp"))
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
        continue
    if not fs:
        na.append(dict(property=i, reason="no check registered yet"))
        continue
    t = "".join(open(f).read() for f in fs)
    tech = []
    if "VF_R(" in t: tech.append("exact-real terms with solver-checked rounding-error bounds")
    if "VF_B(" in t: tech.append("bit-precise floating point")
    checks.append(dict(property=i, quick_cmd="python3-vt engine/run.py " + i,
                       thorough_cmd="VERIF_TIER=thorough python3-vt engine/run.py " + i,
                       evidence_file="evidence/%s.json" % i,
                       technique="symbolic execution of the LLVM IR of the real sources + z3 (" + ", ".join(tech) + ")",
                       level="model_checking",
                       level_note="bounded: " + "; ".join(b for f in fs for b in bound(f))))
m = dict(version=1, setup_cmd="python3-vt engine/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
