#!/usr/bin/env python3
"""Writes /verif/gates.json from the evidence of quick runs: a twentieth of the evaluations seen."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
for f in sorted(glob.glob(f"{V}/evidence/*.json")):
    e = json.load(open(f))
    assert e["tier"] == "quick" and not e["violations"], f
    n = e["coverage"]["evaluations"] // 20
    g[e["property"]] = {"evaluations": int(float(f"{n:.1e}"))}
json.dump(g, open(f"{V}/gates.json", "w"), indent=1)
open(f"{V}/gates.json", "a").write("\n")
