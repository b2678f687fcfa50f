#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties; CLAIMED lists those with a check."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
G = "explicit-state model checking: every grammar up to a size over an alphabet of combinators, on every input up to a length, explored in a reference model whose every trace is replayed on the library and compared in full"
H = "explicit-state model checking: every operation history up to a depth, explored in a reference model and replayed on the real objects, all observers compared after each step"
X = "explicit-state model checking: every script of a bounded syntax, compiled by the library, run on every input up to a length and compared with the reference model of what the script denotes"
N = "Exhaustive within the bounds listed in the evidence (spaces) and DESIGN.md; beyond them small-scope assumption. Trusts the reference model as the statement of the property, rustc and the regex crate's documented semantics (cross-checked by an own matcher)."
TECH = {i: G for i in ids}
exec(open(os.path.join(here, "tools", "claimed.py")).read())
checks = []
for i in ids:
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "technique": TECH[i], "level": "model_checking", "level_note": N})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks,
     "not_applicable": [{"property": i, "reason": "no check yet"} for i in ids if i not in CLAIMED]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
