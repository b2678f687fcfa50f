#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md and the table of planted bugs (tools/caught.json)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
out = open(here + '/design_head.md').read()
caught = {}
p = here + '/caught.json'
if os.path.exists(p):
    caught = json.load(open(p))
out += """
## Planted bugs

Written with `tools/plant.py` from the specifications in `tools/bugs/` (each built, run against the stable
tests and demonstrated in a scratch copy before it was kept). `tools/plant.py --catch` runs the quick check of
the property on each. The last column is what the quick check of the bug's own property said.

| bug | property | needs | result |
|---|---|---|---|
"""
for b in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{b}/meta.json'))
    out += f"| {b} | {m['property']} | {m['needs']} | {caught.get(b, 'not run')} |\n"
open(root + '/DESIGN.md', 'w').write(out)
