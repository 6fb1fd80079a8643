#!/usr/bin/env python3
"""seedtable.py RESULTS: appends the table of planted bugs to DESIGN.md (RESULTS: output of try_seeds.sh)."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = "## 7. Planted bugs and the checks that catch them\n"
res = {}
for line in open(sys.argv[1]):
    m = re.match(r"(\S+): (caught|MISSED) \((\w+)", line)
    if m:
        res[m[1]] = m[2]
rows = []
for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    meta = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
    rows.append(f"| {s} | {meta['needs']} | {meta['what_it_breaks']} | {meta['property']}: {res.get(s, 'not run')} |")
p = os.path.join(HERE, "DESIGN.md")
t = open(p).read().split(HEAD)[0]
open(p, "w").write(t + HEAD + "\nEach is created by `tools/seeds_*.py` (textual edit and demonstration) and tried with `tools/try_seeds.sh` (quick tier).\n\n"
                   "| bug | needs | breaks | check |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
