#!/usr/bin/env python3
"""Rewrites the last section of DESIGN.md from seeded/*/meta.json and caught.json."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
caught = json.load(open(f"{here}/caught.json"))
s = open(f"{here}/DESIGN.md").read()
i = s.find("\n## Planted bugs")
s = (s[:i] if i >= 0 else s).rstrip() + "\n"
s += """
## Planted bugs

Each was written from a property and the code, compiles, passes the existing tests, and has a demonstration.
"Caught by" is the quick check that reports it (`-` if none does). This table is written by `gen_seeded_table.py`.

| id | property | what it breaks | caught by |
|---|---|---|---|
"""
for m in sorted(glob.glob(f"{here}/seeded/*/meta.json")):
    d = json.load(open(m)); n = m.split("/")[-2]
    s += f"| {n} | {d['property']} | {d['what_it_breaks']} | {caught.get(n, '-')} |\n"
open(f"{here}/DESIGN.md", "w").write(s)
