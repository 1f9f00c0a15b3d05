#!/usr/bin/env python3
"""Rewrites the table of seeded changes in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MISSED = {"quit_before_wait": "P07 gained quitting before the start with nothing queued",
          "chunk_empty_left": "P25 gained ReserveChunk and a check of the front chunk",
          "functors_forever": "P07 gained the scenario quit_requeue"}
try: MISSED.update(json.load(open(os.path.join(V, "tools", "missed.json"))))
except OSError: pass
rows = []
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    rows.append((d["property"], i, d["what_it_breaks"], d["needs"], MISSED.get(i, "")))
rows.sort()
t = "| change | property and check | what it breaks | needs | missed at first |\n|--|--|--|--|--|\n"
t += "".join("| %s | %s | %s | %s | %s |\n" % (i, p, w, n, x) for p, i, w, n, x in rows)
f = os.path.join(V, "DESIGN.md"); s = open(f).read()
head = "## Seeded changes"
s = s.split(head)[0].rstrip("\n") + "\n\n" + head + "\n\nEvery change below is caught by the quick check of its property (`tools/seedtable.py` writes this table).\n\n" + t
open(f, "w").write(s)
