#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(os.path.join(root, "tools", "missed.json")))
rows = []
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    id = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (id, d["property"], d["what_it_breaks"].replace("|", "/"), missed.get(id, "at once")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "| Planted bug | Caught by | What it breaks | When |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + s[j:]
open(p, "w").write(s)
