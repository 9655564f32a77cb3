#!/usr/bin/env python3
"""Fills DESIGN.md's table of planted changes from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | check that reports it | what it breaks | what it needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f)); c = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m.get("caught_by", m["property"]), c(m["what_it_breaks"]), c(m["needs"])))
p = V + "/DESIGN.md"; t = open(p).read(); a, b = "<!-- catch table -->", "<!-- end of catch table -->"
i, j = t.index(a) + len(a), t.index(b); open(p, "w").write(t[:i] + "\n" + "\n".join(rows) + "\n" + t[j:]); print(len(rows) - 2, "changes")
