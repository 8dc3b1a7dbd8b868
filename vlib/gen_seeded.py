#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"C08-last-attribute": "several aligned attributes in cgen", "C12-low-form": "reference identifiers strict below 31", "C15-choose-f32": "writers must agree",
          "C26-new-decl-dirty": "histories that begin with a read database", "C05-progress-name": "changed parts of enclosing scopes", "C01-count-wide": "databases of more than 65536 declarations",
          "C27-include-order": "headers of the same name in a later directory", "C30-after": "project headers named like headers of the C library, angle brackets", "C28-lstrip": "names of any first letter", "C29-static-context": "marks of internal functions and variables"}
MISSED.update(json.load(open(os.path.join(V, "vlib", "missed.json"))) if os.path.exists(os.path.join(V, "vlib", "missed.json")) else {})
d = open(os.path.join(V, "DESIGN.md")).read()
i = d.index("| id | property | needs |")
rows = ["| id | property | needs |", "|---|---|---|"]
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    rows.append("| %s | %s | %s%s |" % (s, m["property"], " ".join(m["needs"].split()).replace("|", "/"), " (first missed: %s)" % MISSED[s] if s in MISSED else ""))
open(os.path.join(V, "DESIGN.md"), "w").write(d[:i] + "\n".join(rows) + "\n")
