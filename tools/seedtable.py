#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md. Not part of any check."""
import glob, json, os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(root + "/seeded/*/meta.json"):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["what_it_breaks"]))
out = "| check | bug | effect |\n|---|---|---|\n" + "".join("| %s | `%s` | %s |\n" % r for r in sorted(rows))
s = open(root + "/DESIGN.md").read()
i = s.index("Each is reported by the check of its property:\n") + len("Each is reported by the check of its property:\n")
open(root + "/DESIGN.md", "w").write(s[:i] + "\n" + out)
