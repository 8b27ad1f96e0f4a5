#!/usr/bin/env python3
"""Rewrites the table under "## Planted bugs" in DESIGN.md from /verif/seeded (not used by any check)."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append((m["property"], d, m["needs"].replace("|", "\\|"), m.get("caught_by", m["property"])))
rows.sort()
text = open(os.path.join(root, "DESIGN.md")).read()
head = text.split("## Planted bugs")[0]
head += "## Planted bugs\n\nEach is caught (exit 1 and its VIOLATION line) by the quick check named, which is the one of the property it was written against.\n\n"
head += "| bug (`seeded/`) | caught by | what it needs |\n|---|---|---|\n"
head += "".join(f"| {d} | {c} | {n} |\n" for p, d, n, c in rows)
open(os.path.join(root, "DESIGN.md"), "w").write(head)
