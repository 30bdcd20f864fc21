#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design.in.md with the table of planted bugs filled in from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m.get('caught_by', m['property'])} | {m['needs']} |")
open(V + "/DESIGN.md", "w").write(open(V + "/tools/design.in.md").read().replace("@SEEDED@", "\n".join(rows)))
