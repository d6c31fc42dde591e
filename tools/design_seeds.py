#!/usr/bin/env python3
"""Writes the list of planted bugs in DESIGN.md, between the two marker lines."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {d['property']} | {d['needs']} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
