#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md (between its two markers)."""
import glob, json, os, re
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| planted bug | property (and check) | needs, to manifest |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], m["property"], m["needs"].replace("|", "/")))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->", s, flags=re.S)
open(p, "w").write(s)
