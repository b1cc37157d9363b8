#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
mark = "| planted bug | property | needs |\n|---|---|---|\n"
s = s[:s.index(mark)] + mark
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    s += "| %s | %s | %s |\n" % (os.path.basename(d), m["property"], m["needs"].replace("|", "/"))
open(p, "w").write(s)
