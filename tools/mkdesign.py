#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob
s = "\n| planted bug | needs | breaks | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d = json.load(open(f)); s += "| %s | %s | %s | %s |\n" % (f.split("/")[-2], d["needs"], d["what_it_breaks"], d.get("caught_by", d["property"]))
p = "/verif/DESIGN.md"; t = open(p).read(); a = t.index("<!-- seeds -->") + 14; b = t.index("<!-- /seeds -->")
open(p, "w").write(t[:a] + s + t[b:])
