#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = set(open(os.path.join(V, "tools", "first_missed.txt")).read().split())
STILL = set(x for x in open(os.path.join(V, "tools", "still_missed.txt")).read().split())
s = open(os.path.join(V, "DESIGN.md")).read()
mark = "## Planted bugs\n"
s = s.split(mark)[0] + mark + """
Every one compiles, passes the existing tests and has a demonstration. The
check of the property named catches it, unless marked "missed". Those marked *
were missed when first run; the check was strengthened (denser ladders, pairs,
more alphabets, smooth statistics) until it caught them and others of the kind.

| Check | Bug | Needs |
|---|---|---|
"""
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    s += "| %s | %s%s | %s |\n" % (m["property"] if i not in STILL else m["property"] + " missed", i, " *" if i in FIRST_MISSED else "", m["needs"].replace("|", "/"))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
