#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the SEEDS marks)
from seeded/*/meta.json and tools/caught.txt (id, property, how it was seen)."""
import glob, json, os, re
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
how = {}
p = os.path.join(here, "tools", "caught.txt")
if os.path.exists(p):
    for l in open(p):
        i, rest = l.rstrip("\n").split(" ", 1)
        how[i] = rest
rows = []
for f in glob.glob(os.path.join(here, "seeded", "*", "meta.json")):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append((m["property"], i, m["needs"], how.get(i, "not tried")))
rows.sort()
t = "| property | planted bug | needs | seen by the quick check as |\n|---|---|---|---|\n"
t += "".join("| %s | %s | %s | %s |\n" % r for r in rows)
d = os.path.join(here, "DESIGN.md")
s = open(d).read()
s = re.sub(r"(<!-- SEEDS -->\n).*?(<!-- /SEEDS -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(d, "w").write(s)
