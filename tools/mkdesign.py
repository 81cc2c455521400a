#!/usr/bin/env python3
"""The table of planted bugs in DESIGN.md"""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = dict(json.load(open(os.path.join(HERE, "tools", "missed.json"))))
rows = []
for p in glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")):
    m = json.load(open(p))
    i = os.path.basename(os.path.dirname(p))
    rows.append((m["property"], i, m["what_it_breaks"], m["needs"], FIRST.get(i, "yes")))
t = "| property | change | what it breaks | needs | caught |\n|---|---|---|---|---|\n" + "".join("| %s |\n" % " | ".join(r) for r in sorted(rows))
p = os.path.join(HERE, "DESIGN.md")
d = open(p).read()
d = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: "<!-- seeds -->\n" + t + "<!-- /seeds -->", d, flags=re.S)
open(p, "w").write(d)
