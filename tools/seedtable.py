#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (documentation only; no check reads seeded/)."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    one = lambda t: " ".join(str(t).split()).replace("|", "/")
    rows.append("| %s: %s | %s | %s | %s |" % (d, one(m["what_it_breaks"]), m["property"], one(m["needs"]), m.get("caught_by", "C" + m["property"][1:])))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
