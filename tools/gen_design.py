#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = os.path.join(H, "DESIGN.md"); t = open(p).read()
rows = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    m = json.load(open(f)); c = lambda s: s.replace("|", "/").replace("\n", " ")
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']}: {c(m['what_it_breaks'])} | {c(m['needs'])} | {m.get('caught_by', m['property'])} |")
s = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
t = t.replace("@@TABLE@@", s) if "@@TABLE@@" in t else re.sub(r"<!-- planted -->.*?<!-- /planted -->", lambda _: s, t, flags=re.S)
open(p, "w").write(t)
