#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["what_it_breaks"], d["needs"]))
rows.sort()
esc = lambda s: s.replace("|", "\\|").replace("\n", " ")
t = "| property (and check) | planted bug | what it breaks | needs |\n|---|---|---|---|\n" + "".join("| %s |\n" % " | ".join(map(esc, r)) for r in rows)
p = V + "/DESIGN.md"
s = open(p).read()
b = "<!-- bugs -->\n"
if "BUGTABLE" in s:
    s = s.replace("BUGTABLE", b + b)
i, j = s.index(b) + len(b), s.rindex(b)
open(p, "w").write(s[:i] + t + s[j:])
print(len(rows))
