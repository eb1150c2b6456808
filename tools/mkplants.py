#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json and tools/plants/results.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(R + "/tools/plants/results.json"))
rows = []
n = [0, 0]
for i in sorted(os.listdir(R + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, i)))
    r = res.get(i)
    n[0] += 1
    n[1] += bool(r and r["caught"])
    got = "not tried" if not r else "%s: `%s`" % (m["property"], r["class"]) if r["caught"] else "**missed**"
    rows.append("| %s | %s | %s | %s |" % (i, m["needs"], m["what_it_breaks"], got))
t = "%d planted bugs, %d caught by the quick check of their property (seed 1):\n\n| bug | needs | breaks | caught by |\n|---|---|---|---|\n%s\n" % (n[0], n[1], "\n".join(rows))
d = open(R + "/DESIGN.md").read()
a, b = d.index("<!-- plants -->") + len("<!-- plants -->"), d.index("<!-- /plants -->")
open(R + "/DESIGN.md", "w").write(d[:a] + "\n" + t + d[b:])
