#!/usr/bin/env python3
"""fills the generated sections of DESIGN.md (between markers) from MANIFEST.json and seeded/"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read()
m = json.load(open(V + "/MANIFEST.json"))
t = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(V + "/properties.jsonl")}
na = "\n".join("* **%s** %s. %s" % (x["property"], t[x["property"]], x["reason"]) for x in m["not_applicable"])
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(V + "/tools/caught.json"))
for s in sorted(os.listdir(V + "/seeded")):
    j = json.load(open(V + "/seeded/%s/meta.json" % s))
    rows.append("| %s | %s | %s | %s |" % (s, j["property"], j["needs"], caught.get(s, "?")))
for name, text in (("NA", na), ("SEEDS", "\n".join(rows))):
    b, e = "<!-- %s -->" % name, "<!-- /%s -->" % name
    if "@@%s@@" % name in d:
        d = d.replace("@@%s@@" % name, b + "\n" + e)
    d = d[:d.index(b) + len(b)] + "\n" + text + "\n" + d[d.index(e):]
open(V + "/DESIGN.md", "w").write(d)
