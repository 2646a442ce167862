#!/usr/bin/env python3
"""writes DESIGN.md from design/props.md: lists of repairs and planted bugs are taken from the committed files"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kf = [json.loads(l) for l in open(V + "/known_findings.jsonl") if l.strip()]
fixed = "\n".join("- " + k["fixed"].replace("property=", "", 1) for k in kf if "fixed" in k)
known = "\n".join("- %s, `%s`: %s" % (k["property"], k["case"], k["what"]) for k in kf if "case" in k)
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s | caught by %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"], m["needs"], m["property"]))
seeded = "| bug | property | what it breaks | needs | result |\n|---|---|---|---|---|\n" + "\n".join(rows)
t = open(V + "/design/design.md").read()
open(V + "/DESIGN.md", "w").write(t.replace("@@FIXED@@", fixed).replace("@@KNOWN@@", known).replace("@@SEEDED@@", seeded))
