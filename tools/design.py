#!/usr/bin/env python3
"""fill in the generated parts of DESIGN.md (template: tools/DESIGN.in.md)"""
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(root, "tools/DESIGN.in.md")).read()
kf = [json.loads(x) for x in open(os.path.join(root, "known-findings.jsonl")) if x.strip()]
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append("* `%s` (%s): %s. Needs %s." % (d, m["property"], m["what_it_breaks"], m["needs"]))
t = t.replace("@SEEDS@", "\n".join(rows)).replace("@NFIXED@", str(sum(1 for k in kf if k["status"] == "fixed")))
t = t.replace("@FIXED@", "\n".join("* " + k["text"][len("fixed: "):] for k in kf if k["status"] == "fixed"))
open(os.path.join(root, "DESIGN.md"), "w").write(t)
