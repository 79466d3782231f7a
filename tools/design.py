#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md from tools/DESIGN.in.md"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import props
t = open(os.path.join(ROOT, "tools/DESIGN.in.md")).read()
man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
na = {n["property"]: n["reason"] for n in man["not_applicable"]}
o = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    o.append("### %s %s\n" % (p["id"], p["title"]))
    c = props.PROPS.get(p["id"])
    if not c:
        o.append("*Not claimed*: %s\n" % na[p["id"]])
        continue
    o.append("* **Method**: %s." % c["technique"])
    o.append("* **Explored**: %s." % c["rule"].rstrip("."))
    o.append("* **Bounds and oracle**: %s." % c["note"].rstrip("."))
    if c.get("design"):
        o.append("* **Details**: %s" % c["design"])
    o.append("* **Why tests cannot settle it**: %s\n" % p["why_tests_cant"])
kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
sd = []
res = {}
rp = os.path.join(ROOT, "tools/seed_results.json")
if os.path.exists(rp):
    res = json.load(open(rp))
sd = ["| bug | property | what it breaks | needs | caught |", "|---|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", s, "meta.json")))
    sd.append("| %s | %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"], m["needs"], res.get(s, "yes")))
t = t.replace("@@PROPS@@", "\n".join(o))
t = t.replace("@@FIXED@@", "\n".join("* " + f for f in kf["fixed"]) or "none")
t = t.replace("@@KNOWN@@", "\n".join("* %s (%s): %s" % (k["id"], k["property"], k["what"]) for k in kf["known"]) or "none")
t = t.replace("@@SEEDS@@", "\n".join(sd))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
