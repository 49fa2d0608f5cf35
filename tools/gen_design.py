#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (from tools/DESIGN.in.md, MANIFEST, known findings, seeds)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(V + "/MANIFEST.json")); t = open(V + "/tools/DESIGN.in.md").read()
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
rows = []
for c in m["checks"]:
    i = c["property"]; ev = "%s/evidence/%s.json" % (V, i); cost = "?"
    if os.path.exists(ev): cost = "%d s" % round(json.load(open(ev)).get("wall_s", 0))
    rows.append("| %s %s | %s | %s | %s |" % (i, props[i]["title"], c["technique"], c["level_note"], cost))
t = t.replace("@TABLE@", "\n".join(rows))
k = open(V + "/known_findings.txt").read().splitlines()
t = t.replace("@FIXES@", "\n".join("* %s `%s`: %s" % re.match(r"fixed: property=(\w+) (\w+) (.*)", l).groups() for l in k if l.startswith("fixed:")))
t = t.replace("@KNOWN@", "\n".join("* %s `%s`: %s" % re.match(r"KNOWN property=(\w+) key=(\S+) (.*)", l).groups() for l in k if l.startswith("KNOWN")))
t = t.replace("@NA@", "\n".join("* **%s** %s: %s" % (n["property"], props[n["property"]]["title"], n["reason"]) for n in m["not_applicable"]) or "None: every listed property has a check.")
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
s = ["| seed | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    s.append("| %s | %s | %s | %s | %s |" % (n, d["property"], d["what_it_breaks"], d["needs"] if isinstance(d["needs"], str) else "; ".join(d["needs"]), res.get(n, "not yet run")))
t = t.replace("@SEEDS@", "\n".join(s))
open(V + "/DESIGN.md", "w").write(t)
