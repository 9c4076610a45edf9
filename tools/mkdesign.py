#!/usr/bin/env python3
"""assembles DESIGN.md from tools/design.md, tools/method.json, properties.jsonl, jobs.py, known_findings.json and seeded/"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import jobs
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
meth = json.load(open(V + "/tools/method.json"))
s = open(V + "/tools/design.md").read()
o = []
for p in props:
    o.append("### %s %s\n\n%s\n" % (p["id"], p["title"], meth[p["id"]]))
s = s.replace("PROPERTIES\n", "\n".join(o))
f = json.load(open(V + "/known_findings.json"))
s = s.replace("FINDINGS\n", "".join("* %s (`%s`): %s\n" % (x["property"], x.get("commit", "known"), x["what"]) for x in f))
o = ["| seed | property | caught by | needs |", "|---|---|---|---|"]
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    o.append("| %s | %s | %s | %s |" % (d, m["property"], caught.get(d, "?"), m["needs"]))
s = s.replace("SEEDS\n", "\n".join(o) + "\n")
o = []
for p in sorted(jobs.JOBS):
    o.append("**%s**\n" % p)
    for j in jobs.JOBS[p]:
        o.append("* `%s` (%s, %s): %s" % (j.name, j.engine == "sym" and "gusym" or "cbmc", "q" if "q" in j.tier else "t", j.bounds))
    o.append("")
s = s.replace("JOBS\n", "\n".join(o))
open(V + "/DESIGN.md", "w").write(s)
