#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and jobs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from jobs import JOBS, LEVEL
NA = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    js = JOBS.get(p, [])
    if not js:
        na.append({"property": p, "reason": NA.get(p, "no check has been built for it yet")})
        continue
    eng = sorted({j.engine for j in js if "q" in j.tier})
    tech = {"cbmc": "bit-precise bounded model checking of the C sources (CBMC, SAT)",
            "sym": "symbolic execution of the LLVM IR compiled from the C sources, path conditions and assertions decided by Z3 over the reals"}
    note = ["Holds for every input within the bounds of each job (listed in the evidence file and in DESIGN.md), nothing outside them is claimed."]
    if "sym" in eng:
        note.append("gusym: doubles that depend on symbolic inputs are real numbers, so rounding, overflow and underflow of those are outside the claim; sizes, shapes and other discrete choices are forked into separate paths; the C library is modelled (gusym/rt.py).")
    if "cbmc" in eng:
        note.append("cbmc: IEEE doubles bit for bit, allocation never fails, unwinding assertions on.")
    note.append("Counterexamples are reported only after they reproduce in a native sanitizer build of the same sources. Trusted: clang, Z3/CBMC, the translator (cross-checked by native replay of path witnesses on every run).")
    checks.append({"property": p, "quick_cmd": "python3 run.py %s" % p, "thorough_cmd": "python3 run.py %s --thorough" % p,
                   "technique": "solver-based checking of the real code: " + "; ".join(tech[e] for e in eng), "level": LEVEL, "level_note": " ".join(note)})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: harnesses call the library and the utilities' main functions. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
