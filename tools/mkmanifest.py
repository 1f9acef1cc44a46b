#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
sys.dont_write_bytecode = True
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
S = ("stateless model checking of the real, instrumented code: every schedule (iterated preemption bound, virtual time, "
     "happens-before state caching) and every harness choice within the stated bounds")
E = "exhaustive enumeration of bounded operation histories / inputs / fault positions, each run on the real code and compared with a reference model"
B = "exhaustive schedule exploration (iterated preemption bound) plus exhaustive bounded enumeration of histories, inputs and faults, on the real code"
TECH = {"S": S, "E": E, "SE": B}
NOTE_S = ("Trusted: the source instrumenter and scheduler of /verif/gomc (sequentially consistent memory; races found by a vector-clock detector become "
          "scheduling points), the fake device, decoder and clock. Bounds per scenario are in the evidence (preemption bound completed, exhausted).")
NOTE_E = "Trusted: the reference model in the harness. Complete within the stated bounds of the enumeration; nothing is claimed beyond them."
checks, na = [], []
for p in props:
    c = CHECKS.get(p)
    if not c:
        na.append({"property": p, "reason": "not applicable yet: no check has been built for it"})
        continue
    kind = c.get("kind", "S")
    checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick ./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": TECH[kind], "level": c.get("level", "model_checking"),
                   "level_note": (c.get("note", "") + " " + (NOTE_E if kind == "E" else NOTE_S)).strip()})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks instrument /repo's current sources into a go test overlay outside /repo."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "unclaimed")
