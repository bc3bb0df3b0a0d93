#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and lib/config.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from lib.config import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "technique": c.get("technique") or "property-based testing: generated call histories and inputs against a model, with shrinking",
                       "level": "exploration",
                       "level_note": c.get("note") or "Held on every generated case of the run (counts in the evidence file); no claim beyond them. Assumes: " + "; ".join(c.get("assumptions", ["none beyond the compiler and the sanitizers"]))})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "One command decides one property: check.py ID. It builds the harness of the property together with /repo's current sources (objects in build/cache, keyed by content), runs the generated cases in worker processes, shrinks a failure and writes its replay file under build/replays; check.py ID --replay FILE runs that case again. No hooks in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
