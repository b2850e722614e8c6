#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule registry and the catalogue (python3 scripts/manifest.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "analysis"))
sys.path.insert(0, os.path.join(HERE, "scripts"))
from registry import RULES, TECH, NOTE
from props import BY
import na
checks, nap = [], []
TRUST = ("Trusts rustc's MIR of the current tree (normal, non-test build of the library and binary, Linux target, "
         "panic=unwind) and the analyser in /verif/analysis; nothing is executed. ")
for i in BY:
    if i in RULES:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                       "thorough_cmd": "python3 check.py %s" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH[i], "level": "other", "level_note": TRUST + NOTE[i]})
    else:
        nap.append({"property": i, "reason": na.NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 scripts/facts.py", "checks": checks, "not_applicable": nap,
     "notes": "Static analysis over the type-checked MIR of /repo's current tree, extracted afresh by a rustc driver "
              "(driver/main.rs) on every run. check.py decides one property per call."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(nap), "not applicable")
