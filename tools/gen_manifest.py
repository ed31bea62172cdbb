#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/profiles.py and the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "tools"))
from profiles import PROFILES
SEQ = "runtime monitoring: random operation histories on the real library (ASan+UBSan build), every call checked online against a reference model"
TECH = {}
TECH.update({f"C{i:02d}": SEQ for i in range(1, 20)})
TECH["C15"] = "runtime monitoring: structural-invariant monitor on live rows and blocks after every call of random histories"
TECH["C16"] = "AddressSanitizer + UndefinedBehaviorSanitizer + allocation ledger over random operation histories, hang watchdog"
TECH["C17"] = "runtime monitoring: histories on tight row capacities, ASan plus reference model, refusal must be a reported error"
TECH["C18"] = "runtime monitoring: snapshot monitor re-observes every live matrix after every call of random histories"
NOTE = {}
DEF = "Held on the executions counted in the evidence file (random histories, sizes 1..20, all formats and precisions named there); nothing is claimed for histories, sizes or platforms not run. Trusts the reference model in harness/ops.c, gcc's sanitizers and OpenBLAS/LAPACK."
from tools_meta import TECH2, NOTE2, NA
TECH.update(TECH2); NOTE.update(NOTE2)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROFILES and i not in NA:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "evidence_file": f"evidence/{i}.json",
                            "technique": TECH[i], "level": PROFILES[i].get("level", "exploration"), "level_note": NOTE.get(i, DEF)})
    else: m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
