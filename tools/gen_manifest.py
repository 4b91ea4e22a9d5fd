#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_config.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks_config import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "runtime monitoring: " + c.get("technique", "reference-model oracle over generated workloads, under ASan/UBSan"),
            "level": "exploration",
            "level_note": c.get("note", "Held on every execution observed; the workload is generated from VERIF_SEED. Trusts the harness's independent reference model, its rounding bounds and gcc's sanitizers.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "g++ --version", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo are needed: monitors sit at the public API, at the ICPULayer boundary, in interposed system/library calls and in the sanitizers."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
