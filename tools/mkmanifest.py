#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan: every planned property is claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib", "py"))
sys.dont_write_bytecode = True
import plan
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
	p = json.loads(line)
	i = p["id"]
	if i in plan.PLAN:
		q = plan.PLAN[i]
		checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
			"evidence_file": "evidence/%s.json" % i,
			"technique": q.get("technique") or "property-based testing with choice-sequence generators and shrinking, against an independent reference model",
			"level": "exploration", "level_note": q.get("note") or "Searches generated inputs; no failure among the cases run is not a proof. Trusts the reference model in lib/cpp/ref.cpp, the compilers and the runner."})
	else:
		na.append({"property": i, "reason": plan.NOT_APPLICABLE.get(i, "Not claimed yet: its check is still being built.")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
