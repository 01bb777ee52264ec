#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and props/config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from props.config import CONFIG
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CONFIG:
        c = CONFIG[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", "property-based testing: generated cases against an independent reference model, with shrinking" + ("; libFuzzer on the same choices in the thorough tier" if c.get("fuzz", True) else "") + ("; " + c["technique_note"] if "technique_note" in c else "")),
            "level": "exploration", "level_note": c.get("note", "Generated-input search (counts in the evidence); absence of a violation is statistical, within the generators' bounds. Trusts the reference model in props/%s, g++ and the sanitizers." % c["src"])})
    else: na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: harnesses in /verif/props compile /repo's sources directly. Known findings and fixed defects: known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), "checks", len(na), "not applicable")
