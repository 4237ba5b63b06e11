#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(f"{HERE}/../properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i, "quick_cmd": f"python3 lib/run.py {i}", "thorough_cmd": f"python3 lib/run.py {i}",
            "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": c.get("level", "exploration"),
            "level_note": c.get("level_note", "Held on the executions observed, counted in the evidence file; nothing is said of others.") ,
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py",
           "checks": checks, "not_applicable": na}, open(f"{HERE}/../MANIFEST.json", "w"), indent=1, ensure_ascii=False)
