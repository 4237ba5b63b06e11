#!/usr/bin/env python3
"""Builds every workload once, so that checks find warm build directories. Checks also work without."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
import run
done, failed = set(), 0
for prop, check in CHECKS.items():
    for leg in check["legs"]:
        if leg.get("thorough_only"): continue
        k = (run.target_dir(leg), leg["bin"], *leg.get("also", []))
        if k in done: continue
        done.add(k)
        try:
            if leg.get("prepare"): leg["prepare"]()
            print(prop, *k, f"{run.build(leg):.1f} s", flush=True)
        except run.NoVerdict as e:
            failed += 1
            print(prop, *k, e, flush=True)
sys.exit(1 if failed else 0)
