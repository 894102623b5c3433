#!/usr/bin/env python3
"""Writes contracts/props.json and MANIFEST.json from tools/props.py."""
import json, sys, os
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump({k: v["def"] for k, v in PROPS.items()}, open(V + "/contracts/props.json", "w"), indent=1)
checks = []
for k, v in PROPS.items():
    checks.append({"property": k, "quick_cmd": "./check " + k, "thorough_cmd": "VERIF_TIER=thorough ./check " + k, "technique": "contract-based deductive verification of the Go code (dv: symbolic execution of the SSA against contracts, SMT)", "level": "proof", "level_note": v["note"]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [{"property": k, "reason": r} for k, r in NOT_APPLICABLE.items()]}, open(V + "/MANIFEST.json", "w"), indent=1)
