#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks; everything else is not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
BIN = json.load(open(f"{V}/tools/bins.json"))
checks = []
na = []
for p in props:
    b = BIN.get(p["id"])
    if not b or not os.path.exists(f"{V}/harness/src/bin/{b['bin']}.rs"):
        na.append({"property": p["id"], "reason": (b or {}).get("reason", "check not built yet")})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash harness/run.sh {b['bin']} run {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough bash harness/run.sh {b['bin']} run {p['id']}",
        "technique": b["technique"],
        "level": "exploration",
        "level_note": b["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "bash harness/run.sh all",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are property-based tests (proptest strategies, seeded by VERIF_SEED, shrinking to JSON replay files). No hooks in /repo are needed. Known findings: known-findings.json. Replay: bash harness/run.sh <bin> replay <file>.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
