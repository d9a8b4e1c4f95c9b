#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks below."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from checks import CHECKS, NOT_APPLICABLE, NOTES
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "cd harness && GOFLAGS='-trimpath -buildvcs=false' CGO_ENABLED=0 GOTOOLCHAIN=local GOPROXY=off go vet . ./shared",
    "checks": [],
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
    "notes": NOTES,
}
for id in props:
    if id in CHECKS:
        t, n = CHECKS[id]
        m["checks"].append({
            "property": id, "quick_cmd": "./run.sh " + id, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + id,
            "evidence_file": "evidence/%s.json" % id, "technique": t, "level": "exploration", "level_note": n})
missing = [p for p in props if p not in CHECKS and p not in NOT_APPLICABLE]
assert not missing, missing
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
