#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.json and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
checks = json.load(open(os.path.join(here, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "verif", "enable": "go build -tags verif (harness/cmd/vh/build.go)",
              "source_commits": ["e891273"]},
    "checks": [], "not_applicable": [],
    "notes": "Every check is ./check.sh <id>: it builds the recorder and the harnesses from /repo's working tree into a scratch directory, runs them under the monitors, and removes the scratch directory.",
}
for p in props:
    c = checks.get(p["id"])
    if c is None or "not_applicable" in c:
        m["not_applicable"].append({"property": p["id"], "reason": (c or {}).get("not_applicable", "No check yet: its machinery is being built.")})
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "./check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c["technique"],
        "level": "exploration",
        "level_note": c["level_note"],
    })
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
