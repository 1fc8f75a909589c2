#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties the harness implements."""
import json, subprocess
ids = subprocess.run(["/verif/target/debug/harness", "list"], capture_output=True, text=True).stdout.split()
TECH = json.load(open("/verif/tools/techniques.json"))
props = {json.loads(l)["id"]: json.loads(l) for l in open("/verif/properties.jsonl")}
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    t = TECH[i]
    m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": t["technique"], "level": "exploration", "level_note": t["note"]})
for i in props:
    if i not in ids:
        m["not_applicable"].append({"property": i, "reason": "not yet implemented"})
m["notes"] = "Known findings and repaired defects: /verif/known_findings.txt. Design, oracles and bounds: /verif/DESIGN.md."
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
