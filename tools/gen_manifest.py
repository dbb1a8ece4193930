#!/usr/bin/env python3
"""Regenerates MANIFEST.json: claimed checks from tools/checks.json, everything else not_applicable."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
cfg = json.load(open(f"{root}/tools/checks.json"))
man = {"version": 1, "setup_cmd": "bash setup.sh",
       "hooks": cfg["hooks"], "checks": [], "not_applicable": [], "notes": cfg["notes"]}
for p in props:
    c = cfg["checks"].get(p["id"])
    if c:
        man["checks"].append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick",
            "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json", "technique": c["technique"],
            "level": "model_checking", "level_note": c["note"]})
    else:
        man["not_applicable"].append({"property": p["id"],
            "reason": cfg["not_applicable"].get(p["id"], "planned, check not built yet (see DESIGN.md)")})
json.dump(man, open(f"{root}/MANIFEST.json", "w"), indent=1); open(f"{root}/MANIFEST.json", "a").write("\n")
