#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl, tools/notes.json and the checks that exist.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
notes = json.load(open(root + "/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    n = notes.get(i, {})
    if os.path.exists(f"{root}/checks/{i}.ts") and not n.get("disabled"):
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i} quick",
            "thorough_cmd": f"./run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": n["technique"],
            "level": n.get("level", "exploration"),
            "level_note": n["note"],
        })
    else:
        na.append({"property": i, "reason": n.get("reason", "not claimed yet: its check is still being built")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every monitor attaches through exported interfaces (transport, storage, crypto, timers, ports)."},
          open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
