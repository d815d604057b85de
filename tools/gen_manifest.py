#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties and the checks that exist."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
main = open(os.path.join(root, "harness/src/main.rs")).read()
have = set(re.findall(r'\("(C\d\d)"', main))
NOTES = json.load(open(os.path.join(root, "tools/notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i in NOTES:
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": NOTES[i]["technique"], "level": "exploration",
            "level_note": NOTES[i]["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("reason", "No check has been built for it yet.")})
m = {"version": 1, "setup_cmd": "bash run.sh build", "checks": checks, "not_applicable": na,
  "notes": "One Rust harness (harness/) built against /repo's working tree; run.sh starts a private PostgreSQL server in a scratch directory. No hooks in /repo."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(na), "not applicable")
