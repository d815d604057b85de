#!/usr/bin/env python3
"""add.py fixed PROP COMMIT TEXT | finding PROP ID SUB SIG CASEJSON TEXT | note PROP TECHNIQUE NOTE"""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
kf = os.path.join(root, "known_findings.json"); nf = os.path.join(root, "tools/notes.json")
a = sys.argv[1:]
if a[0] == "note":
    d = json.load(open(nf)); d[a[1]] = {"technique": a[2], "note": a[3]}
    json.dump(d, open(nf, "w"), indent=1); open(nf, "a").write("\n")
else:
    d = json.load(open(kf))
    if a[0] == "fixed":
        d["fixed"].append(f"fixed: property={a[1]} {a[2]} {a[3]}")
    else:
        d["findings"] = [f for f in d["findings"] if f["id"] != a[2]]
        d["findings"].append({"property": a[1], "id": a[2], "sub": a[3], "sig": a[4], "what": a[6], "case": json.loads(a[5])})
    json.dump(d, open(kf, "w"), indent=1); open(kf, "a").write("\n")
