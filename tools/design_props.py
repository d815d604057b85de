#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md: what decides each property, the fixes, the planted bugs."""
import json, os, glob
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
D = os.path.join(root, "DESIGN.md")
t = open(D).read().split("<!-- generated -->")[0]
t += "<!-- generated -->\n"
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
notes = json.load(open(os.path.join(root, "tools/notes.json")))
m = json.load(open(os.path.join(root, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in m["not_applicable"]}
t += "\n## Per property\n\n"
for p in props:
    i = p["id"]
    t += f"### {i} {p['title']}\n\n"
    if i in na:
        t += f"Not claimed: {na[i]}\n\n"
    else:
        t += f"*{notes[i]['technique']}.* {notes[i]['note']}\n\n"
k = json.load(open(os.path.join(root, "known_findings.json")))
t += "## Defects found\n\nRepaired (commits in /repo starting `fix:`):\n\n"
t += "".join(f"* {x[len('fixed: property='):]}\n" for x in k["fixed"])
t += "\nRecorded, not repaired (`known_findings.json`):\n\n"
t += "".join(f"* {x['id']}: {x['what']}\n" for x in k["findings"])
t += "\n## Planted bugs\n\nWhat each needs, and the check that catches it (`seeded/<id>`).\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    d = json.load(open(f))
    t += f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['needs']} | {d.get('caught','?')} |\n"
open(D, "w").write(t)
