#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []       # claimed properties
NA = []      # properties stated but not decided, with the reason

def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None, technique="", note=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a}, technique, note))

def na(id, title, statement, over, quant, why, files, mech, reason):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    NA.append(({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a}, reason))

for f in sorted(os.listdir(os.path.join(ROOT, "tools", "spec"))):
    if f.endswith(".py"):
        exec(open(os.path.join(ROOT, "tools", "spec", f)).read())

P.sort(key=lambda x: x[0]["id"]); NA.sort(key=lambda x: x[0]["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in sorted([x[0] for x in P] + [x[0] for x in NA], key=lambda x: x["id"]):
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick",
                 "thorough_cmd": f"bash check.sh {p['id']} thorough",
                 "technique": t, "level": "other", "level_note": n} for p, t, n in P],
     "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
     "notes": "No hooks: the analyses read /repo's unmodified sources. /repo carries only 'fix:' commits, listed in known-findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1); open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(P), "claimed,", len(NA), "not applicable")
