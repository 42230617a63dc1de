#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one list."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None, na=None, state=None):
    p = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}}
    if state:
        p["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append((p, technique, note, na))


exec(open(os.path.join(here, "tools", "list.py")).read())

P.sort(key=lambda x: x[0]["id"])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        f.write(json.dumps(p) + "\n")
man = {"version": 1,
       "setup_cmd": "bash setup.sh",
       "checks": [{"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
                   "thorough_cmd": "./check.sh %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": t, "level": "other", "level_note": n} for p, t, n, na in P if na is None],
       "not_applicable": [{"property": p["id"], "reason": na} for p, t, n, na in P if na is not None],
       "notes": "Every check is a static analysis (analyzer/) of /repo's current source; nothing of /repo is executed. See DESIGN.md."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p, *_ in P:
        jsonschema.validate(p, s)
except ImportError:
    pass
print(len(P), "properties", len(man["checks"]), "checks")
