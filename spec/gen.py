#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, p["id"]
        o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        if p["observe"]:
            o["anchors"]["observe_at"] = p["observe"]
        if p["state"]:
            o["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        f.write(json.dumps(o) + "\n")
m = {"version": 1, "setup_cmd": "bash tool/build.sh", "checks": [], "not_applicable": [],
     "notes": "Static analysis of /repo's current source: tool/qdfacts (libTooling) extracts the resolved program, qa/rules/<ID>.py decide the properties."}
for p in props.P:
    if "reason" in p:
        m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier=quick" % p["id"],
                            "thorough_cmd": "python3 check.py %s --tier=thorough" % p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "other",
                            "level_note": p["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
