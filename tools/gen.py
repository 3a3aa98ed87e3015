#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from properties.py and plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
import plan, properties

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in properties.PROPERTIES:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                "observe_at": p.get("observe", []),
                "hook_needed": p.get("hook"),
            }}) + "\n")

checks = []
na = []
for p in properties.PROPERTIES:
    i = p["id"]
    if i in plan.PROPS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --thorough" % i,
            "technique": p["technique"],
            "level": "proof",
            "level_note": p["note"],
        })
    else:
        na.append({"property": i, "reason": p["na"]})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": properties.HOOKS,
    "checks": checks,
    "not_applicable": na,
    "notes": "Contract-based deductive verification with Kani (CBMC) and Verus; see DESIGN.md. "
             "known findings: KNOWN-FINDINGS.txt",
}
if not properties.HOOKS:
    del m["hooks"]
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
