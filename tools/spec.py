#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/spec.py rewrites both."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS = [], []

def P(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, state=None, level="exploration"):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
    CHECKS.append({"property": id, "quick_cmd": f"bash run.sh {id}", "thorough_cmd": f"bash run.sh {id} thorough",
                   "technique": technique, "level": level, "level_note": note})

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": sorted(CHECKS, key=lambda c: c["property"]),
           "not_applicable": NOT_APPLICABLE, "notes": NOTES},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(PROPS), "properties")
