#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")); sys.path.insert(0, os.path.join(V, "checks"))
import props, registry
P = props.PROPS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        if p["id"] in registry.CHECKS or p.get("na"):
            d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
checks = []
for p in P:
    if p["id"] in registry.CHECKS:
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py check %s --tier quick" % p["id"],
                           thorough_cmd="python3 run.py check %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                           technique=p["technique"], level="model_checking", level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 run.py setup",
         hooks=dict(guard="none", enable="no hooks are needed: the harnesses use the public interface of the working tree's sources", source_commits=[]),
         checks=checks, not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p.get("na")],
         notes="TLA+ specifications in spec/, checked with TLC. Every check executes scenarios on the code built from /repo's working tree and lets TLC decide whether the recorded history is a behaviour of the specification; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
