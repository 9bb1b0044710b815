#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
from props import P
from checks import CHECKS
try:
    from jsonschema import validate
except ImportError:
    validate = None
def schema(n):
    p = "/root/.vp/%s.schema.json" % n
    return json.load(open(p)) if os.path.exists(p) else None
missing = sorted(set(CHECKS) ^ set(P))
if missing:
    print("not in both:", missing)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for k in sorted(P):
        if validate and schema("PROPERTIES"):
            validate(P[k]["prop"], schema("PROPERTIES"))
        assert len(P[k]["prop"]["title"]) <= 80, k
        f.write(json.dumps(P[k]["prop"]) + "\n")
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[],
         notes="No hooks: all monitors observe through the public interface, interposed library calls and sanitizers. See DESIGN.md.")
for k in sorted(P):
    if k not in CHECKS:
        continue
    m["checks"].append(dict(property=k, quick_cmd="python3 run.py " + k, thorough_cmd="python3 run.py %s --tier thorough" % k,
                            evidence_file="evidence/%s.json" % k, technique=P[k]["technique"], level="exploration", level_note=P[k]["note"]))
if validate and schema("MANIFEST"):
    validate(m, schema("MANIFEST"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for k, c in CHECKS.items():
    if len(c["rule"]) < 10:
        print("no rule:", k)
