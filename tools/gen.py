#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [HERE, V]
from props import P
from checks import CHECKS
NA = {}
try:
    from props import NOT_APPLICABLE as NA
except ImportError:
    pass
P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks = []
for p in P:
    i = p["id"]
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("technique") or ("runtime monitoring: " + ("race-detector build, " if c.get("race") else "") + c.get("oracle", "online oracle against an independent reference model over generated executions")),
        "level": c.get("level", "exploration"),
        "level_note": c.get("note") or ("Held on every execution explored (counts in the evidence file): " + c["rule"] + ". Trusts the reference model in harness/ and the Go toolchain" + (" and race detector" if c.get("race") else "") + "; says nothing about executions not driven."),
    })
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in P if p["id"] not in CHECKS]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
hp = os.path.join(V, "tools", "hooks.json")
if os.path.exists(hp):
    m["hooks"] = json.load(open(hp))
m["notes"] = "check.py builds the harness packages in harness/ into /repo's module through a build overlay (nothing is written to /repo) and runs them; known_findings.json lists repaired and open defects."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P:
        jsonschema.validate(p, s)
    print("schemas ok")
except ImportError:
    pass
