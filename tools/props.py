#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run from anywhere)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import CHECKS  # noqa: E402

P = []
TECH = {}
NOTE = {}


def prop(pid, title, statement, over, text, why, files, mech, tech, note, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
    TECH[pid] = tech
    NOTE[pid] = note


exec(open(os.path.join(V, "tools", "props_table.py")).read())

NA = []  # (property, reason)

for p in P:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 -c \"import sys; sys.dont_write_bytecode = True; import checks\"",
    "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's own sources with "
              "sanitizers and observe its public interfaces", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
        "technique": TECH[p["id"]],
        "level": CHECKS[p["id"]].get("level", "exploration"),
        "level_note": NOTE[p["id"]],
    } for p in P if p["id"] in CHECKS],
    "not_applicable": [{"property": a, "reason": b} for a, b in NA],
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(P), "properties,", len(m["checks"]), "checks")
