#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import checks
props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
       "notes": "TLA+ specifications in spec/, checked with TLC; drivers in harness/ record executions of the real library, "
                "which TLC validates against the same specifications. No hooks in /repo are needed: the public API exposes the state."}
for p in props:
    if p in checks.CHECKS:
        out["checks"].append({"property": p, "quick_cmd": "python3 bin/check %s --tier quick" % p,
                              "thorough_cmd": "python3 bin/check %s --tier thorough" % p,
                              "evidence_file": "evidence/%s.json" % p,
                              "technique": checks.NOTES[p][0], "level": "model_checking", "level_note": checks.NOTES[p][1]})
    else:
        out["not_applicable"].append({"property": p, "reason": checks.NOT_APPLICABLE.get(p, "no check built yet")})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
