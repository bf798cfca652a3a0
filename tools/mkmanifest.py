#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules that exist."""
import importlib, json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
checks, missing = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    try:
        m = importlib.import_module("vlib.checks." + p["id"].lower())
    except ModuleNotFoundError:
        missing.append({"property": p["id"], "reason": "not yet built"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": getattr(m, "TECHNIQUE", "runtime monitoring of the real program against an executable reference model, random and hostile workloads"),
        "level": m.LEVEL,
        "level_note": getattr(m, "LEVEL_NOTE", "Held on the executions that the evidence counts; it says nothing about inputs of kinds the workload does not generate. Trusts the reference model and the oracles named in the evidence's assumptions."),
    })
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": missing,
           "notes": "All checks drive the real command line tool, built from /repo's working tree without any hooks; C26 drives a program linked to its library crate."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [m["property"] for m in missing])
