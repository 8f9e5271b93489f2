#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from suites.json and notes.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
suites = json.load(open(V + "/mc/suites.json"))
notes = json.load(open(V + "/tools/notes.json"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API only", "source_commits": []}, "checks": [], "not_applicable": []}
for p in props:
    if p in suites:
        n = notes.get(p, {})
        m["checks"].append({"property": p, "quick_cmd": f"python3 run.py {p} --tier quick", "thorough_cmd": f"python3 run.py {p} --tier thorough",
          "evidence_file": f"evidence/{p}.json",
          "technique": n.get("technique", "explicit-state model checking: exhaustive bounded enumeration of operations of the real implementation against a reference model"),
          "level": "model_checking",
          "level_note": n.get("note", "Exhaustive within the bounds given in DESIGN.md for this property; trusts the harness's reference model, the compiler and AddressSanitizer.")})
    else:
        m["not_applicable"].append({"property": p, "reason": notes.get(p, {}).get("na", "check not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
