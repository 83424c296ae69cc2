"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import importlib.util
import json
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from props import P  # noqa: E402

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
man = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in P:
    i = p["id"]
    if os.path.exists(os.path.join(here, "ngcmon", "props", i.lower() + ".py")):
        man["checks"].append({
            "property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": p["_technique"], "level": "exploration",
            "level_note": p["_note"].strip()})
    else:
        man["not_applicable"].append({"property": i, "reason": "no check built yet"})
man["notes"] = ("The package is pure Python and runs from /repo's working tree; nothing is built. No hooks in /repo: every monitor "
                "observes the public interface. known_findings.txt lists repaired defects (fixed:) and open findings.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(man["checks"]), "checks")
