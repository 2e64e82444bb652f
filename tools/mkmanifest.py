"""Writes MANIFEST.json from the check modules and properties.jsonl."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "mc/checks/%s.py" % pid.lower())):
        m = importlib.import_module("mc.checks.%s" % pid.lower())
        b = m.BOUNDS if isinstance(m.BOUNDS, str) else m.BOUNDS["quick"]
        checks.append({
            "property": pid,
            "quick_cmd": "./run.sh %s quick" % pid,
            "thorough_cmd": "./run.sh %s thorough" % pid,
            "technique": getattr(m, "TECHNIQUE", "stateless bounded exhaustive model checking of the real code against a reference model"),
            "level": "model_checking",
            "level_note": "Exhaustive within: %s.%s" % (b, (" Assumes: " + "; ".join(m.ASSUMPTIONS) + ".") if getattr(m, "ASSUMPTIONS", None) else ""),
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
