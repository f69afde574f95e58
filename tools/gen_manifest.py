"""MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "technique": c.get("technique", "explicit-state exploration of the real code against a reference model"),
                       "level": c.get("level", "model_checking"), "level_note": c.get("rule", "")[:900] or "exhaustive within the stated bounds"})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), len(na))
