"""Writes properties.jsonl and MANIFEST.json from one table (tools/props.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant",
                                              "anchors")}) + "\n")
checks = [dict(property=p["id"], quick_cmd="python3-vt check.py %s" % p["id"],
               thorough_cmd="python3-vt check.py %s --tier thorough" % p["id"],
               technique=p["technique"], level=p["level"], level_note=p["note"])
          for p in PROPS if p.get("level")]
man = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks,
       "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if not p.get("level")],
       "notes": "Deductive verification of the real Python source; see DESIGN.md. /repo carries no hooks."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(man["not_applicable"]), "not applicable")
