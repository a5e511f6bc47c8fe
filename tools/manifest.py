"""Writes /verif/MANIFEST.json from properties.jsonl and the drivers present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, "drivers", i + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": "TLA+ specification checked with TLC; TLC-generated behaviours replayed on the code and recorded executions judged by a TLA+ trace specification",
            "level": "model_checking",
            "level_note": "Exhaustive for the specification within small constants; the code is bound by replay and trace validation on generated and seeded random histories (see DESIGN.md).",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built for it yet.")})
m = {"version": 1, "setup_cmd": "java -version && test -x /opt/venv/bin/python",
     "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1)
    fp.write("\n")
print(len(checks), len(na))
