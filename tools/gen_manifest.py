"""Writes properties.jsonl and MANIFEST.json from tools/props_data.py (only for checks that exist)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props_data import NA, PROPS

lines, checks, na = [], [], []
for p in PROPS:
    if p["id"] not in NA and not os.path.exists(os.path.join(HERE, "pbt", "props", p["id"].lower() + ".py")):
        print("no check yet:", p["id"])
        continue
    d = {k: p[k] for k in ("id", "title", "statement")}
    assert len(d["title"]) <= 80, d["title"]
    d["quantifier"] = {"over": p["over"], "text": p["quant"]}
    d["why_tests_cant"] = p["why"]
    d["anchors"] = {"files": sorted({m[1].split(":")[0] for m in p["mech"]}),
                    "mechanism": [{"name": m[0], "where": m[1]} for m in p["mech"]],
                    "observe_at": p.get("observe", []), "hook_needed": None}
    lines.append(json.dumps(d))
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
        continue
    assert os.path.exists(os.path.join(HERE, "pbt", "props", p["id"].lower() + ".py")), p["id"]
    checks.append({"property": p["id"],
                   "quick_cmd": f"/opt/venv/bin/python check.py {p['id']} quick",
                   "thorough_cmd": f"/opt/venv/bin/python check.py {p['id']} thorough",
                   "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); from pbt import env; import os; os.environ.update(env.environ('/tmp')); env.setup(); import hypothesis; print('ok')\"",
     "checks": checks, "not_applicable": na,
     "notes": "Property-based testing with Hypothesis (vendored in vendor/) against independent oracles; no hooks in /repo. "
              "DESIGN.md says what decides each property. VERIF_SEED picks the cases, VERIF_REPO (default /repo) the tree."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(lines), "properties,", len(checks), "checks,", len(na), "not applicable")
