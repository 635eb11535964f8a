"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
DEDUCTIVE = "contract-based deductive verification (own VC generator over the Python AST of /repo, z3), plus bounded checks"
BOUNDED = "bounded contract checking on the real code (generated inputs against the contract)"
exec(open(V + "/tools/levels.py").read())
m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo; the checks read and run the unmodified sources of the working tree. See DESIGN.md."}
for p in props:
    lv, tech, note = LEVELS[p["id"]]
    m["checks"].append({"property": p["id"], "quick_cmd": f"python3-vt check.py {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough python3-vt check.py {p['id']}", "technique": tech, "level": lv, "level_note": note})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
