#!/opt/venv/bin/python
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props

PY = "/opt/venv/bin/python run_check.py"
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"]},
        }) + "\n")
na = getattr(props, "NOT_APPLICABLE", [])
nas = {x["property"] for x in na}
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python tools/selftest.py",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"{PY} --property {p['id']} --tier quick",
            "thorough_cmd": f"{PY} --property {p['id']} --tier thorough",
            "technique": "symbolic execution of the real Python code (own proxy engine) with z3 deciding every branch and assertion within stated bounds; counterexamples replayed on the unpatched code",
            "level": "model_checking",
            "level_note": p["note"],
        }
        for p in props.PROPS if p["id"] not in nas
    ],
    "not_applicable": na,
}
for c in m["checks"]:
    assert os.path.exists(os.path.join(ROOT, "checks", c["property"].lower() + ".py")), c
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
