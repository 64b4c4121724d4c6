"""Builds MANIFEST.json and properties.jsonl from the checks present.  Run: /opt/venv/bin/python tools/manifest.py"""
import ast
import json
import os
import subprocess
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
from props import P  # noqa

NA = {}


def consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except Exception:
                pass
    return out


checks, na = [], []
for p in P:
    path = os.path.join(root, "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")))
        continue
    c = consts(path)
    assert c["PROPERTY"] == p["id"], path
    checks.append(dict(
        property=p["id"], quick_cmd=f"bash run.sh {p['id']} --tier quick",
        thorough_cmd=f"bash run.sh {p['id']} --tier thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=c.get("TECHNIQUE", "bounded-exhaustive exploration of the real code against a reference model"),
        level=c["LEVEL"],
        level_note=c.get("NOTE", c["RULE"]) + " Assumes: " + "; ".join(c.get("ASSUMPTIONS", ["nothing beyond the stated bounds"]))))
m = dict(version=1, setup_cmd="bash setup.sh",
         checks=checks, not_applicable=na,
         notes="All checks run the real code imported from /repo (pure Python, nothing to compile). Shared explorer: mc/core.py.")
hooks = os.path.join(root, "tools", "hooks.json")
if os.path.exists(hooks):
    m["hooks"] = json.load(open(hooks))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
