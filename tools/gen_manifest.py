#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the rules present, and tools/not_applicable.py"""
import ast, json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
from not_applicable import NA

def consts(path):
    out = {}
    for st in ast.parse(path.read_text()).body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id in ("TECHNIQUE", "LEVEL_NOTE"):
            out[st.targets[0].id] = ast.literal_eval(st.value)
    return out

checks, na = [], []
for line in (V / "properties.jsonl").read_text().splitlines():
    d = json.loads(line)
    i = d["id"]
    f = V / "rules" / f"{i.lower()}.py"
    if f.exists() and i not in NA:
        c = consts(f)
        checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i}",
                       "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
                       "technique": c["TECHNIQUE"], "level": "other", "level_note": c["LEVEL_NOTE"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3-vt -c \"import mypy.build, networkx\"", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: no check imports or runs /repo's code; the sources are parsed and type-checked (mypy as a library) on every run. No hooks in /repo."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
print(len(checks), "claimed;", len(na), "not applicable:", [x["property"] for x in na])
