#!/usr/bin/env python3-vt
"""Writes vlib/baseline_functions.json: the functions of /repo the rules were written for (see vlib/inline.py)."""
import ast, json, pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).parent.parent))
from vlib.inline import PATH, listing
root = pathlib.Path(sys.argv[1] if len(sys.argv) > 1 else "/repo/src")
r = {str(p.relative_to(root)): sorted(set(listing(ast.parse(p.read_text())))) for p in sorted(root.rglob("*.py")) if "/tests/" not in str(p)}
PATH.write_text(json.dumps(r, indent=0) + "\n")
print(len(r), sum(map(len, r.values())))
