#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes the planted changes described in SPEC.py (SEEDS: list of dict id, property, needs, breaks,
edits [(file below src, old, new)], demo (python text)).  Works on /repo, which is left as it was."""
import json, pathlib, subprocess, sys
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
R = pathlib.Path("/repo")
for s in spec["SEEDS"]:
    if only and s["id"] not in only:
        continue
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout, "dirty"
    d = pathlib.Path("/verif/seeded") / s["id"]
    d.mkdir(parents=True, exist_ok=True)
    for file, old, new in s["edits"]:
        f = R / "src" / file
        t = f.read_text()
        assert t.count(old) >= 1, (s["id"], file, old)
        f.write_text(t.replace(old, new, 1))
    (d / "patch.diff").write_text(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout)
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    (d / "demo.py").write_text(s["demo"].lstrip("\n"))
    (d / "demo.sh").write_text('#!/bin/bash\n# cwd: /repo\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1\nPY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\nexec "$PY" "$here/demo.py"\n')
    (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
    print("made", s["id"])
