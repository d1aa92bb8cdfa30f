#!/usr/bin/env python3-vt
"""Runs the mutants of a property: each is an in-memory edit of /repo's sources (nothing is written), which the
check must report (expect: fire) or must accept (expect: quiet).

usage: mut.py C01 [name...]      mutants/C01.py defines MUTANTS = [(name, expect, [(file, old, new), ...]), ...]"""
from __future__ import annotations

import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import importlib.util
import multiprocessing as mp
import os
import pathlib
import sys
import time

V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)


def load(prop: str):
    f = V / "mutants" / f"{prop}.py"
    if not f.exists():
        return []
    spec = importlib.util.spec_from_file_location(f"mutants_{prop}", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.MUTANTS


def overrides(edits, repo: pathlib.Path):
    ov: dict[str, str] = {}
    for file, old, new in edits:
        rel = "src/" + file
        s = ov.get(rel) or (repo / rel).read_text(encoding="utf-8")
        if old is None:
            s = s + new
        else:
            if s.count(old) < 1:
                return None
            s = s.replace(old, new, 1)
        ov[rel] = s
    return ov


def one(args):
    prop, name, expect, edits = args
    import importlib
    from vlib import project, report
    t = time.time()
    try:
        ov = overrides(edits, project.REPO)
        if ov is None:
            return name, expect, "skipped", "anchor text absent", 0.0
        for rel, s in ov.items():
            compile(s, rel, "exec")
        p = project.Project(overrides=ov)
        mod = importlib.import_module(f"rules.{prop.lower()}")
        rep = mod.run(p, "quick")
        known = report.known_keys(prop)
        new = [f for f in rep.findings if f.key not in known]
        if new:
            return name, expect, "fire", "; ".join(f"{f.loc} [{f.rule}] {f.message[:110]}" for f in new[:3]), time.time() - t
        if rep.errors:
            return name, expect, "error", "; ".join(rep.errors)[:200], time.time() - t
        return name, expect, "quiet", "", time.time() - t
    except Exception as e:
        import traceback
        return name, expect, "error", f"{type(e).__name__}: {e} " + traceback.format_exc()[-300:], time.time() - t


def run_all(prop: str, only=(), jobs: int = 7, budget: float = 0):
    """budget: seconds after which the edits not yet started are left out"""
    ms = [(prop, n, e, ed) for (n, e, ed) in load(prop) if not only or n in only]
    end = time.time() + budget if budget else 0
    out = []
    with mp.get_context("spawn").Pool(min(jobs, max(len(ms), 1)), maxtasksperchild=1) as pool:
        rs = [(m, pool.apply_async(one, (m,))) for m in ms]
        for m, r in rs:
            try:
                out.append(r.get(max(0.1, end - time.time()) if end else None))
            except mp.TimeoutError:
                out.append((m[1], m[2], "skipped", "time budget", 0.0))
        pool.terminate()
    return out


if __name__ == "__main__":
    prop = sys.argv[1]
    bad = 0
    for n, e, r, msg, t in run_all(prop, sys.argv[2:]):
        ok = "ok " if e == r else "BAD"
        bad += e != r
        print(f"{ok} {prop} {n}: expected {e}, got {r} ({t:.0f}s) {msg[:260]}")
    sys.exit(1 if bad else 0)
