#!/usr/bin/env python3-vt
"""usage: check.py C01 [--tier quick|thorough] [--repo PATH]"""
from __future__ import annotations

import argparse
import importlib
import os
import pathlib
import sys
import time
import traceback

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)


if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


def self_test(prop: str, rep) -> None:
    """thorough tier: the sensitivity of the analysis is measured on in-memory edits of the current sources"""
    sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent / "tools"))
    import mut
    res = mut.run_all(prop, budget=400)
    rep.extra["self_test"] = [f"{n}: expected {e}, got {r}" for n, e, r, _, _ in res]
    rep.count("self_test_edits", sum(1 for x in res if x[2] != "skipped"))
    rep.count("self_test_edits_as_expected", sum(1 for x in res if x[1] == x[2]))


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=None)
    a = ap.parse_args()
    if a.repo:
        os.environ["VERIF_REPO"] = a.repo
    from vlib import project, report
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        mod = importlib.import_module(f"rules.{a.property.lower()}")
        rep = mod.run(project.Project(), a.tier)
        if a.tier == "thorough":
            self_test(a.property, rep)
    except project.AnalysisError as e:
        print(f"ANALYSIS-BROKEN {a.property}: {e}", file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 4
    return report.finish(rep, a.tier, seed, t0)


if __name__ == "__main__":
    sys.exit(main())
