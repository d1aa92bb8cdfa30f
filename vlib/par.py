"""Independent analyses in forked processes (each inherits the type-checked program)"""
from __future__ import annotations

import gc
import multiprocessing as mp
import os
import sys
import traceback
from typing import Any, Callable

_JOBS: list[Callable[[], Any]] = []


def _run(i: int) -> Any:
    try:
        return True, _JOBS[i]()
    except BaseException:  # noqa
        return False, traceback.format_exc()


def parallel(jobs: list[Callable[[], Any]]) -> list[Any]:
    """results in the order of the jobs; the results must be picklable. Run in turn inside a daemonic process"""
    global _JOBS
    if mp.current_process().daemon or len(jobs) < 2 or os.environ.get("VERIF_SERIAL"):
        return [j() for j in jobs]
    _JOBS = jobs
    gc.freeze()
    sys.stdout.flush()
    sys.stderr.flush()
    with mp.get_context("fork").Pool(min(len(jobs), os.cpu_count() or 4, 8)) as pool:
        res = pool.map(_run, range(len(jobs)), chunksize=1)
    for ok, r in res:
        if not ok:
            raise RuntimeError(r)
    return [r for _, r in res]
