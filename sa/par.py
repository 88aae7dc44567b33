"""Independent probes in parallel: fork workers, each returning a Result, merged in order."""
from __future__ import annotations

import multiprocessing as mp
import os

from .report import Result

_JOBS = None


def _one(i):
    res = Result()
    fn, args = _JOBS[i]
    fn(res, *args)
    return i, res


def run_jobs(res, jobs, nproc=None):
    """jobs: list of (fn, args) called as fn(Result, *args)."""
    global _JOBS
    _JOBS = jobs
    nproc = nproc or min(8, os.cpu_count() or 1)
    if nproc <= 1 or len(jobs) < 4:
        out = [_one(i) for i in range(len(jobs))]
    else:
        with mp.get_context("fork").Pool(nproc) as pool:
            out = pool.map(_one, range(len(jobs)), chunksize=1)
    for i, r in sorted(out, key=lambda x: x[0]):
        for f in r.findings.values():
            res.findings.setdefault(f.key, f)
        for k, n in r.coverage.items():
            if isinstance(n, set):
                res.coverage[k] = res.coverage.get(k, set()) | n
            else:
                res.count(k, n)
    return res
