"""Euler ODE solver."""
from . import common
from .schemelib import euler_job  # noqa: F401

SPEC = "T_Schemes"


def run(ck):
    ck.model("MC_Schemes", note="linear growth and restart of Euler's method")
    deep = ck.tier == "thorough"
    n = 320 if deep else 64
    jobs = [("euler_job", dict(lo=i, hi=i + 8, seed=ck.seed)) for i in range(0, n, 8)]
    jobs += [("euler_job", dict(lo=900 + i, hi=901 + i, seed=ck.seed, big=True)) for i in range(0, 24 if deep else 8)]
    jobs += [("euler_job", dict(lo=i, hi=i + 1, seed=ck.seed, big=(1030, 515)[i % 2])) for i in range(980, 996 if deep else 982)]
    ck.validate(SPEC, common.run_jobs("harness.c21", jobs))
