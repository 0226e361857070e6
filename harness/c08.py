"""Diagonal order 1.5 scheme."""
from . import common
from .schemelib import diag_job, diag_law_job  # noqa: F401

SPEC = "T_Schemes"


def run(ck):
    ck.model("MC_Schemes", note="conditional mean and GBM expansion of the order 1.5 step")
    deep = ck.tier == "thorough"
    n = 160 if deep else 40
    jobs = [("diag_law_job", dict(seed=ck.seed, n=200000 if deep else 60000, cases=[c]))
            for c in [(2, 0.25, 2), (1, 0.5, 1), (3, 1 / 3, 1), (5, 0.125, 1), (1, 1e-3, 2), (2, 3.0, 1), (1, 1e-4, 1)]]
    jobs += [("diag_job", dict(lo=i, hi=i + 4, seed=ck.seed)) for i in range(0, n, 4)]
    jobs += [("diag_job", dict(lo=900 + i, hi=901 + i, seed=ck.seed, big=True)) for i in range(0, 24 if deep else 4)]
    jobs += [("diag_job", dict(lo=i, hi=i + 1, seed=ck.seed, big=(1030, 515)[i % 2])) for i in range(980, 996 if deep else 982)]
    ck.validate(SPEC, common.run_jobs("harness.c08", jobs))
