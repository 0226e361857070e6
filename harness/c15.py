"""Uncertainty calibration."""
from . import common
from .filterlib import innov_job, mle_job  # noqa: F401

SPEC = "T_Filter"


def run(ck):
    ck.model("MC_OdeFilter", note="maximum likelihood scale and its equivariance")
    deep = ck.tier == "thorough"
    n = 320 if deep else 64
    jobs = [("mle_job", dict(lo=i, hi=i + 8, seed=ck.seed)) for i in range(0, n, 8)]
    jobs += [("innov_job", dict(lo=i, hi=i + 4, seed=ck.seed)) for i in range(0, n, 4)]
    ck.validate(SPEC, common.run_jobs("harness.c15", jobs))
