"""Filter core."""
from . import common
from .filterlib import core32_job, core_job, given_job, single_job, step_job  # noqa: F401

SPEC = "T_Filter"


def run(ck):
    ck.model("MC_GaussFilter", note="filtering agrees with conditioning the joint law of all observations")
    deep = ck.tier == "thorough"
    n = 320 if deep else 64
    jobs = [(j, dict(lo=i, hi=i + 4, seed=ck.seed)) for i in range(0, n, 4) for j in ("core_job", "given_job")]
    jobs += [("step_job", dict(lo=i, hi=i + 8, seed=ck.seed)) for i in range(0, n, 8)]
    jobs += [("core32_job", dict(lo=i, hi=i + 4, seed=ck.seed)) for i in range(0, n // 4, 4)]
    jobs += [("single_job", dict(job="given_job", lo=i, hi=i + 4, seed=ck.seed)) for i in range(0, n // 2, 4)]
    jobs += [("core_job", dict(lo=i, hi=i + 1, seed=ck.seed, long=(70, 140, 257, 1030)[i % 4])) for i in range(16 if deep else 4)]
    ck.validate(SPEC, common.run_jobs("harness.c10", jobs))
