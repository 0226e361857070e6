"""Square-root filters against standard ones."""
from . import common
from .filterlib import core_pair_job, single_job, solver_pair_job, step_job  # noqa: F401

SPEC = "T_Filter"


def run(ck):
    ck.model("MC_GaussFilter", note="covariances stay positive semi-definite, also from singular ones")
    deep = ck.tier == "thorough"
    n = 240 if deep else 40
    jobs = [("core_pair_job", dict(lo=i, hi=i + 4, seed=ck.seed)) for i in range(0, n, 4)]
    jobs += [("solver_pair_job", dict(lo=i, hi=i + 4, seed=ck.seed)) for i in range(0, 2 * n, 4)]
    jobs += [("step_job", dict(lo=i, hi=i + 8, seed=ck.seed, sqrt=True)) for i in range(0, n, 8)]
    jobs += [("single_job", dict(job="solver_pair_job", lo=i, hi=i + 4, seed=ck.seed)) for i in range(0, n // 2, 4)]
    jobs += [("single_job", dict(job="core_pair_job", lo=i, hi=i + 4, seed=ck.seed)) for i in range(0, n // 2, 4)]
    ck.validate(SPEC, common.run_jobs("harness.c11", jobs))
