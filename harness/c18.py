"""Marginalised parabola filter."""
from . import common
from .c12 import pick
from .filterlib import marg_job, marg_scen_job, single_job  # noqa: F401

SPEC = "T_Filter"


def run(ck):
    r = ck.model("MC_Marginal", note="filter with parabola coefficients in the state")
    deep = ck.tier == "thorough"
    sc = pick(ck, r, lambda s: True, 24)
    n = 240 if deep else 48
    jobs = [("marg_job", dict(lo=i, hi=i + 3, seed=ck.seed)) for i in range(0, n, 3)]
    jobs += [("marg_scen_job", dict(scens=sc[i:i + 4])) for i in range(0, len(sc), 4)]
    jobs += [("single_job", dict(job="marg_job", lo=i, hi=i + 4, seed=ck.seed)) for i in range(0, n // 2, 4)]
    jobs += [("marg_job", dict(lo=i, hi=i + 1, seed=ck.seed, long=(70, 140, 257, 1030)[i % 4])) for i in range(16 if deep else 3)]
    ck.validate(SPEC, common.run_jobs("harness.c18", jobs))
