"""Coordinate layout."""
from . import common
from .filterlib import coord_job, layout_job  # noqa: F401

SPEC = "T_Filter"


def run(ck):
    ck.model("MC_OdeFilter", note="uncoupled problems decouple; permutations")
    ck.model("MC_Marginal", note="the same with parabola coefficients in the state")
    deep = ck.tier == "thorough"
    n = 240 if deep else 60
    jobs = [("coord_job", dict(lo=i, hi=i + 3, seed=ck.seed)) for i in range(0, n, 3)]
    jobs += [("layout_job", dict(lo=i, hi=i + 8, seed=ck.seed)) for i in range(0, n, 8)]
    ck.validate(SPEC, common.run_jobs("harness.c22", jobs))
