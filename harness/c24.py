"""Reference solutions along the path of the solver."""
from . import common
from .pathwise import path_job  # noqa: F401

SPEC = "T_Pathwise"


def run(ck):
    ck.model("MC_Pathwise", note="fine run, coarse run and cell by cell run along all small paths; the coarse path is a refinement mapping")
    deep = ck.tier == "thorough"
    n = 320 if deep else 64
    jobs = [("path_job", dict(lo=i, hi=i + 4, seed=ck.seed)) for i in range(0, n, 4)]
    jobs += [("path_job", dict(lo=i, hi=i + 1, seed=ck.seed, big=True)) for i in range(12 if deep else 4)]
    ck.validate(SPEC, common.run_jobs("harness.c24", jobs))
