"""Hypoelliptic order 1.5 scheme."""
from . import common
from .schemelib import hypo_job  # noqa: F401

SPEC = "T_Schemes"


def run(ck):
    ck.model("MC_Schemes", note="conditional mean of the order 1.5 step")
    deep = ck.tier == "thorough"
    n = 96 if deep else 24
    jobs = [("hypo_job", dict(lo=i, hi=i + 3, seed=ck.seed, n=200000 if deep else 40000, big=deep))
            for i in range(0, n, 3)]
    ck.validate(SPEC, common.run_jobs("harness.c09", jobs))
