"""Matern and general linear priors, padding and products."""
from . import common
from .priorlib import combine_job, lti_job, matern_job  # noqa: F401

SPEC = "T_Priors"


def run(ck):
    ck.model("MC_Priors", note="discretisations of linear SDEs form a semigroup; closed forms")
    deep = ck.tier == "thorough"
    n = 480 if deep else 96
    jobs = [(f, dict(lo=i, hi=i + 6, seed=ck.seed)) for i in range(0, n, 6) for f in ("lti_job", "matern_job")]
    jobs += [("combine_job", dict(lo=i, hi=i + 12, seed=ck.seed)) for i in range(0, n, 12)]
    ck.validate(SPEC, common.run_jobs("harness.c17", jobs))
