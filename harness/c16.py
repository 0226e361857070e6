"""Integrated Brownian motion and Ornstein-Uhlenbeck priors."""
from . import common
from .priorlib import ioup_job  # noqa: F401

SPEC = "T_Priors"


def run(ck):
    ck.model("MC_Priors", note="discretisations of linear SDEs form a semigroup; closed forms")
    deep = ck.tier == "thorough"
    n = 900 if deep else 180
    ck.validate(SPEC, common.run_jobs("harness.c16", [("ioup_job", dict(lo=i, hi=i + 15, seed=ck.seed))
                                                     for i in range(0, n, 15)]))
