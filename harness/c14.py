"""Laws of sampled solutions."""
from . import common
from .filterlib import law_job  # noqa: F401

SPEC = "T_Filter"


def run(ck):
    ck.model("MC_Marginal", note="filter with parabola coefficients in the state")
    deep = ck.tier == "thorough"
    n = 100000 if deep else 40000
    jobs = []
    for kind in ("fresh", "mix", "marg"):
        for sqrt in (False, True):
            for ekf0 in (False, True):
                for d in (1, 2, 3, 4) if deep else (1, 2, 3):
                    for r in range(3 if deep else 1):
                        i = len(jobs)
                        jobs.append(("law_job", dict(kind=kind, sqrt=sqrt, ekf0=ekf0, d=d, i=i, seed=ck.seed, n=n,
                                                     zero=i % 3 == 0, full=kind == "mix" and i % 2 == 0)))
    for kind in ("fresh", "mix", "marg"):
        for sqrt in (False, True):
            for ekf0 in (False, True):
                for small in (1, 2):
                    d = 1 + (small + ekf0) % 2
                    jobs.append(("law_job", dict(kind=kind, sqrt=sqrt, ekf0=ekf0, d=d, i=len(jobs), seed=ck.seed, n=n,
                                                 small=small)))
    ck.validate(SPEC, common.run_jobs("harness.c14", jobs))
