"""Fresh-prior EKF0 and EKF1."""
from . import common
from . import fields as F
from .driverlib import scenarios
from .filterlib import fresh_job, fresh_scen_job, single_job  # noqa: F401

SPEC = "T_Filter"


def pick(ck, r, keep, n):
    sc = [s for s in scenarios(r.out) if keep(s)]
    sc = list(enumerate(sc))
    F.seeded("pick", ck.prop, ck.seed).shuffle(sc)
    return sc if ck.tier == "thorough" else sc[:n]


def run(ck):
    r = ck.model("MC_OdeFilter", note="Gaussian ODE filters on small problems, with ghosts")
    deep = ck.tier == "thorough"
    sc = pick(ck, r, lambda s: not s["mix"], 40)
    n = 320 if deep else 72
    jobs = [("fresh_job", dict(lo=i, hi=i + 4, seed=ck.seed)) for i in range(0, n, 4)]
    jobs += [("fresh_scen_job", dict(scens=sc[i:i + 4])) for i in range(0, len(sc), 4)]
    jobs += [("single_job", dict(job="fresh_job", lo=i, hi=i + 4, seed=ck.seed)) for i in range(0, n // 2, 4)]
    jobs += [("fresh_job", dict(lo=i, hi=i + 1, seed=ck.seed, long=(70, 140, 257, 1030)[i % 4])) for i in range(16 if deep else 4)]
    ck.validate(SPEC, common.run_jobs("harness.c12", jobs))
