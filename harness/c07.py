"""Euler-Maruyama."""
from . import common
from . import fields as F
from .driverlib import scenarios
from .schemelib import em_job, em_law_job, em_scen_job  # noqa: F401

SPEC = "T_Schemes"


def run(ck):
    r = ck.model("MC_Schemes", note="paths of every scheme under a finite noise law")
    deep = ck.tier == "thorough"
    sc = list(enumerate(scenarios(r.out)))
    F.seeded("c07s", ck.seed).shuffle(sc)
    sc = sc if deep else sc[:32]
    n = 160 if deep else 32
    jobs = [("em_law_job", dict(seed=ck.seed, n=200000 if deep else 100000, cases=[(2, 0.25, 2), (1, 0.01, 3), (7, 1 / 3, 1), (1, 1e-12, 2), (2, 1e-7, 1), (2, 40.0, 1)]))]
    jobs += [("em_scen_job", dict(scens=sc[i::8])) for i in range(8)]
    jobs += [("em_job", dict(lo=i, hi=i + 4, seed=ck.seed)) for i in range(0, n, 4)]
    jobs += [("em_job", dict(lo=900 + i, hi=901 + i, seed=ck.seed, big=True)) for i in range(0, 24 if deep else 4)]
    jobs += [("em_job", dict(lo=i, hi=i + 1, seed=ck.seed, big=(1030, 515)[i % 2])) for i in range(980, 996 if deep else 982)]
    ck.validate(SPEC, common.run_jobs("harness.c07", jobs))
