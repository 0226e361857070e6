"""Whole runs."""
from . import common
from .driverlib import scenarios
from .fields import seeded
from .runlib import keyed_job, long_job, run_job, scen_job  # noqa: F401

SPEC = "T_Run"


def run(ck):
    r = ck.model("MC_Run", note="composed runs: Brownian path followed, uncertainty added up, mixture and fresh means")
    deep = ck.tier == "thorough"
    sc = list(enumerate(scenarios(r.out)))
    seeded("run", ck.seed).shuffle(sc)
    sc = sc if deep else sc[:32]
    jobs = [("scen_job", dict(scens=sc[i::16], seed=ck.seed)) for i in range(16)]
    n = 420 if deep else 84
    jobs += [("run_job", dict(lo=i, hi=i + 4, seed=ck.seed)) for i in range(0, n, 4)]
    n = 84 if deep else 21
    jobs += [("long_job", dict(lo=i, hi=i + 1, seed=ck.seed)) for i in range(n)]
    k = 36 if deep else 12
    jobs += [("keyed_job", dict(lo=i, hi=i + 1, seed=ck.seed, steps=120 if deep else 50)) for i in range(k)]
    ck.validate(SPEC, common.run_jobs("harness.c23", jobs))
