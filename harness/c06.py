"""Fine paths and the parabolas that summarise them."""
from . import common
from .parabolalib import law_job, summary_job  # noqa: F401

SPEC = "T_Parabola"


def run(ck):
    ck.model("MC_Parabola", note="all fine paths of at most four pieces: the summary preserves increment and integral")
    deep = ck.tier == "thorough"
    n = 160 if deep else 32
    jobs = [("law_job", dict(src=src, d=d, dt=dt, N=N, seed=ck.seed, n=400000 if deep else 100000))
            for src in ["path", "fine"] for d, dt, N in [(2, 0.25, 2), (1, 2.0, 4), (6, 1 / 3, 1), (1, 1e-8, 3), (1, 50.0, 2)]]
    jobs += [("summary_job", dict(src=src, lo=i, hi=i + 4, seed=ck.seed)) for src in ["path", "fine"]
             for i in range(0, n, 4)]
    jobs += [("summary_job", dict(src=src, lo=i, hi=i + 4, seed=ck.seed, big=True)) for src in ["path", "fine"]
             for i in range(0, 16 if deep else 4, 4)]
    ck.validate(SPEC, common.run_jobs("harness.c06", jobs))
