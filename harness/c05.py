"""The Brownian parabola."""
from . import common
from .parabolalib import eval_job, law_job  # noqa: F401

SPEC = "T_Parabola"


def run(ck):
    ck.model("MC_Parabola", note="increment and time integral of parabolas")
    deep = ck.tier == "thorough"
    n = 64 if deep else 16
    jobs = [("law_job", dict(src="parabola", d=d, dt=dt, N=1, seed=ck.seed, n=1000000 if deep else 200000))
            for d, dt in [(1, 0.25), (3, 2.0), (2, 0.01), (8, 1 / 3), (1, 1e-10), (2, 400.0), (24, 0.5)]]
    jobs += [("eval_job", dict(src=src, lo=i, hi=i + 2, seed=ck.seed)) for src in ["parabola", "path", "fine"]
             for i in range(0, n if src == "parabola" else n // 4, 2)]
    ck.validate(SPEC, common.run_jobs("harness.c05", jobs))
