"""Benchmark problems."""
from . import common
from .benchlib import PROBLEMS, linear_job, linear_law_job, moments_job, variant_job  # noqa: F401

SPEC = "T_Benchmarks"


def run(ck):
    ck.model("MC_Benchmarks", note="moment series against closed forms (OU, GBM, IBM, CIR)")
    deep = ck.tier == "thorough"
    rng = __import__("random").Random(ck.seed)
    ts = [0.0, 0.01, 0.1, 0.3, 0.7] + [round(rng.uniform(0.02, 1.2), 3) for _ in range(12 if deep else 2)]
    jobs = [("moments_job", dict(name=n, seed=ck.seed, ts=ts, points=20 if deep else 6)) for n in PROBLEMS]
    jobs += [("variant_job", dict(name=a, other=b, seed=ck.seed, points=30 if deep else 8))
             for a, b in (("fhn", "square_matrix_fhn"), ("ibm", "square_matrix_ibm"))]
    jobs += [("linear_job", dict(lo=i, hi=i + 5, seed=ck.seed)) for i in range(0, 120 if deep else 25, 5)]
    jobs += [("linear_law_job", dict(d=d, seed=ck.seed, n=200000 if deep else 40000)) for d in (1, 2, 3)]
    ck.validate(SPEC, common.run_jobs("harness.c20", jobs))
