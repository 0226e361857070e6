"""Progress bar of a scan."""
from . import common
from .progresslib import progress_job  # noqa: F401

SPEC = "T_Progress"


def run(ck):
    ck.model("MC_ProgressBar", note="the update rule refines the abstract bar and terminates, N = 1..40, cap 6")
    ck.model("MC_ProgressBar", cfg="MC_ProgressBarLarge", note="the same with the cap of the code, N up to 3333")
    deep = ck.tier == "thorough"
    rng = __import__("random").Random(ck.seed)
    sizes = [1, 2, 3, 5, 10, 37, 150, 999, 1000, 1001, 1500, 1999, 2000, 2001, 2500, 3001, 3333, 5432]
    if deep:
        sizes += list(range(4, 60)) + [rng.randint(1001, 12000) for _ in range(60)]
    else:
        sizes += [rng.randint(4, 60) for _ in range(4)] + [rng.randint(1001, 6000) for _ in range(4)]
    kinds, hows = ["index", "tuple", "pytree", "random"], ["plain", "jit", "vmap"]
    cases = [(i, n, kinds[i % 4], hows[(i // 2) % 3]) for i, n in enumerate(sizes + [7] * 12)]
    cases = [(i, n, kinds[(i - len(sizes)) // 3] if i >= len(sizes) else k, hows[i % 3] if i >= len(sizes) else h)
             for i, n, k, h in cases]
    jobs = [("progress_job", dict(cases=cases[j::24], seed=ck.seed)) for j in range(min(24, len(cases)))]
    ck.validate(SPEC, common.run_jobs("harness.c19", jobs))
