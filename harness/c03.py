from .driverlib import giant_job, noise_job, random_job, scen_job  # noqa: F401
from . import driverlib

SPEC = "T_SdeDriver"
WANT = "C03"


def run(ck):
    r = ck.model("MC_SdeDriver", note="key tree: no key consumed twice")
    extra = [("noise_job", dict(names=[m], seed=ck.seed * 100 + s)) for m in driverlib.METHODS
             for s in range(3 if ck.tier == "thorough" else 1)]
    # long runs: noise repeating with a long period
    extra += [("noise_job", dict(names=[m], seed=ck.seed * 100 + 50, N=1100, delta=0.0078125))
              for m in ("em", "diag15", "hypo15", "ekf0", "ekf1_2", "ssm0", "parabola", "fine")]
    extra += [("noise_job", dict(names=[m], seed=ck.seed * 100 + 60, N=5, d=d)) for d in (1, 5)
              for m in driverlib.METHODS if m != "hypo15"]
    ck.validate(SPEC, driverlib.collect(r, WANT, ck, extra))
