from .driverlib import giant_job, random_job, scen_job  # noqa: F401
from . import driverlib

SPEC = "T_SdeDriver"
WANT = "C02"


def run(ck, want=WANT):
    r = ck.model("MC_SdeDriver", note="grid, chaining, absolute time, key tree")
    ck.validate(SPEC, driverlib.collect(r, want, ck))
