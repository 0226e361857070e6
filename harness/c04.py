"""Ito / Stratonovich conversion."""
import inspect

import numpy as np

from . import common
from . import fields as F
from .common import Trace, enc, q, q_to_float
from .driverlib import scenarios

SPEC = "T_ItoStrat"


def trace(tid, drift, sigma, calc, chain, points, jit=False):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ito_stratonovich import to_ito, to_stratonovich
    try:  # an internal function, judged where it is the one known here
        from bayesian_sde_solver.ito_stratonovich import drift_correction
        known = list(inspect.signature(drift_correction).parameters) == ["diffusion", "t", "x"]
    except ImportError:
        known = False
    d = len(drift)
    tr = Trace(tid, "conversion", drift=F.enc_field(drift), sigma=F.enc_mfield(sigma), tol=q(1e-10))
    dr, sg = F.fn(drift), F.mfn(sigma)
    start = calc
    w = jax.jit if jit else (lambda f: f)

    def evals(dr, sg):
        for k, (x, t) in enumerate(points):
            v = tr.attempt(lambda: np.asarray(w(dr)(jnp.asarray(x), t)))
            g = None if v is None else tr.attempt(lambda: np.asarray(w(sg)(jnp.asarray(x), t)))
            if g is None:
                return False
            J, Jt = [], []
            if k == 0:  # the drift is itself to be differentiated (EKF1, exact second derivatives)
                def jac():
                    a = jnp.asarray(x), jnp.asarray(float(t))
                    return np.asarray(w(jax.jacfwd(dr, 0))(*a)), np.asarray(w(jax.jacfwd(dr, 1))(*a))
                r = tr.attempt(jac)
                if r is None:
                    return False
                if r[0].shape != (d, d) or r[1].shape != (d,):
                    tr.add("Raised", what="shape of the derivative")
                    return False
                J, Jt = enc(r[0]), enc(r[1])
            tr.add("Eval", x=enc(x), t=q(t), v=enc(v), sg=enc(g), J=J, Jt=Jt)
        return True

    for x, t in points if known else []:
        v = tr.attempt(lambda: np.asarray(drift_correction(sg, t, jnp.asarray(x))))
        if v is None:
            return tr
        tr.add("Correction", x=enc(x), t=q(t), v=enc(v))
    for _ in range(chain):
        op = to_ito if calc == "strat" else to_stratonovich
        r = tr.attempt(lambda: op(dr, sg))
        if r is None:
            return tr
        dr, sg = r
        calc = "ito" if calc == "strat" else "strat"
        tr.add("Convert", op="to_ito" if calc == "ito" else "to_stratonovich")
        if calc == start:
            tr.add("Back")
        if not evals(dr, sg):
            return tr
        # further conversions do not undo the round trip marker: one chain of two is enough
        if calc == start:
            break
    return tr


def scen_job(scens):
    return [trace(f"mc{i}", F.dec_field(s["drift"]), F.dec_mfield(s["sigma"]), s["calc"], 2,
                  [([1.0, -2.0], 1.0), ([0.5, 3.0], 2.0)]) for i, s in scens]


def random_job(lo, hi, seed):
    out = []
    for i in range(lo, hi):
        rng = F.seeded("c04", seed, i)
        d, m = rng.choice([(1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (1, 3), (3, 1), (4, 2), (4, 4), (5, 3)])
        drift = F.rnd_field(rng, d)
        sc = rng.choice([1.0, 1.0, 40.0, 1 / 64])
        sigma = F.rnd_sigma(rng, d, m, deg=3, tdeg=2, terms=3, scale=sc)
        pts = [(F.rnd_vec(rng, d, rng.choice([2.0, 2.0, 16.0])), rng.choice([0.0, 1.0, 0.25, 3.5, 12.0, -1.5])) for _ in range(2)]
        out.append(trace(f"r{i}", drift, sigma, rng.choice(["ito", "strat"]), 2, pts, jit=i % 4 == 1))
    return out


def run(ck):
    r = ck.model("MC_ItoStrat", note="conversions preserve the generator; round trip; additive noise")
    ck.model("MC_Rat", note="BigInteger evaluation agrees with the TLA+ definition of rational arithmetic")
    deep = ck.tier == "thorough"
    sc = list(enumerate(scenarios(r.out)))
    F.seeded("c04s", ck.seed).shuffle(sc)
    if not deep:
        sc = sc[:64]
    n = 240 if deep else 48
    jobs = [("scen_job", dict(scens=sc[i::8])) for i in range(8)]
    jobs += [("random_job", dict(lo=i, hi=i + 6, seed=ck.seed)) for i in range(0, n, 6)]
    ck.validate(SPEC, common.run_jobs("harness.c04", jobs))
