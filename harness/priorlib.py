"""Recorded priors (C16, C17)."""
import numpy as np

from . import fields as F
from .common import Trace, enc, q, q_to_float  # noqa: F401
from .filterlib import jx, mat, shaped, spd, vec


def record(tr, r, n):
    """(xi, Q, A) as returned, or None after an event the specification refuses"""
    v = None if r is None else shaped(tr, r, [(n,), (n, n), (n, n)])
    return None if v is None else dict(xi=enc(v[0]), Q=enc(v[1]), A=enc(v[2]))


def wrap(f, how, *args):
    """f(*args) plainly, compiled, or as the second element of a batch (args are floats)"""
    import jax
    import jax.numpy as jnp
    if how == "jit":
        return jax.jit(f)(*args)
    if how == "vmap":
        out = jax.vmap(f)(*[jnp.asarray([0.5 * a + 0.3, a, a + 0.1]) for a in args])
        return jax.tree_util.tree_map(lambda x: x[1], out)
    return f(*args)


def ioup_job(lo, hi, seed):
    from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function as ioup
    import jax
    from contextlib import nullcontext
    out = []
    for i in range(lo, hi):
        rng = F.seeded("ioup", seed, i)
        theta = rng.choice([0.0, 0.0, 0.5, 1.0, 2.5, -0.75])
        sigma = rng.choice([1.0, 0.5, 2.0, 1.75])
        k, d = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6]), rng.choice([1, 2, 3, 4, 5])
        h = rng.choice([0.1, 0.25, 0.5, 1.0, 0.01, 1.5, 1e-3, 4.0])
        how, f32 = ["plain", "jit", "vmap"][i % 3], i % 5 == 4
        h, theta, sigma = [float(np.float32(v)) if f32 else v for v in (h, theta, sigma)]
        tr = Trace(f"ioup{i}-q{k}-d{d}-{how}" + ("-f32" if f32 else ""), "ioup", fam="ioup", theta=q(theta),
                   sigma=q(sigma), q=k, h=q(h), d=d, tol=q(1e-5 if f32 else 1e-10 if abs(theta) * h <= 5 else 1e-6), qtol=q(1e-5 if f32 else 1e-9))
        out.append(tr)
        with (jax.experimental.disable_x64() if f32 else nullcontext()):
            r = tr.attempt(lambda: wrap(lambda t, s, hh: ioup(t, s, k, hh, d), how, theta, sigma, h))
            one = record(tr, r, d * (k + 1))
            if one is None:
                continue
            tr.add("Value", p=one)
            if theta == 0.0:
                r = tr.attempt(lambda: wrap(lambda t, s, hh: ioup(t, s, k, hh, d), how, theta, sigma, 2 * h))
                two = record(tr, r, d * (k + 1))
                if two is not None:
                    tr.add("Compose", one=one, two=two)
    return out


def lti_job(lo, hi, seed):
    from bayesian_sde_solver.ode_solvers.probnum import transition_function as lti
    import jax.numpy as jnp
    out = []
    for i in range(lo, hi):
        rng = F.seeded("lti", seed, i)
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        m = rng.choice([1, n, 2])
        kind = rng.choice(["full", "full", "stable", "nilpotent", "rotation", "zero"])
        Fm = mat(rng, n, n, 1.5)
        if kind == "stable":
            Fm = -spd(rng, n)
        elif kind == "nilpotent":
            Fm = np.triu(Fm, 1)
        elif kind == "rotation":
            Fm = Fm - Fm.T
        elif kind == "zero":
            Fm = np.zeros((n, n))
        L = mat(rng, n, m, rng.choice([1.0, 2.0]))
        if rng.random() < 0.3:
            L[: n // 2] = 0.0
        u = vec(rng, n, 2.0) if rng.random() < 0.7 else np.zeros(n)
        h = rng.choice([0.1, 0.5, 1.0, 0.25, 2.0, 0.01])
        how = ["plain", "jit"][i % 2]
        # the quadrature has 10000 points: its error grows with the square of the step in natural time
        quad = max(2e-6, 5e-8 * (h * np.abs(Fm).sum(1).max()) ** 2)
        tr = Trace(f"lti{i}-{kind}-{n}x{m}-{how}", "lti", fam="lti", F=enc(Fm), u=enc(u), L=enc(L), h=q(h), d=1,
                   tol=q(quad), qtol=q(quad))
        out.append(tr)
        r = tr.attempt(lambda: wrap(lambda hh: lti(jx(Fm), jx(u), jx(L), hh), how, h))
        one = record(tr, r, n)
        if one is None:
            continue
        tr.add("Value", p=one)
        if i % 3 == 0:
            two = record(tr, tr.attempt(lambda: lti(jnp.asarray(Fm), jnp.asarray(u), jnp.asarray(L), 2 * h)), n)
            if two is not None:
                tr.add("Compose", one=one, two=two)
    return out


def matern_job(lo, hi, seed):
    from bayesian_sde_solver.ode_solvers.probnum import matern_transition_function as matern
    out = []
    for i in range(lo, hi):
        rng = F.seeded("matern", seed, i)
        k, d = [1, 0, 1, 2, 1, 3, 4][i % 7], rng.choice([1, 2, 3, 4])
        mag, ln = rng.choice([1.0, 0.5, 2.0, 3.25]), rng.choice([1.0, 0.5, 2.0, 4.0])
        h = rng.choice([0.05, 0.1, 0.25, 0.5, 1.0, 2.0] + ([0.01, 5.0] if k <= 1 else []) if k < 4 else [0.5, 1.0])
        mc = rng.choice([None, False, True])
        how = ["plain", "jit", "vmap"][i % 3] if k == 1 and not mc else ["plain", "jit"][i % 2]
        tr = Trace(f"matern{i}-k{k}-d{d}-mc{mc}-{how}", "matern", fam="matern", k=k, mag=q(mag), len=q(ln), h=q(h), d=d,
                   # JAX's exponential loses digits beyond norm 5
                   tol=q(1e-9 if (2 * k + 1) ** 0.5 * h <= 5 * ln else 1e-6), qtol=q(max(2e-6, 2e-7 * (2 * k + 1) * (h / ln) ** 2)))
        out.append(tr)
        kw = {} if mc is None else dict(mc=mc)
        f = lambda a, b, hh: matern(k, a, b, hh, d, **kw)  # noqa: E731
        one = record(tr, tr.attempt(lambda: wrap(f, how, mag, ln, h)), d * (k + 1))
        if one is None:
            continue
        tr.add("Value", p=one)
        if i % 4 == 0:
            two = record(tr, tr.attempt(lambda: f(mag, ln, 2 * h)), d * (k + 1))
            if two is not None:
                tr.add("Compose", one=one, two=two)
    return out


def rnd_prior(rng, n):
    return (jx(vec(rng, n)), jx(spd(rng, n)), jx(mat(rng, n, n)))


def combine_job(lo, hi, seed):
    from bayesian_sde_solver.ode_solvers.probnum import get_independently_factorized_prior, pad_prior, \
        IOUP_transition_function as ioup, matern_transition_function as matern
    out = []
    for i in range(lo, hi):
        rng = F.seeded("combine", seed, i)
        tr = Trace(f"combine{i}", "combine", fam="none", tol=q(1e-12), qtol=q(1e-12))
        out.append(tr)

        def one():
            c = rng.random()
            if c < 0.2:
                return 2, tr.attempt(lambda: ioup(0.5, 1.0, 1, 0.25, 1))
            if c < 0.4:
                return 2, tr.attempt(lambda: matern(1, 1.0, 2.0, 0.25, 1))
            n = rng.choice([1, 2, 3])
            return n, rnd_prior(rng, n)

        n, p = one()
        if p is None:
            continue
        qq = n + rng.choice([0, 1, 3])  # from n to qq + 1 components
        a, b = record(tr, p, n), record(tr, tr.attempt(lambda: pad_prior(p, qq)), qq + 1)
        if a is None or b is None:
            continue
        tr.add("Pad", p=a, q=qq, out=b)
        ps = [one() for _ in range(rng.choice([1, 2, 3, 4]))]
        if any(x[1] is None for x in ps):
            continue
        if rng.random() < 0.5:  # padded priors side by side, as the filters take them
            z = max(x[0] for x in ps)
            ps = [(z + 1, tr.attempt(lambda x=x: pad_prior(x[1], z))) for x in ps]
        tot = sum(x[0] for x in ps)
        rec = [record(tr, x[1], x[0]) for x in ps]
        if any(r is None for r in rec):
            continue
        arg = [x[1] for x in ps]
        o = record(tr, tr.attempt(lambda: get_independently_factorized_prior(arg if i % 2 else tuple(arg))), tot)
        if o is not None:
            tr.add("Product", ps=rec, out=o)
    return out
