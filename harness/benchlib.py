"""Recorded benchmark problems (C20)."""
from itertools import combinations_with_replacement
from math import factorial

import numpy as np

from . import fields as F
from .common import Trace, enc, q
from .filterlib import shaped
from .schemelib import moments

FULL = 99


def taylor(f, x0, deg):
    """Polynomials (in the deviation from x0) of the array valued f, degree by degree with JAX."""
    import jax
    import jax.numpy as jnp
    d = len(x0)
    ders, g = [], f
    for _ in range(deg + 1):
        ders.append(np.asarray(g(jnp.asarray(x0)), dtype=float))
        g = jax.jacfwd(g)
    shape = ders[0].shape
    out = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        p = []
        for k in range(deg + 1):
            for v in combinations_with_replacement(range(d), k):
                e = [0] * (d + 1)
                for i in v:
                    e[i] += 1
                c = ders[k][ix + v] / np.prod([factorial(n) for n in e])
                if abs(c) > 1e-13:
                    p.append(dict(c=q(float(c)), e=e))
        out[ix] = p
    return out.tolist()


# name -> (drift takes time, [(kind, index, orders, tolerance)])
PROBLEMS = dict(
    fhn=(True, [("mean", 3, 2, 1e-9), ("cov", 4, 3, 1e-9)]),
    square_matrix_fhn=(True, [("mean", 3, 2, 1e-9), ("cov", 4, 3, 1e-9)]),
    ibm=(True, [("cov", 3, FULL, 1e-9)]),
    square_matrix_ibm=(True, [("cov", 3, FULL, 1e-9)]),
    double_ibm=(True, [("cov", 3, FULL, 1e-9)]),
    synaptic_conductance_reduced=(False, [("mean", 3, 2, 1e-9)]),
    synaptic_conductance=(False, [("mean", 3, 2, 1e-9), ("var0", 4, 3, 1e-9)]),
    harmonic_oscillator_square=(False, [("mean", 3, FULL, 1e-9), ("cov", 4, FULL, 1e-5), ("cov", 5, 3, 1e-9)]),
    harmonic_oscillator=(True, [("mean", 3, FULL, 1e-9), ("cov", 4, FULL, 1e-5)]),
    gbm=(True, [("mean", 3, FULL, 1e-9), ("var", 4, FULL, 1e-9)]),
)


def get(name):
    from bayesian_sde_solver.utils import ivp
    return getattr(ivp, name)()


def timed(f, takes):
    return (lambda x, t: f(x, t)) if takes else (lambda x, t: f(x))


def moments_job(name, seed, ts, points):
    import jax
    import jax.numpy as jnp
    takes, what = PROBLEMS[name]
    rng = F.seeded("ivp", name, seed)
    tr = Trace(f"ivp-{name}", "moments", tol=q(1e-9), x0=[], b=[], av=[], m=0)
    r = tr.attempt(lambda: get(name))
    if r is None:
        return [tr]
    x0 = np.asarray(r[0], dtype=float)
    d = len(x0)
    b, sg = timed(r[1], takes), timed(r[2], takes)
    gram = lambda x: sg(x, 0.0) @ sg(x, 0.0).T  # noqa: E731
    deg = 3
    # square roots are differentiated away from zero
    p = tr.attempt(lambda: (taylor(lambda x: b(x, 0.0), x0, deg), taylor(gram, x0, 2)))
    if p is None:
        return [tr]
    tr["h"].update(x0=enc(x0), b=p[0], av=p[1])
    tr.add("Start", x0=enc(x0))
    for _ in range(points):
        x = x0 + np.array([rng.randint(-8, 8) / 8 for _ in range(d)]) * np.where(np.abs(x0) > 2, 2.0, 0.5)
        t = rng.choice([0.0, 0.5, 3.0])
        v = tr.attempt(lambda: (b(jnp.asarray(x), t), sg(jnp.asarray(x), t)))
        v = None if v is None else shaped(tr, v, [(d,), (d, np.asarray(v[1]).shape[-1])])
        if v is None:
            return [tr]
        tr.add("Field", x=enc(x), b=enc(v[0]), sg=enc(v[1]))
    for kind, ix, order, tol in what:
        for i, t in enumerate(ts):
            f = jax.jit(r[ix]) if i % 2 else r[ix]
            v = tr.attempt(lambda: np.asarray(f(t), dtype=float))
            if v is None:
                return [tr]
            if kind == "mean":
                tr.add("Mean", t=q(t), order=order, v=enc(np.ravel(v)), tol=q(tol))
            else:
                n = d if kind == "cov" else 1
                if kind != "cov":
                    v = np.reshape(v, (-1,))[:1].reshape(1, 1)
                if v.ndim != 2:
                    tr.add("Raised", what=f"unexpected shape {v.shape}")
                    return [tr]
                tr.add("Cov", t=q(t), orders=[[order] * n] * n, V=enc(v), tol=q(tol))
    return [tr]


def variant_job(name, other, seed, points):
    import jax.numpy as jnp
    rng = F.seeded("variant", name, seed)
    tr = Trace(f"variant-{other}", "variant", tol=q(1e-12), x0=[], b=[], av=[], m=0)
    r = tr.attempt(lambda: (get(name), get(other)))
    if r is None:
        return [tr]
    a, c = r
    for _ in range(points):
        x = jnp.asarray([rng.randint(-16, 16) / 8 for _ in range(len(a[0]))])
        t = rng.choice([0.0, 0.25, 2.0])
        v = tr.attempt(lambda: [np.atleast_1d(np.asarray(w)) for w in (
            a[0], a[1](x, t), a[2](x, t), a[-1](t), c[0], c[1](x, t), c[2](x, t), c[-1](t))])
        m = tr.attempt(lambda: [np.ravel(np.asarray(z[3](t))) for z in (a, c)])
        if v is None or m is None:
            break
        tr.add("Variant", x0=enc(v[0]), b0=enc(v[1]), sg0=enc(v[2]), V0=enc(v[3]), x1=enc(v[4]), b1=enc(v[5]),
               sg1=enc(v[6]), V1=enc(v[7]), m0=enc(m[0]), m1=enc(m[1]))
    return [tr]


def linear_job(lo, hi, seed):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.utils.ivp import random_linear_sde
    out = []
    for i in range(lo, hi):
        rng = F.seeded("linear", seed, i)
        d = rng.choice([1, 2, 3, 4])
        key = jax.random.PRNGKey(rng.randint(0, 10 ** 6))
        tr = Trace(f"linear{i}-d{d}", "linear", tol=q(1e-11), x0=[], b=[], av=[], m=0)
        out.append(tr)
        kw = dict(key=key, dim=d) if rng.random() < 0.8 or d > 1 else (dict() if rng.random() < 0.5 else dict(key=key))
        base = tr.attempt(lambda: random_linear_sde(**kw))
        if base is None:
            continue
        cols = tr.attempt(lambda: np.stack([np.asarray(base[1](e, 0.0)) for e in np.eye(d)], axis=1))
        S = tr.attempt(lambda: np.asarray(base[2](jnp.ones(d), 0.0)))
        v = None if cols is None or S is None else shaped(tr, [cols, S], [(d, d)] * 2)
        if v is None:
            continue
        M, S = v
        for c in range(4):
            s1, s2 = [np.array([[rng.randint(-8, 8) / 4 for _ in range(d)] for _ in range(d)]) for _ in range(2)]
            extra = [{}, dict(std1=jnp.asarray(s1)), dict(std2=jnp.asarray(s2)),
                     dict(std1=jnp.asarray(s1), std2=jnp.asarray(s2))][c]
            r = tr.attempt(lambda: random_linear_sde(**kw, **extra))
            x, t = np.array([rng.randint(-16, 16) / 8 for _ in range(d)]), rng.choice([0.0, 0.5, 2.0])
            v = None if r is None else tr.attempt(lambda: [r[0], r[1](jnp.asarray(x), t), r[2](jnp.asarray(x), t)])
            v = None if v is None else shaped(tr, v, [(d,), (d,), (d, d)])
            if v is None:
                break
            tr.add("Linear", x0=enc(v[0]), x=enc(x), b=enc(v[1]), sg=enc(v[2]), M=enc(M), S=enc(S),
                   std1=enc(s1 if "std1" in extra else np.eye(d)), std2=enc(s2 if "std2" in extra else np.eye(d)))
    return out


def linear_law_job(d, seed, n):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.utils.ivp import random_linear_sde
    tr = Trace(f"linlaw-d{d}", "linlaw", tol=q(1e-9), x0=[], b=[], av=[], m=2 * d * d)

    def one(k):
        _, b, sg = random_linear_sde(key=k, dim=d)
        return jnp.concatenate([jax.vmap(lambda e: b(e, 0.0))(jnp.eye(d)).ravel(), sg(jnp.ones(d), 0.0).ravel()])

    keys = jax.random.split(jax.random.PRNGKey(seed + 17 * d), n)
    r = tr.attempt(lambda: np.asarray(jax.jit(jax.vmap(one))(keys)))
    if r is not None and shaped(tr, [r], [(n, 2 * d * d)]) is not None:
        tr.add("Law", **moments(r))
    return [tr]
