"""Brownian approximations (C05, C06)."""
import numpy as np

from . import fields as F
from .common import Trace, enc, q
from .schemelib import moments


def maker(src, d, N):
    from bayesian_sde_solver.foster_polynomial import get_approx, get_approx_and_brownian, get_approx_fine
    return dict(parabola=lambda: get_approx(d), path=lambda: get_approx_and_brownian(d, N=N),
                fine=lambda: get_approx_fine(d, N=N))[src]()


def trace(tid, src, d, dt, N):
    return Trace(tid, src, src=src, d=d, dt=q(dt), n=N, tol=q(1e-9))


def evals(tr, ev, dt, c, rng, extra=()):
    import jax
    import jax.numpy as jnp
    for u in [0.0, 1.0, 0.5, rng.random()]:
        t = u * dt
        f = lambda t: ev(t, dt, *c)  # noqa: E731
        r = tr.attempt(lambda: (np.asarray(f(jnp.asarray(t))), np.asarray(jax.jacfwd(f)(jnp.asarray(t)))))
        if r is None:
            return False
        tr.add("Eval", t=q(t), dt=q(dt), c=enc([np.asarray(c[0]), np.asarray(c[1])]), v=enc(r[0]), dv=enc(r[1]))
    return True


def eval_job(src, lo, hi, seed):
    import jax
    import jax.numpy as jnp
    out = []
    for i in range(lo, hi):
        rng = F.seeded("par", src, seed, i)
        d, N, dt = rng.choice([1, 2, 3, 5, 8]), rng.choice([1, 2, 5, 11]), rng.choice([0.5, 0.1, 1.0, 0.001, 3.0, 12.5, 1 / 3, 0.7239187265, 1e-6, 250.0])
        tr = trace(f"eval-{src}-{i}", src, d, dt, N)
        out.append(tr)
        m = tr.attempt(lambda: maker(src, d, N))
        if m is None:
            continue
        get, ev = m
        key = jax.random.PRNGKey(rng.randint(0, 10 ** 6))
        c = tr.attempt(lambda: get(key, dt))
        if c is None or not evals(tr, ev, dt, c, rng):
            continue
        # coefficients of the caller's choice
        c2 = (jnp.asarray(F.rnd_vec(rng, d)), jnp.asarray(F.rnd_vec(rng, d)), *c[2:])
        if not evals(tr, ev, dt, c2, rng):
            continue
        # a batch of keys and step lengths is the stack of the single draws
        keys = jax.random.split(key, 3)
        dts = jnp.asarray([dt, 2 * dt, dt])
        b = tr.attempt(lambda: [np.asarray(v) for v in get(keys, dts)])
        if b is None:
            continue
        for j in range(3):
            one = tr.attempt(lambda: [np.asarray(v) for v in get(keys[j], dts[j])])
            if one is None:
                break
            for u, v in zip(b, one):
                tr.add("Same", u=enc(u[j].ravel()), v=enc(v.ravel()))
    return out


def summary_job(src, lo, hi, seed, big=False):
    import jax
    out = []
    for i in range(lo, hi):
        rng = F.seeded("sum", src, seed, i)
        d, dt = rng.choice([1, 2, 3, 5, 8]), rng.choice([0.5, 0.1, 1.0, 0.001, 3.0, 12.5, 1 / 3, 0.7239187265, 1e-6, 250.0])
        N = rng.choice([1, 2, 3, 7, 20, 33] if not big else [100, 300, 1001, 1200])
        d = min(d, 2) if big else d
        tr = trace(f"sum-{src}-{i}{'b' if big else ''}", src, d, dt, N)
        out.append(tr)
        get = tr.attempt(lambda: maker(src, d, N)[0])
        if get is None:
            continue
        f = jax.jit(get) if i % 2 else get
        c = tr.attempt(lambda: [np.asarray(v) for v in f(jax.random.PRNGKey(rng.randint(0, 10 ** 6)), dt)])
        if c is None:
            continue
        want = [(d,), (d,), (N, d)] + ([(N, d)] if src == "fine" else [])
        if [v.shape for v in c] != want:
            tr.add("Raised", what=f"shapes {[v.shape for v in c]}, expected {want}")
            continue
        tr.add("Begin")
        for k in range(N):
            tr.add("Piece", inc=enc(c[2][k]), **(dict(h=enc(c[3][k])) if src == "fine" else {}))
        tr.add("Coarse", c=enc([c[0], c[1]]))
    return out


def law_job(src, d, dt, N, seed, n):
    import jax
    import jax.numpy as jnp
    tr = trace(f"law-{src}-{d}-{dt}-{N}", src, d, dt, N)
    get = tr.attempt(lambda: maker(src, d, N)[0])
    if get is None:
        return [tr]
    keys = jax.random.split(jax.random.PRNGKey(seed), n)
    c = tr.attempt(lambda: [np.asarray(v) for v in get(keys, dt)])
    if c is None:
        return [tr]
    law = dict(parabola="parabola", path="path", fine="parabola")[src]
    tr.add("Law", law=law, **moments(np.concatenate([c[0], c[1]], axis=1), 0.0))
    if src == "path":
        tr.add("Law", law="incs", **moments(c[2].reshape(n, -1), 0.0))
    if src == "fine":
        tr.add("Law", law="pieces", **moments(np.concatenate([c[2].reshape(n, -1), c[3].reshape(n, -1)], axis=1), 0.0))
    return [tr]
