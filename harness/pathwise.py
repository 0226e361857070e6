"""Recorded runs of the driver with the reference solutions along the increments it reports (C24)."""
import numpy as np

from . import fields as F
from .common import Trace, enc, q
from .filterlib import shaped


def problem(rng, big):
    d, m = rng.choice([(1, 1), (2, 2), (2, 1), (1, 2), (3, 2), (2, 3)])
    n = rng.choice([1, 2, 3, 7, 10, 16] if not big else [64, 100])
    N = rng.choice([1, 2, 3, 5] if not big else [3, 12])
    delta = rng.choice([0.5, 0.25, 0.1, 1 / 3, 0.0625, 1.0, 0.013] if not big else [0.1, 0.0625])
    additive = rng.random() < 0.4
    if additive:
        b = [[] for _ in range(d)]
        sg = F.const_matrix([[rng.randint(-8, 8) / 8 for _ in range(m)] for _ in range(d)], d)
    elif big or N * delta > 0.7:  # at most linear growth: no blow up
        b, sg = F.rnd_field(rng, d, deg=1, tdeg=1, scale=0.5), F.rnd_sigma(rng, d, m, deg=1, tdeg=1, terms=2, scale=0.4)
    else:
        b, sg = F.rnd_field(rng, d, tdeg=2, scale=0.4), F.rnd_sigma(rng, d, m, deg=1, tdeg=1, terms=2, scale=0.4)
    return dict(d=d, m=m, n=n, N=N, delta=delta, additive=additive, b=b, sg=sg, x0=F.rnd_vec(rng, d),
                src=rng.choice(["path", "fine"]), std=rng.choice([True, False]))


def approx(c):
    """the approximations as the user writes them: partially applied makers"""
    from functools import partial
    from bayesian_sde_solver.foster_polynomial import get_approx_and_brownian, get_approx_fine
    mk = get_approx_and_brownian if c["src"] == "path" else get_approx_fine
    return partial(mk, N=c["n"], dim=c["m"])


def ode(rng, c):
    """(integrator, initial state, position of the state)"""
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers import ekf0, ekf0_2, ekf1, ekf1_2, euler
    x0 = jnp.asarray(c["x0"])
    which = rng.choice(["ekf0", "ekf1", "ekf0_2", "ekf1_2"] + ([] if c["additive"] else ["euler"]))
    M = rng.choice([1, 2])
    if which == "euler":
        return (lambda key, init, vector_field, T: euler(init, vector_field, T / M, M)), x0, None
    sv = dict(ekf0=ekf0, ekf1=ekf1, ekf0_2=ekf0_2, ekf1_2=ekf1_2)[which]
    sqrt = rng.random() < 0.5
    f = lambda key, init, vector_field, T: sv(None, init=init, vector_field=vector_field, h=T / M, N=M, sqrt=sqrt)  # noqa: E731
    return (f, (x0, x0, jnp.zeros((c["d"], c["d"]))), 0) if which.endswith("_2") else (f, x0, None)


def path_job(lo, hi, seed, big=False):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise as em
    out = []
    for i in range(lo, hi):
        rng = F.seeded("pathwise", seed, i, big)
        c = problem(rng, big)
        d, m, n, N, delta = c["d"], c["m"], c["n"], c["N"], c["delta"]
        how = ["plain", "vmap", "jit"][i % 3]
        tr = Trace(f"pair{i}-{c['src']}-{how}{'-big' if big else ''}", "pathwise", b=F.enc_field(c["b"]), sg=F.enc_mfield(c["sg"]),
                   x0=enc(c["x0"]), delta=q(delta), n=n, N=N, m=m, src=c["src"], additive=c["additive"], tol=q(1e-9))
        out.append(tr)
        b, sg = F.fn(c["b"]), F.mfn(c["sg"])
        key = jax.random.PRNGKey(rng.randint(0, 10 ** 6))
        integ, init, pos = ode(rng, c)
        x0 = jnp.asarray(c["x0"])
        f = delta / n
        # the increments of the fine parabolas are Brownian increments: scaled when declared standard
        std = True if c["src"] == "path" else c["std"]

        def scaled(incs):
            return incs / f ** 0.5 if std and c["src"] == "fine" else incs

        def along(incs):
            return em(scaled(incs), init=x0, drift=b, sigma=sg, h=f, N=N * n, standard=std)

        def cells(incs):
            """the run of the reference cell by cell, as in a driver that carries it along"""
            def body(y, inp):
                inc, t = inp
                _, path = em(scaled(inc), init=y, drift=lambda z, r: b(z, r + t), sigma=lambda z, r: sg(z, r + t),
                             h=f, N=n, standard=std)
                return path[-1], path[-1]
            return jax.lax.scan(body, x0, (incs, jnp.arange(N) * delta))[1]

        def coarse(w):
            return em(w, init=x0, drift=b, sigma=sg, h=delta, N=N)

        def everything(k):
            ts, xs, *co = sde_solver(k, b, sg, init, approx(c), delta, N, integ)
            xs = xs if pos is None else xs[pos]
            incs = co[2]
            w = incs.sum(1) * (f ** 0.5 if c["src"] == "path" else 1.0)
            return ts, xs, co, along(incs.reshape((N * n, m))), cells(incs), coarse(w)

        def go():
            if how == "vmap":
                r = jax.vmap(everything)(jnp.stack([jax.random.PRNGKey(3), key]))
                return jax.tree_util.tree_map(lambda v: v[1], r)
            return (jax.jit(everything) if how == "jit" else everything)(key)
        r = tr.attempt(go)
        r = None if r is None else tr.attempt(lambda: jax.tree_util.tree_map(np.asarray, r))
        if r is None:
            continue
        ts, xs, co, (fts, fx), last, (cts, cx) = r
        want = [(N + 1,), (N + 1, d), (N, m), (N, m), (N, n, m), (N * n + 1,), (N * n + 1, d), (N, d), (N + 1,), (N + 1, d)]
        if shaped(tr, [ts, xs, co[0], co[1], co[2], fts, fx, last, cts, cx], want) is None:
            continue
        if c["src"] == "fine" and shaped(tr, [co[3]], [(N, n, m)]) is None:
            continue
        tr.add("Start", ts=enc(ts), fts=enc(fts), cts=enc(cts), len=len(fx), clen=len(cx), first=enc(fx[0]))
        for k in range(N):
            tr.add("Cell", inc=enc(co[2][k]), c=enc([co[0][k], co[1][k]]), fine=enc(fx[k * n + 1:(k + 1) * n + 1]),
                   last=enc(last[k]), coarse=enc(cx[k + 1]), x=enc(xs[k + 1]), hh=enc(co[3][k]) if c["src"] == "fine" else [])
    return out
