"""Recorded results of the Gaussian filters and ODE solvers (C10 - C15, C18, C22)."""
from fractions import Fraction

import inspect

import numpy as np

from . import fields as F
from .common import Trace, enc, q, q_to_float
from .schemelib import moments

TOL = 1e-9


# ---------------------------------------------------------------- problem data
def gram(rng, n, rank=None, scale=1.0):
    """Positive semi-definite matrix with exact float entries, and a square factor."""
    r = n if rank is None else rank
    G = np.zeros((n, n))
    for i in range(n):
        for j in range(r):
            G[i, j] = rng.randint(-8, 8) / 8 * scale
    return G @ G.T, G


def spd(rng, n, scale=1.0):
    """Well conditioned."""
    G = np.array([[rng.randint(-4, 4) / 16 for _ in range(n)] for _ in range(n)]) + np.eye(n)
    return scale * (G @ G.T)


def mat(rng, n, m, scale=1.0):
    return np.array([[rng.randint(-8, 8) / 8 * scale for _ in range(m)] for _ in range(n)])


def vec(rng, n, scale=1.0):
    return np.array([rng.randint(-16, 16) / 16 * scale for _ in range(n)])


def field(rng, d, kind=None):
    kind = kind or rng.choice(["full", "full", "time", "linear", "const", "stiff", "cubic"])
    if kind == "full":
        return F.rnd_field(rng, d, deg=2, tdeg=2, terms=3, scale=0.4)
    if kind == "time":
        return F.rnd_field(rng, d, deg=0, tdeg=2, terms=2, scale=0.5)
    if kind == "stiff":
        return F.linear((mat(rng, d, d, 2.0) - rng.choice([5, 30]) * np.eye(d)).tolist(), d)
    if kind == "cubic":
        return F.rnd_field(rng, d, deg=4, tdeg=3, terms=3, scale=0.3)
    if kind == "const":
        return F.rnd_field(rng, d, deg=0, tdeg=0, terms=1, scale=0.5)
    return F.linear(mat(rng, d, d, 0.75).tolist(), d)


PRIORS = ["default", "ibm", "ibm3", "ou", "wild", "pad", "q3", "q4"]


def prior(rng, kind, d, h):
    """(n, prior argument or None, header fields); values a caller may pass."""
    from math import factorial
    if kind == "default":
        return 2, None, dict(prior="ibm")
    n = dict(ibm=2, ibm3=3, ou=rng.choice([2, 3]), wild=rng.choice([2, 3, 4]), pad=rng.choice([3, 4]), q3=4, q4=5)[kind]
    k = 2 if kind == "pad" else n
    sg = rng.choice([1.0, 0.5, 2.0])
    A1 = np.array([[h ** (j - i) / factorial(j - i) if j >= i else 0.0 for j in range(k)] for i in range(k)])
    Q1 = sg ** 2 * np.array([[h ** (2 * k - 1 - i - j) / ((2 * k - 1 - i - j) * factorial(k - 1 - i) *
                                                          factorial(k - 1 - j)) for j in range(k)] for i in range(k)])
    if kind == "ou":
        A1[-1, -1] = float(np.exp(-h))
    if kind == "pad":
        A1, Q1 = [np.pad(M, ((0, n - 2), (0, n - 2))) for M in (A1, Q1)]
    if kind == "wild":  # different coordinates, coupled, with increments
        A = np.eye(n * d) + mat(rng, n * d, n * d, 0.25)
        Q, xi = spd(rng, n * d, rng.choice([1.0, 0.25])), vec(rng, n * d)
    else:
        A, Q, xi = np.kron(np.eye(d), A1), np.kron(np.eye(d), Q1), np.zeros(n * d)
        if rng.random() < 0.5:
            xi = vec(rng, n * d, 0.5)
            if kind == "pad":
                xi[[i for i in range(n * d) if i % n >= 2]] = 0.0
    return n, (xi, Q, A), dict(prior="given", A=enc(A), Q=enc(Q), xi=enc(xi))


def noise(rng, d):
    c = rng.random()
    if c < 0.4:
        return None, np.zeros((d, d))
    if c < 0.8:
        R = spd(rng, d, rng.choice([0.25, 1.0]))
        return R, R
    R, _ = gram(rng, d, 1)
    return R, R


def jx(a):
    import jax.numpy as jnp
    return jnp.asarray(a)


def priorj(p):
    return None if p is None else tuple(jx(v) for v in p)


def wrap(f, how):
    """plain call, jit, or an element of a batch"""
    import jax
    if how == "jit":
        return jax.jit(f)
    if how == "vmap":
        def g(*a):
            out = jax.vmap(f)(*[jx(np.stack([np.asarray(v), np.asarray(v) * 0.5 + 0.25])) for v in a])
            return jax.tree_util.tree_map(lambda x: x[0], out)
        return g
    return f


def shaped(tr, vals, shapes):
    """Arrays of the expected shapes, or an event the specification refuses."""
    out = []
    try:
        for v, sh in zip(vals, shapes, strict=True):
            a = np.asarray(v)
            assert a.dtype.kind in "fiub" and a.shape == tuple(sh), f"shape {a.shape}, expected {tuple(sh)}"
            out.append(a)
    except Exception as e:  # noqa: BLE001
        tr.add("Raised", what=f"unexpected result structure: {e}"[:200])
        return None
    return out


# ---------------------------------------------------------------- filter core (C10, C11)
def core_problem(rng, long=0):
    D, p = rng.choice([(1, 1), (2, 1)]) if long else rng.choice([(2, 1), (3, 1), (3, 2), (2, 2), (4, 2), (1, 1), (4, 3), (6, 2), (8, 1), (2, 3), (1, 2)])
    steep = 1 if long else rng.choice([1, 1, 1, 300, 40000])  # slope of the observations (noise in proportion)
    N = rng.choice([1, 2, 3, 5] + ([9, 16] if D < 4 else []) + ([40, 70] if D < 3 else []))
    N = long or N
    sing = rng.choice([None, None, 1, 0])
    P, L = gram(rng, D, sing)
    A = np.eye(D) + mat(rng, D, D, 0.5)
    if N > 16:  # long runs: contractive
        A = A * (0.9 / max(1.0, np.abs(A).sum(axis=1).max()))
    Q = spd(rng, D, rng.choice([1.0, 0.25]))
    xi = vec(rng, D) if rng.random() < 0.7 else np.zeros(D)
    R = noise(rng, p)[1]
    if p > D:
        R = spd(rng, p, 0.5)
    # observations: identity-like part keeps S well conditioned, plus nonlinear and time dependent terms
    obs, first = [], rng.randint(0, 1)
    for i in range(p):
        e = [0] * (D + 1)
        e[(i + first) % D] = 1
        obs.append([(Fraction(1), tuple(e))]
                   + F.rnd_poly(rng, D, deg=2 if N <= 16 and steep == 1 else 1, tdeg=1, terms=3, scale=0.25))
    if steep > 1:
        obs = [[(c * steep, e) for c, e in poly] for poly in obs]
        R = R * steep ** 2
    ts = [rng.randint(0, 12) / 8 for _ in range(N)]
    us = [rng.choice([1.0, 1.0, 2.0, -0.5]) for _ in range(N)] if rng.random() < 0.5 else None
    m = vec(rng, D)
    return dict(D=D, p=p, N=N, P=P, L=L, A=A, Q=Q, xi=xi, R=R, obs=obs, ts=ts, us=us, m=m)


def core_trace(tid, c, tol=TOL):
    return Trace(tid, "core", fam="core", m=enc(c["m"]), P=enc(c["P"]), A=enc(c["A"]), Q=enc(c["Q"]), xi=enc(c["xi"]),
                 R=enc(c["R"]), obs=F.enc_field(c["obs"]), ts=enc(c["ts"]),
                 us=enc(c["us"] or [1.0] * c["N"]), tol=q(tol))


def root_of(M):
    """A factor of a covariance: Cholesky where it exists."""
    try:
        return np.linalg.cholesky(M)
    except np.linalg.LinAlgError:
        w, v = np.linalg.eigh(M)
        return (v * np.sqrt(np.maximum(w, 0))) @ v.T


def core_call(c, sqrt, uc, dtype="float64"):
    from bayesian_sde_solver.ode_solvers.probnum import ekf
    import jax.numpy as jnp
    g = F.fn(c["obs"])
    J = lambda a: jnp.asarray(a, dtype=dtype)  # noqa: E731
    obs = g if c["us"] is None else (lambda x, t, u: u * g(x, t))
    params = (J(c["ts"]),) if c["us"] is None else (J(c["ts"]), J(c["us"]))
    root = (lambda M: J(root_of(M))) if sqrt else J

    def f(m):
        return ekf(init=(m, J(c["L"] if sqrt else c["P"])), observation_function=obs, A=J(c["A"]),
                   Q_or_cholQ=root(c["Q"]), xi=J(c["xi"]), R_or_cholR=root(c["R"]), params=params, lower_sqrt=sqrt,
                   return_UC=uc)
    return f


def core_job(lo, hi, seed, long=0):
    out = []
    for i in range(lo, hi):
        rng = F.seeded("core", seed, i)
        c = core_problem(rng, long)
        D, p = c["D"], c["p"]
        how = ["plain", "jit", "vmap"][i % 3]
        tr = core_trace(f"core{'-long' if long else ''}{i}-{how}", c)
        out.append(tr)
        r = tr.attempt(lambda: wrap(core_call(c, False, False), how)(c["m"]))
        if r is None:
            continue
        v = shaped(tr, r, [(D,), (D, D)])
        if v is None:
            continue
        tr.add("Moments", m=enc(v[0]), P=enc(v[1]))
        r = tr.attempt(lambda: wrap(core_call(c, False, True), how)(c["m"]))
        v = None if r is None else tr.attempt(lambda: (*r[0], r[1], r[2]))
        v = None if v is None else shaped(tr, v, [(D,), (D, D), (p, p), (p,)])
        if v is not None:
            tr.add("Moments", m=enc(v[0]), P=enc(v[1]))
            tr.add("Innovation", S=enc(v[2]), z=enc(v[3]))
    return out


def core32_job(lo, hi, seed):
    """single precision, JAX's default"""
    import jax
    out = []
    with jax.experimental.disable_x64():
        for i in range(lo, hi):
            rng = F.seeded("core32", seed, i)
            c = core_problem(rng)
            tr = core_trace(f"core32-{i}", c, tol=2e-3)
            out.append(tr)
            r = tr.attempt(lambda: core_call(c, False, False, "float32")(c["m"].astype("float32")))
            v = None if r is None else shaped(tr, r, [(c["D"],), (c["D"], c["D"])])
            if v is not None:
                tr.add("Moments", m=enc(v[0]), P=enc(v[1]))
    return out


def step_job(lo, hi, seed, sqrt=False):
    """single predictions and updates, as the tests call them"""
    from bayesian_sde_solver.ode_solvers.probnum.ekf import predict, update
    out = []
    for i in range(lo, hi):
        rng = F.seeded("step", seed, i, sqrt)
        D, p = rng.choice([(2, 1), (3, 2), (2, 2), (4, 1), (4, 4)])
        tr = Trace(f"step{i}{'s' if sqrt else ''}", "step", fam="none", tol=q(TOL))
        P, L = gram(rng, D, rng.choice([None, 1, 2]))
        A, Q, xi, m = mat(rng, D, D), gram(rng, D, rng.choice([None, 1]))[0], vec(rng, D), vec(rng, D)
        r1 = tr.attempt(lambda: predict((jx(m), jx(P)), jx(A), jx(Q), jx(xi)))
        v1 = None if r1 is None else shaped(tr, r1, [(D,), (D, D)])
        Hm, R, c = mat(rng, p, D), spd(rng, p), vec(rng, p)
        r2 = tr.attempt(lambda: update((jx(m), jx(P)), jx(c), jx(Hm), jx(R), return_S=True))
        v2 = None if r2 is None else tr.attempt(lambda: (*r2[0], r2[1]))
        v2 = None if v2 is None else shaped(tr, v2, [(D,), (D, D), (p, p)])
        out.append(tr)
        if v1 is None or v2 is None:
            continue
        if not sqrt:
            tr.add("Predict", m=enc(m), P=enc(P), A=enc(A), Q=enc(Q), xi=enc(xi), m2=enc(v1[0]), P2=enc(v1[1]))
            tr.add("Update", m=enc(m), P=enc(P), c=enc(c), Hm=enc(Hm), R=enc(R), m2=enc(v2[0]), P2=enc(v2[1]),
                   S=enc(v2[2]))
            continue
        s1 = tr.attempt(lambda: predict((jx(m), jx(L)), jx(A), jx(root_of(Q)), jx(xi), lower_sqrt=True))
        w1 = None if s1 is None else shaped(tr, s1, [(D,), (D, D)])
        s2 = tr.attempt(lambda: update((jx(m), jx(L)), jx(c), jx(Hm), jx(root_of(R)), lower_sqrt=True))
        w2 = None if s2 is None else shaped(tr, s2, [(D,), (D, D)])
        if w1 is not None and w2 is not None:
            pair(tr, v1, w1)
            pair(tr, v2[:2], w2)
    return out


def pair(tr, std, sq, gram=True):
    tr.add("Pair", m1=enc(std[0]), P1=enc(std[1]), m2=enc(sq[0]), P2=enc(sq[1]), gram=gram)


def core_pair_job(lo, hi, seed):
    out = []
    for i in range(lo, hi):
        rng = F.seeded("corep", seed, i)
        c = core_problem(rng)
        D, p = c["D"], c["p"]
        how = ["plain", "jit"][i % 2]
        tr = core_trace(f"corepair{i}-{how}", c, tol=1e-8)
        out.append(tr)
        a = tr.attempt(lambda: wrap(core_call(c, False, True), how)(c["m"]))
        b = tr.attempt(lambda: wrap(core_call(c, True, False), how)(c["m"]))
        b2 = tr.attempt(lambda: wrap(core_call(c, True, True), how)(c["m"]))
        if a is None or b is None or b2 is None:
            continue
        a = tr.attempt(lambda: (*a[0], a[1], a[2]))
        b2 = tr.attempt(lambda: (*b2[0], b2[1], b2[2]))
        if a is None or b2 is None:
            continue
        sh = [(D,), (D, D), (p, p), (p,)]
        a, b, b2 = shaped(tr, a, sh), shaped(tr, b, sh[:2]), shaped(tr, b2, sh)
        if a is None or b is None or b2 is None:
            continue
        pair(tr, a, b)
        pair(tr, a, b2)
        tr.add("Pair", m1=enc(a[3]), P1=enc(a[2]), m2=enc(b2[3]), P2=enc(b2[2]), gram=False)
    return out


# ---------------------------------------------------------------- initial value problems
def lengthen(c, rng, N, key="f"):
    """many steps: a decaying field with forcing that grows with time"""
    d = c["d"]
    h = rng.choice([1 / 16, 0.05]) if N < 300 else rng.choice([1 / 256, 0.003])
    A = [[(rng.choice([-1.0, -0.5]) if a == b else 0.25 / d) for b in range(d)] for a in range(d)]
    f = F.linear(A, d)
    t = tuple([0] * d + [1])
    c.update(h=h, N=N, **{key: [p + [(F.Fraction(rng.choice([0.5, -0.375, 0.75])), t)] for p in f]})
    return c


def ivp_problem(rng, kinds=PRIORS, dims=(1, 1, 2, 2, 3, 4, 6), fkind=None, mix=False, long=0):
    if long:
        c = ivp_problem(rng, kinds=("default",), dims=(1, 2) if long < 300 else (1,), fkind="linear", mix=mix)
        return lengthen(c, rng, long)
    d = rng.choice(dims)
    h, N = rng.choice([0.5, 0.25, 0.125, 0.2, 1.0, 0.02, 1 / 3, 0.1347]), rng.choice([1, 2, 3, 5])
    if mix:
        kinds = [k for k in kinds if k in ("default", "ibm", "ou", "wild")]
    while True:
        kind = rng.choice(kinds)
        n, pr, hd = prior(rng, kind, d, h)
        # a short step with many variables is ill conditioned
        if n == 2 or not (mix or h < 0.1 or n * d > 12 or (n == 5 and h < 0.3)):
            break
    if n * d <= 4 and h < 0.3 and rng.random() < 0.4:
        N = rng.choice([8, 11, 16] + ([33, 64] if n * d == 2 else []))
    R, Rv = noise(rng, d)
    P0, L0 = gram(rng, d, rng.choice([None, 1, 0]), scale=rng.choice([0.5, 0.5, 0.5, 4.0]))
    fkind = fkind or ("linear" if N > 5 else None)
    return dict(d=d, n=n, h=h, N=N, prior=pr, hd=hd, R=R, Rv=Rv, f=field(rng, d, fkind), y0=vec(rng, d),
                ekf0=rng.random() < 0.5, P0=P0, L0=L0, pkind=kind)


def ivp_trace(tid, c, init, tol=TOL, **extra):
    hd = dict(fam="ivp", f=F.enc_field(c["f"]), d=c["d"], n=c["n"], h=q(c["h"]), N=c["N"], R=enc(c["Rv"]),
              ekf0=bool(c["ekf0"]), init=init, y0=enc(c["y0"]), P0=enc(c["P0"]), tol=q(tol), **c["hd"])
    hd.update(extra)
    return Trace(tid, "ivp", **hd)


def fresh_solver(c):
    from bayesian_sde_solver.ode_solvers import ekf0, ekf1
    return ekf0 if c["ekf0"] else ekf1


def mix_solver(c):
    from bayesian_sde_solver.ode_solvers import ekf0_2, ekf1_2
    return ekf0_2 if c["ekf0"] else ekf1_2


def nz(c):
    return None if c["R"] is None else jx(c["R"])


def fresh_call(c, sqrt, key=None, f=None):
    """sqrt None: the solver's default"""
    kw = {} if sqrt is None else dict(sqrt=sqrt)
    f = F.fn(c["f"]) if f is None else f
    return lambda y0: fresh_solver(c)(key, init=y0, vector_field=f, h=c["h"], N=c["N"], prior=priorj(c["prior"]),
                                      noise=nz(c), **kw)


def name(c, *a):
    return "-".join(["ekf0" if c["ekf0"] else "ekf1", c["pkind"], f"d{c['d']}n{c['n']}"] + [str(x) for x in a])


def fresh_job(lo, hi, seed, scens=None, stream="fresh", fkind=None, long=0):
    out = []
    for i in range(lo, hi):
        rng = F.seeded(stream, seed, i)
        c = ivp_problem(rng, fkind=fkind, long=long)
        how, sqrt = ["plain", "jit", "vmap"][i % 3], rng.choice([None, False, False, True])
        tr = ivp_trace(f"{stream}{'-long' if long else ''}{i}-" + name(c, how, f"sqrt{sqrt}"), c, "fresh", tol=1e-8 if sqrt is not False else TOL)
        out.append(tr)
        r = tr.attempt(lambda: wrap(fresh_call(c, sqrt), how)(c["y0"]))
        v = None if r is None else shaped(tr, [r], [(c["d"],)])
        if v is not None:
            tr.add("Mean", y=enc(v[0]), n=c["n"], j=0)
    return out


def scen_problem(sc):
    dec = lambda M: np.array([[q_to_float(v) for v in r] for r in M])  # noqa: E731
    d, n = len(sc["y0"]), sc["n"]
    h = q_to_float(sc["h"])
    _, pr, hd = prior(F.seeded(0), dict([(2, "default"), (3, "ibm3"), (4, "q3")])[n], d, h)
    if pr is not None:  # the exact prior of the model: the once to three times integrated Brownian motion
        from math import factorial
        k = n
        A1 = np.array([[h ** (j - i) / factorial(j - i) if j >= i else 0.0 for j in range(k)] for i in range(k)])
        Q1 = np.array([[h ** (2 * k - 1 - i - j) / ((2 * k - 1 - i - j) * factorial(k - 1 - i) * factorial(k - 1 - j))
                        for j in range(k)] for i in range(k)])
        pr = (np.zeros(n * d), np.kron(np.eye(d), Q1), np.kron(np.eye(d), A1))
        hd = dict(prior="given", A=enc(pr[2]), Q=enc(pr[1]), xi=enc(pr[0]))
    R = dec(sc["R"])
    P0 = dec(sc["P0"])
    return dict(d=d, n=n, h=h, N=sc["N"], prior=pr, hd=hd, R=R if R.any() else None, Rv=R, f=F.dec_field(sc["f"]),
                y0=np.array([q_to_float(v) for v in sc["y0"]]), ekf0=sc["ekf0"], P0=P0, L0=np.linalg.cholesky(P0),
                pkind="mc")


def fresh_scen_job(scens):
    out = []
    for i, sc in scens:
        c = scen_problem(sc)
        sqrt = bool(i % 2)
        tr = ivp_trace(f"mc{i}-" + name(c), c, "fresh", tol=1e-8)
        out.append(tr)
        r = tr.attempt(lambda: fresh_call(c, sqrt)(jx(c["y0"])))
        v = None if r is None else shaped(tr, [r], [(c["d"],)])
        if v is not None:
            tr.add("Mean", y=enc(v[0]), n=c["n"], j=0)
    return out


# the filter of an initial value problem from a given joint law (ode_solvers.ekf)
def ivp_call(c, sqrt, uc=False):
    from bayesian_sde_solver.ode_solvers import ekf
    f = F.fn(c["f"])
    return lambda m: ekf((m, jx(c["LJ"] if sqrt else c["PJ"])), f, c["h"], c["N"], sqrt=sqrt, EKF0=c["ekf0"],
                         prior=priorj(c["prior"]), noise=nz(c), return_all=uc, n_states=c["n"])


def given_problem(rng):
    c = ivp_problem(rng)
    D = c["n"] * c["d"]
    c["mJ"] = vec(rng, D)
    c["PJ"], c["LJ"] = gram(rng, D, rng.choice([None, 1, 0, 2]), scale=0.5)
    return c


def given_trace(tid, c, tol=TOL):
    return ivp_trace(tid, c, "given", tol=tol, y0=enc(c["mJ"]), P0=enc(c["PJ"]))


def given_job(lo, hi, seed):
    out = []
    for i in range(lo, hi):
        rng = F.seeded("given", seed, i)
        c = given_problem(rng)
        D, d = c["n"] * c["d"], c["d"]
        how = ["plain", "jit"][i % 2]
        tr = given_trace(f"given{i}-" + name(c, how), c)
        out.append(tr)
        r = tr.attempt(lambda: wrap(ivp_call(c, False), how)(jx(c["mJ"])))
        v = None if r is None else shaped(tr, r, [(D,), (D, D)])
        if v is None:
            continue
        tr.add("Moments", m=enc(v[0]), P=enc(v[1]))
        r = tr.attempt(lambda: wrap(ivp_call(c, False, True), how)(jx(c["mJ"])))
        v = None if r is None else tr.attempt(lambda: (*r[0], r[1], r[2]))
        v = None if v is None else shaped(tr, v, [(D,), (D, D), (d, d), (d,)])
        if v is not None:
            tr.add("Moments", m=enc(v[0]), P=enc(v[1]))
            tr.add("Innovation", S=enc(v[2]), z=enc(v[3]))
    return out


# ---------------------------------------------------------------- mixture solvers (C13)
def mix_call(c, sqrt, key=None, full=False, sample=None):
    kw = {} if sqrt is None else dict(sqrt=sqrt)
    if full:
        kw["return_all"] = True
    f = F.fn(c["f"])

    def g(m):
        s = jx(np.full(c["d"], 7.5) if sample is None else sample)
        return mix_solver(c)(key, init=(s, m, jx(c["P0"])), vector_field=f, h=c["h"], N=c["N"],
                             prior=priorj(c["prior"]), noise=nz(c), **kw)
    return g


def mix_events(tr, c, r, keyed=False, full=False):
    d, D = c["d"], 2 * c["d"]
    try:
        ys, fl = (r if full else (r, None))
        ys = list(ys)
    except Exception as e:  # noqa: BLE001
        tr.add("Raised", what=f"unexpected result structure: {e}")
        return None
    v = shaped(tr, ys, [(d,), (d,), (d, d)])
    if v is None:
        return None
    tr.add("Mixture", s=enc(v[0]), m=enc(v[1]), P=enc(v[2]), keyed=keyed)
    if full:
        w = shaped(tr, list(fl), [(D,), (D,), (D, D), (d, d), (d,)])
        if w is None:
            return None
        tr.add("Full", s=enc(w[0]), m=enc(w[1]), P=enc(w[2]), keyed=keyed)
        tr.add("Innovation", S=enc(w[3]), z=enc(w[4]))
        return v + w
    return v


def mix_job(lo, hi, seed, long=0):
    import jax
    out = []
    for i in range(lo, hi):
        rng = F.seeded("mix", seed, i)
        c = ivp_problem(rng, mix=True, long=long)
        how, sqrt = ["plain", "jit", "vmap"][i % 3], rng.choice([None, False, True])
        tr = ivp_trace(f"mix{'-long' if long else ''}{i}-" + name(c, how, f"sqrt{sqrt}"), c, "mix", tol=1e-8 if sqrt else TOL)
        out.append(tr)
        r = tr.attempt(lambda: wrap(mix_call(c, sqrt), how)(c["y0"]))
        if r is None or mix_events(tr, c, r) is None:
            continue
        # the sample in the input does not matter
        a = tr.attempt(lambda: mix_call(c, sqrt, full=True, sample=vec(rng, c["d"], 5.0))(jx(c["y0"])))
        if a is None or mix_events(tr, c, a, full=True) is None:
            continue
        k = tr.attempt(lambda: mix_call(c, sqrt, key=jax.random.PRNGKey(i))(jx(c["y0"])))
        if k is not None:
            mix_events(tr, c, k, keyed=True)
    return out


def mix_scen_job(scens):
    out = []
    for i, sc in scens:
        c = scen_problem(sc)
        sqrt = bool(i % 2)
        tr = ivp_trace(f"mc{i}-" + name(c), c, "mix", tol=1e-8)
        out.append(tr)
        r = tr.attempt(lambda: mix_call(c, sqrt, full=bool(i % 3 == 0))(jx(c["y0"])))
        if r is not None:
            mix_events(tr, c, r, full=bool(i % 3 == 0))
    return out


def mix_chain_job(lo, hi, seed):
    """a run of several steps: every posterior is the next initial law"""
    out = []
    for i in range(lo, hi):
        rng = F.seeded("chain", seed, i)
        c = ivp_problem(rng, mix=True)
        sqrt = rng.random() < 0.5
        for k in range(3):
            tr = ivp_trace(f"chain{i}.{k}-" + name(c, f"sqrt{sqrt}"), c, "mix", tol=1e-8)
            out.append(tr)
            r = tr.attempt(lambda: mix_call(c, sqrt)(jx(c["y0"])))
            v = None if r is None else mix_events(tr, c, r)
            if v is None or not np.isfinite(v[2]).all() or abs(v[1]).max() > 20:
                break
            c = dict(c, y0=v[1], P0=v[2])
    return out


# ---------------------------------------------------------------- marginalised parabola (C18)
def marg_problem(rng, dims=(1, 2, 3, 4), diag=False):
    d = rng.choice(dims)
    N = rng.choice(([1, 2, 3, 4] if d < 4 else [1, 2]) + ([8, 20] if d == 1 else []))
    delta = rng.choice([0.5, 1.0, 0.25, 0.1, 2.0, 1 / 3])
    h = delta / rng.choice([N, N, N, N + 1, 2 * N])  # also a part of the step only
    kind = rng.choice(["default", "ibm", "ou", "wild"])
    while True:
        n, pr, hd = prior(rng, kind, 1, h)
        if n == 2:
            break
    R, Rv = noise(rng, d)
    b = field(rng, d, "linear" if N > 5 else None)
    deg = rng.choice([0, 1, 1])
    sg = [[(F.rnd_poly(rng, d, deg=deg, tdeg=1, terms=2, scale=0.5, vars_=[i] if diag else None)
            if (i == j or not diag) else []) for j in range(d)] for i in range(d)]
    for i in range(d):
        sg[i][i] = sg[i][i] + F.const(1.0, d)
    return dict(d=d, N=N, h=h, delta=delta, prior=pr, hd=hd, R=R, Rv=Rv, b=b, sg=sg, y0=vec(rng, d),
                ekf0=rng.random() < 0.5, pkind=kind, n=4)


def marg_trace(tid, c, tol=TOL):
    return Trace(tid, "marg", fam="marg", b=F.enc_field(c["b"]), sg=F.enc_mfield(c["sg"]), d=c["d"], h=q(c["h"]),
                 N=c["N"], delta=q(c["delta"]), R=enc(c["Rv"]), ekf0=bool(c["ekf0"]), y0=enc(c["y0"]), tol=q(tol),
                 **c["hd"])


def marg_call(c, sqrt, key=None):
    from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola
    kw = {} if sqrt is None else dict(sqrt=sqrt)
    sv = ekf0_marginal_parabola if c["ekf0"] else ekf1_marginal_parabola
    b, sg = F.fn(c["b"]), F.mfn(c["sg"])
    return lambda y0: sv(key, init=y0, delta=c["delta"], drift=b, diffusion=sg, h=c["h"], N=c["N"],
                         prior=priorj(c["prior"]), noise=nz(c), **kw)


def marg_core(c, sqrt):
    """The filter behind the solvers, where it can be called (None otherwise)."""
    try:
        from bayesian_sde_solver.ssm_parabola.ekf import _solver
        ps = inspect.signature(_solver).parameters
        if list(ps)[:6] != ["init", "drift", "diffusion", "delta", "h", "N"] or not \
                {"sqrt", "EKF0", "prior", "noise"} <= set(ps):
            return None  # an internal function: not the one known here
    except ImportError:
        return None
    b, sg = F.fn(c["b"]), F.mfn(c["sg"])
    return lambda y0: _solver(y0, b, sg, c["delta"], c["h"], c["N"], sqrt=sqrt, EKF0=c["ekf0"],
                              prior=priorj(c["prior"]), noise=nz(c))


def marg_events(tr, c, how, sqrt):
    d = c["d"]
    r = tr.attempt(lambda: wrap(marg_call(c, sqrt), how)(c["y0"]))
    v = None if r is None else shaped(tr, r, [(d,)] * 3)
    if v is None:
        return
    for j, y in zip((0, 2, 3), v):
        tr.add("Mean", y=enc(y), n=4, j=j)
    core = marg_core(c, bool(sqrt))
    if core is None:
        return
    r = tr.attempt(lambda: wrap(core, how)(c["y0"]))
    v = None if r is None else shaped(tr, r, [(4 * d,), (4 * d, 4 * d)])
    if v is not None:
        tr.add(*(["Factor"] if sqrt else ["Moments"]), m=enc(v[0]), **({"L" if sqrt else "P": enc(v[1])}))


def marg_job(lo, hi, seed, long=0):
    out = []
    for i in range(lo, hi):
        rng = F.seeded("marg", seed, i)
        c = marg_problem(rng, dims=(1,)) if long else marg_problem(rng)
        if long:
            lengthen(c, rng, long, "b").update(delta=c["h"] * long, prior=None, hd=dict(prior="ibm"))
        how, sqrt = ["plain", "jit", "vmap"][i % 3], rng.choice([None, False, True])
        tr = marg_trace(f"marg{'-long' if long else ''}{i}-" + name(c, how, f"sqrt{sqrt}"), c, tol=1e-8 if sqrt else TOL)
        out.append(tr)
        marg_events(tr, c, how, sqrt)
    return out


def marg_scen_job(scens):
    out = []
    for i, sc in scens:
        d = len(sc["y0"])
        R = np.array([[q_to_float(v) for v in r] for r in sc["R"]])
        c = dict(d=d, N=sc["N"], h=q_to_float(sc["h"]), delta=q_to_float(sc["delta"]), prior=None,
                 hd=dict(prior="ibm"), R=R if R.any() else None, Rv=R, b=F.dec_field(sc["b"]),
                 sg=F.dec_mfield(sc["sg"]), y0=np.array([q_to_float(v) for v in sc["y0"]]), ekf0=sc["ekf0"],
                 pkind="mc", n=4)
        sqrt = bool(i % 2)
        tr = marg_trace(f"mc{i}-" + name(c), c, tol=1e-8)
        out.append(tr)
        marg_events(tr, c, "plain", sqrt)
    return out


# ---------------------------------------------------------------- square root and standard (C11)
def solver_pair_job(lo, hi, seed):
    out = []
    for i in range(lo, hi):
        rng = F.seeded("spair", seed, i)
        kind = ["fresh", "mix", "marg", "given"][i % 4]
        how = ["plain", "jit"][(i // 4) % 2]
        if kind == "fresh":
            c = ivp_problem(rng)
            tr = ivp_trace(f"pfresh{i}-" + name(c, how), c, "fresh", tol=1e-8)
            a, b = [tr.attempt(lambda: wrap(fresh_call(c, s), how)(c["y0"])) for s in (False, True)]
            sh = [(c["d"],)]
            a, b = [None if v is None else shaped(tr, [v], sh) for v in (a, b)]
            if a is not None and b is not None:
                tr.add("Pair", m1=enc(a[0]), P1=[], m2=enc(b[0]), P2=[], gram=False)
        elif kind == "mix":
            c = ivp_problem(rng, mix=True)
            tr = ivp_trace(f"pmix{i}-" + name(c, how), c, "mix", tol=1e-8)
            d, D = c["d"], 2 * c["d"]
            a, b = [tr.attempt(lambda: wrap(mix_call(c, s, full=True), how)(c["y0"])) for s in (False, True)]
            sh = [(d,), (d,), (d, d), (D,), (D,), (D, D), (d, d), (d,)]
            a, b = [None if v is None else tr.attempt(lambda: [*v[0], *v[1]]) for v in (a, b)]
            a, b = [None if v is None else shaped(tr, v, sh) for v in (a, b)]
            if a is not None and b is not None:
                pair(tr, a[1:3], b[1:3], gram=False)
                pair(tr, a[4:6], b[4:6], gram=False)
                pair(tr, (a[7], a[6]), (b[7], b[6]), gram=False)
        elif kind == "marg":
            c = marg_problem(rng)
            tr = marg_trace(f"pmarg{i}-" + name(c, how), c, tol=1e-8)
            d = c["d"]
            a, b = [tr.attempt(lambda: wrap(marg_call(c, s), how)(c["y0"])) for s in (False, True)]
            a, b = [None if v is None else shaped(tr, v, [(d,)] * 3) for v in (a, b)]
            if a is not None and b is not None:
                for x, y in zip(a, b):
                    tr.add("Pair", m1=enc(x), P1=[], m2=enc(y), P2=[], gram=False)
            if marg_core(c, True) is not None:
                a, b = [tr.attempt(lambda: wrap(marg_core(c, s), how)(c["y0"])) for s in (False, True)]
                a, b = [None if v is None else shaped(tr, v, [(4 * d,), (4 * d, 4 * d)]) for v in (a, b)]
                if a is not None and b is not None:
                    pair(tr, a, b)
        else:
            c = given_problem(rng)
            tr = given_trace(f"pgiven{i}-" + name(c, how), c, tol=1e-8)
            D, d = c["n"] * c["d"], c["d"]
            a, b = [tr.attempt(lambda: wrap(ivp_call(c, s, True), how)(jx(c["mJ"]))) for s in (False, True)]
            a, b = [None if v is None else tr.attempt(lambda: [*v[0], *v[1:]]) for v in (a, b)]
            a, b = [None if v is None else shaped(tr, v, [(D,), (D, D), (d, d), (d,)]) for v in (a, b)]
            if a is not None and b is not None:
                pair(tr, a, b)
                pair(tr, (a[3], a[2]), (b[3], b[2]), gram=False)
        out.append(tr)
    return out


# ---------------------------------------------------------------- sampled laws (C14)
def law_job(kind, sqrt, i, seed, n, ekf0, d, zero=False, full=False, small=False):
    import jax
    rng = F.seeded("law", kind, seed, i, ekf0, d, *(["small"] if small else []))
    if kind == "marg":
        c = marg_problem(rng, dims=(d,))
    else:
        c = ivp_problem(rng, dims=(d,), mix=kind == "mix")
    if zero:  # a degenerate law
        c.update(R=None, Rv=np.zeros((d, d)))
    if small:  # short steps: standard deviations of 1e-6 to 1e-4
        h = rng.choice([1e-3, 7e-4] if small == 1 else [2e-3, 5e-3])
        c.update(h=h, N=rng.choice([2, 4]), R=None, Rv=np.zeros((d, d)), P0=np.zeros((d, d)), L0=np.zeros((d, d)),
                 prior=None, hd=dict(prior="ibm"), pkind="default")
        if kind == "marg":
            c["delta"] = h * c["N"]
        else:
            c["n"] = 2
    c["ekf0"] = ekf0
    tid = f"law-{kind}{i}-" + name(c, f"sqrt{sqrt}") + ("-all" if full else "") + ("-small" if small else "")
    tr = marg_trace(tid, c) if kind == "marg" else ivp_trace(tid, c, "mix" if kind == "mix" else "fresh")
    call = dict(fresh=fresh_call, mix=mix_call, marg=marg_call)[kind]
    keys = jax.random.split(jax.random.PRNGKey(seed * 1000 + i), n)
    kw = dict(full=True) if full else {}
    r = tr.attempt(lambda: jax.jit(jax.vmap(lambda k: call(c, sqrt, key=k, **kw)(jx(c["y0"]))))(keys))
    if r is None:
        return [tr]
    nn = c["n"]
    if kind == "fresh":
        vals, sel = tr.attempt(lambda: np.asarray(r)), [k * nn + 1 for k in range(d)]
    elif kind == "mix":
        vals = tr.attempt(lambda: np.asarray(r[1][0]) if full else np.asarray(r[0]))
        sel = list(range(1, 2 * d + 1)) if full else [2 * k + 1 for k in range(d)]
    else:
        vals = tr.attempt(lambda: np.concatenate([np.asarray(v) for v in r], axis=1))
        sel = [4 * k + j for j in (1, 3, 4) for k in range(d)]
    if vals is None:
        return [tr]
    if shaped(tr, [vals], [(n, len(sel))]) is not None:
        tr.add("Law", sel=sel, **moments(vals))
    return [tr]


# ---------------------------------------------------------------- calibration (C15)
def mle_job(lo, hi, seed):
    from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
    import jax
    out = []
    for i in range(lo, hi):
        rng = F.seeded("mle", seed, i)
        d, N = rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 5, 9])
        if i % 16 == 7:
            d, N = rng.choice([1, 2]), rng.choice([130, 260])
        zs = np.stack([vec(rng, d, rng.choice([1.0, 4.0])) for _ in range(N)])
        Ss = np.stack([spd(rng, d, rng.choice([0.25, 1.0, 8.0])) for _ in range(N)])
        tr = Trace(f"mle{i}", "mle", fam="none", tol=q(1e-9))
        out.append(tr)
        f = jax.jit(mle_diffusion) if i % 2 else mle_diffusion
        for a, b in ((1.0, 1.0), (1.0, 3.0), (2.0, 1.0)):
            v = tr.attempt(lambda: f(jx(a * zs), jx(b * Ss)))
            v = None if v is None else shaped(tr, [v], [()])
            if v is None:
                break
            tr.add("Mle", zs=enc(a * zs), Ss=enc(b * Ss), v=enc(v[0]))
    return out


def innov_job(lo, hi, seed):
    out = []
    for i in range(lo, hi):
        rng = F.seeded("innov", seed, i)
        c = ivp_problem(rng, mix=True)
        sqrt = bool(i % 2)
        tr = ivp_trace(f"innov{i}-" + name(c, f"sqrt{sqrt}"), c, "mix", tol=1e-8)
        out.append(tr)
        d, D = c["d"], 2 * c["d"]
        r = tr.attempt(lambda: mix_call(c, sqrt, full=True)(jx(c["y0"])))
        v = None if r is None else tr.attempt(lambda: [*r[1]])
        v = None if v is None else shaped(tr, v, [(D,), (D,), (D, D), (d, d), (d,)])
        if v is not None:
            tr.add("Innovation", S=enc(v[3]), z=enc(v[4]))
    return out


# ---------------------------------------------------------------- layout (C22)
def layout_job(lo, hi, seed):
    from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix
    out = []
    for i in range(lo, hi):
        rng = F.seeded("lay", seed, i)
        d, n = rng.choice([1, 2, 3, 4]), rng.choice([2, 3, 4])
        tr = Trace(f"layout{i}", "layout", fam="none", tol=q(1e-12))
        out.append(tr)
        vs = [vec(rng, d) for _ in range(n)]
        r = tr.attempt(lambda: interlace(tuple(jx(v) for v in vs)))
        v = None if r is None else shaped(tr, [r], [(n * d,)])
        if v is not None:
            tr.add("Interlace", vs=enc(vs), out=enc(v[0]))
        G = mat(rng, 2 * d, 2 * d)
        G = G + G.T  # blocks of a covariance matrix
        Bs = [[G[i * d:(i + 1) * d, j * d:(j + 1) * d] for j in range(2)] for i in range(2)]
        r = tr.attempt(lambda: interlace_matrix(*[jx(M) for row in Bs for M in row]))
        v = None if r is None else shaped(tr, [r], [(2 * d, 2 * d)])
        if v is not None:
            tr.add("InterlaceMatrix", Bs=enc(Bs), out=enc(v[0]))
    return out


def proj_poly(p, i):
    return [(c, (e[i], e[-1])) for c, e in p]


def perm_poly(p, perm):
    """the polynomial in the permuted coordinates x'_i = x_perm[i]"""
    return [(c, tuple(e[perm[j]] for j in range(len(perm))) + (e[-1],)) for c, e in p]


def uncoupled(rng, d):
    return [F.rnd_poly(rng, d, deg=2, tdeg=2, terms=3, scale=0.4, vars_=[i]) for i in range(d)]


def solve(tr, kind, c, sqrt):
    """(m, P or None, variables per coordinate) of one solve without sampling"""
    d = c["d"]
    if kind == "fresh":
        r = tr.attempt(lambda: fresh_call(c, sqrt)(jx(c["y0"])))
        v = None if r is None else shaped(tr, [r], [(d,)])
        return None if v is None else (v[0], None, 1)
    if kind == "mix":
        r = tr.attempt(lambda: mix_call(c, sqrt, full=True)(jx(c["y0"])))
        v = None if r is None else tr.attempt(lambda: list(r[1])[1:3])
        v = None if v is None else shaped(tr, v, [(2 * d,), (2 * d, 2 * d)])
        return None if v is None else (v[0], v[1], 2)
    r = tr.attempt(lambda: marg_call(c, sqrt)(jx(c["y0"])))
    v = None if r is None else shaped(tr, r, [(d,)] * 3)
    return None if v is None else (np.stack(v, axis=1).ravel(), None, 3)


def coord_job(lo, hi, seed):
    out = []
    for i in range(lo, hi):
        rng = F.seeded("coord", seed, i)
        kind, what = ["fresh", "mix", "marg"][i % 3], ["dec", "perm"][(i // 3) % 2]
        d = rng.choice([2, 3, 3, 4, 5] if kind != "marg" else [2, 3, 4])
        sqrt = rng.random() < 0.4
        if kind == "marg":
            c = marg_problem(rng, dims=(d,), diag=what == "dec")
        else:
            c = ivp_problem(rng, dims=(d,), mix=kind == "mix", kinds=["default", "ibm", "ibm3", "ou", "q3"], fkind=rng.choice(["full", "cubic"]))
        n, pr = c["n"], c["prior"]
        if pr is not None:  # replicated over coordinates
            m = (n if kind != "marg" else 2)
            pr1 = (pr[0][:m], pr[1][:m, :m], pr[2][:m, :m])
            if kind != "marg":
                c["prior"] = (np.tile(pr1[0], d), np.kron(np.eye(d), pr1[1]), np.kron(np.eye(d), pr1[2]))
                c["hd"] = dict(prior="given", A=enc(c["prior"][2]), Q=enc(c["prior"][1]), xi=enc(c["prior"][0]))
        else:
            pr1 = None
        tid = f"{what}{i}-{kind}-" + name(c, f"sqrt{sqrt}")
        if what == "dec":
            f = uncoupled(rng, d)
            c["b" if kind == "marg" else "f"] = f
            c["Rv"] = np.diag([rng.choice([0.25, 0.5, 1.0]) for _ in range(d)]) * (rng.random() < 0.5)
            c["R"] = c["Rv"] if c["Rv"].any() else None
            if kind == "mix":
                c["P0"] = np.diag([rng.choice([0.0, 0.25, 1.0]) for _ in range(d)])
            others = []
            for j in range(d):
                o = dict(c, d=1, y0=c["y0"][j:j + 1], R=None if c["R"] is None else c["R"][j:j + 1, j:j + 1], prior=pr1)
                if kind == "marg":
                    o.update(b=[proj_poly(f[j], j)], sg=[[proj_poly(c["sg"][j][j], j)]])
                else:
                    o.update(f=[proj_poly(f[j], j)], P0=c["P0"][j:j + 1, j:j + 1])
                others.append(o)
        else:
            perm = list(range(d))
            while perm == list(range(d)):
                rng.shuffle(perm)
            ix = np.ix_(perm, perm)
            o = dict(c, y0=c["y0"][perm], R=None if c["R"] is None else c["R"][ix])
            if kind == "marg":
                o["b"] = [perm_poly(c["b"][p], perm) for p in perm]
                o["sg"] = [[perm_poly(c["sg"][p][r], perm) for r in perm] for p in perm]
            else:
                o["f"] = [perm_poly(c["f"][p], perm) for p in perm]
                o["P0"] = c["P0"][ix]
        tr = marg_trace(tid, c, tol=1e-8) if kind == "marg" else \
            ivp_trace(tid, c, "mix" if kind == "mix" else "fresh", tol=1e-8)
        out.append(tr)
        a = solve(tr, kind, c, sqrt)
        if a is None:
            continue
        if what == "dec":
            parts = [solve(tr, kind, x, sqrt) for x in others]
            if any(x is None for x in parts):
                continue
            P = [] if a[1] is None else enc(a[1])
            tr.add("Decoupled", n=a[2], m=enc(a[0]), P=P,
                   parts=[dict(m=enc(x[0]), P=enc(np.zeros((a[2], a[2])) if x[1] is None else x[1])) for x in parts])
        else:
            b = solve(tr, kind, o, sqrt)
            if b is not None:
                tr.add("Permuted", n=a[2], perm=[p + 1 for p in perm], m1=enc(a[0]), m2=enc(b[0]),
                       P1=[] if a[1] is None else enc(a[1]), P2=[] if b[1] is None else enc(b[1]))
    return out


# ---------------------------------------------------------------- single precision
def single_job(job, lo, hi, seed):
    """The same problems with the library as it runs by default, in single precision (tolerance to match)."""
    import jax
    old = jax.config.jax_enable_x64
    jax.config.update("jax_enable_x64", False)
    try:
        out = globals()[job](lo=lo, hi=hi, seed=seed)
    finally:
        jax.config.update("jax_enable_x64", old)
    keep = []
    for t in out:
        # higher priors and larger problems are too ill conditioned for seven digits
        if t["h"].get("n", 2) > 2 or t["h"].get("d", 1) > 3 or t["h"].get("N", 1) > 5:
            continue
        t["id"] = "single-" + t["id"]
        t["h"].update(tol=q(3e-3), single=True)
        keep.append(t)
    return keep
