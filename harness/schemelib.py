"""Recorded runs of the time stepping schemes (C07, C08, C09, C21)."""
import numpy as np

from . import fields as F
from .common import Trace, enc, is_array, q, q_to_float


def moments(a, floor=4e-6):
    """Empirical moments of samples (n, d): a projection of what was observed, judged by module Law."""
    a = np.asarray(a, dtype=np.float64)
    # in units near the standard deviations: small noise is judged as strictly as large noise
    shift, sd = a.mean(0), a.std(0)
    with np.errstate(all="ignore"):
        unit = np.where(sd > np.maximum(max(floor, (floor or 1e-10) * sd.max(initial=0.0)), 1e-7 * np.abs(shift)), 2.0 ** np.round(np.log2(sd)), 1.0)
    a = (a - shift) / unit
    mu = a.mean(0)
    c = a - mu
    half = (np.abs(c) <= 0.5 * np.sqrt((c ** 2).mean(0))).mean(0)
    return dict(n=int(a.shape[0]), shift=enc(shift), unit=enc(unit), mean=enc(mu), m2=enc(c.T @ c / a.shape[0]),
                m4=enc((c ** 4).mean(0)), half=enc(half))


def start(tr, ts, xs, d):
    ts, xs = np.asarray(ts), np.asarray(xs)
    if xs.ndim != 2 or xs.shape[1] != d or ts.ndim != 1:
        tr.add("Raised", what=f"unexpected shapes {ts.shape} {xs.shape}")
        return None
    tr.add("Start", ts=enc(ts), len=int(xs.shape[0]), first=enc(xs[0]))
    return xs


def wrapped(f, wrap):
    import jax
    return jax.jit(f) if wrap == "jit" else f


# ---------------------------------------------------------------- Euler-Maruyama
def em_pathwise(tid, b, sg, x0, h, N, incs, standard, wrap="plain", as_numpy=False):
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import euler_maruyama_pathwise as em
    tr = Trace(tid, "em_pathwise", scheme="em", b=F.enc_field(b), sg=F.enc_mfield(sg), x0=enc(x0), h=q(h), n=N,
               m=len(sg[0]), standard=bool(standard), tol=q(1e-10))
    df, sf = F.fn(b), F.mfn(sg)
    arr = np.array(incs, dtype=float) if as_numpy else jnp.asarray(incs)
    before = enc(np.asarray(arr))

    def go(i):
        return em(i, jnp.asarray(x0), df, sf, h, N, standard=standard) if standard is not None else \
            em(i, jnp.asarray(x0), df, sf, h, N)

    out = tr.attempt(lambda: wrapped(go, wrap)(arr))
    if out is None:
        return tr
    xs = start(tr, *out, len(x0))
    if xs is None:
        return tr
    for k in range(min(N, len(xs) - 1)):
        tr.add("Step", dW=enc(incs[k]), x=enc(xs[k + 1]))
    tr.add("Untouched", before=before, after=enc(np.asarray(arr)))
    again = tr.attempt(lambda: np.asarray(go(arr)[1]))
    if again is not None:
        tr.add("Again", u=enc(again), v=enc(xs))
    return tr


def em_keyed(tid, b, sg, x0, h, N, seed, wrap="plain"):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import euler_maruyama as em
    d, m = len(b), len(sg[0])
    tr = Trace(tid, "em_keyed", scheme="em", b=F.enc_field(b), sg=F.enc_mfield(sg), x0=enc(x0), h=q(h), n=N, m=m,
               standard=False, tol=q(1e-9))
    key = jax.random.PRNGKey(seed)
    df, sf = F.fn(b), F.mfn(sg)
    # the noise of this key, seen by a run without drift and with unit diffusion
    W = tr.attempt(lambda: np.asarray(em(key, jnp.zeros(m), lambda x, t: 0.0 * x, lambda x, t: jnp.eye(m), h, N)[1]))
    out = None if W is None else tr.attempt(lambda: wrapped(
        lambda k: em(k, jnp.asarray(x0), df, sf, h, N), wrap)(key))
    if out is None:
        return tr
    xs = start(tr, *out, d)
    if xs is None:
        return tr
    for k in range(min(N, len(xs) - 1, len(W) - 1)):
        tr.add("Step", dW=enc(W[k + 1] - W[k]), x=enc(xs[k + 1]))
    return tr


def em_law(tid, m, h, N, seed, n=100000):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import euler_maruyama as em
    tr = Trace(tid, "em_law", scheme="em", b=[], sg=[], x0=enc([0.0] * m), h=q(h), n=N, m=m, standard=False,
               tol=q(1e-9))

    def one(k):
        return jnp.diff(em(k, jnp.zeros(m), lambda x, t: 0.0 * x, lambda x, t: jnp.eye(m), h, N)[1], axis=0).ravel()

    a = tr.attempt(lambda: np.asarray(jax.vmap(one)(jax.random.split(jax.random.PRNGKey(seed), n))))
    if a is not None:
        tr.add("Law", reps=N, **moments(a, 0.0))
    return tr


def em_scen_job(scens):
    out = []
    for i, sc in scens:
        path = [[q_to_float(v) for v in r] for r in sc["path"]]
        h = q_to_float(sc["h"])
        std = i % 2 == 1
        incs = [[v / h ** 0.5 for v in r] for r in path] if std else path
        out.append(em_pathwise(f"mc{i}", F.dec_field(sc["b"]), F.dec_mfield(sc["sg"]),
                               [q_to_float(v) for v in sc["x0"]], h, sc["n"], incs, std, as_numpy=i % 4 >= 2))
    return out


def em_job(lo, hi, seed, big=False):
    out = []
    for i in range(lo, hi):
        rng = F.seeded("em", seed, i)
        d, m = rng.choice([(1, 1), (2, 2), (2, 1), (1, 2), (3, 2), (2, 4), (4, 4), (5, 3)])
        b = F.rnd_field(rng, d, tdeg=2, scale=0.5) if not big else F.rnd_field(rng, d, deg=1, tdeg=1, scale=0.5)
        sg = F.rnd_sigma(rng, d, m, deg=1, tdeg=1, terms=2, scale=0.5)
        h = rng.choice([0.25, 0.1, 0.0625, 0.5, 0.01, 1.0, 1e-3, 1 / 3, 0.0437, 1e-7] if not big else [0.02, 0.03125, 1e-3])
        N = rng.choice(([1, 2, 5, 9, 17] if h < 0.2 else [1, 2, 3, 5]) if not big else [33, 64, 101, 130])
        N, h = (big, h / 16) if big > 1 else (N, h)
        x0 = F.rnd_vec(rng, d)
        incs = [[rng.gauss(0, 1) for _ in range(m)] for _ in range(N)]
        wrap = ["plain", "jit"][i % 2]
        std = rng.choice([True, False, None])
        as_np = wrap == "plain" and rng.random() < 0.5
        out.append(em_pathwise(f"path{i}-{std}-{wrap}", b, sg, x0, h, N, incs, std, wrap, as_np))
        out.append(em_keyed(f"key{i}-{wrap}", b, sg, x0, h, N, rng.randint(0, 10 ** 6), wrap))
    return out


def em_law_job(seed, n, cases):
    return [em_law(f"law{j}-{seed}", m, h, N, seed + j, n) for j, (m, h, N) in enumerate(cases)]


# ---------------------------------------------------------------- diagonal order 1.5
def diag_noise(key, d, h, N):
    """(dZ, dW) per step of this key, from two runs with unit diffusion: drift zero, and drift x started at 0."""
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import diag_15_scheme as S
    eye = lambda x: jnp.eye(d)  # noqa: E731
    a = S(key, jnp.zeros(d), lambda x: 0.0 * x, eye, h, N)[1]
    b = S(key, jnp.zeros(d), lambda x: x, eye, h, N)[1]
    dW = jnp.diff(a, axis=0)
    dZ = b[1:] - b[:-1] * (1 + h + h ** 2 / 2) - dW
    return dZ, dW


def diag_run(tid, b, sg, x0, h, N, seed, wrap="plain", tol=1e-8):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import diag_15_scheme as S
    d = len(b)
    tr = Trace(tid, "diag15", scheme="diag15", b=F.enc_field(b), sg=F.enc_mfield(sg), x0=enc(x0), h=q(h), n=N, m=d,
               standard=False, tol=q(tol))
    key = jax.random.PRNGKey(seed)
    df, sf = F.fn(b, True), F.mfn(sg, True)
    z = tr.attempt(lambda: [np.asarray(v) for v in diag_noise(key, d, h, N)])
    out = None if z is None else tr.attempt(lambda: wrapped(lambda k: S(k, jnp.asarray(x0), df, sf, h, N), wrap)(key))
    if out is None:
        return tr
    xs = start(tr, *out, d)
    if xs is None:
        return tr
    for k in range(min(N, len(xs) - 1)):
        tr.add("Step", dW=enc(z[1][k]), dZ=enc(z[0][k]), x=enc(xs[k + 1]))
    return tr


def diag_job(lo, hi, seed, big=False):
    out = []
    for i in range(lo, hi):
        rng = F.seeded("diag", seed, i)
        d = rng.choice([1, 2, 2, 3, 4, 5])
        deg = (3 if i % 2 else 2) if not big else 1
        b = F.rnd_field(rng, d, deg=deg, tdeg=0, scale=0.3)
        kind = ["mult", "mult", "additive", "linear"][i % 4]
        if kind == "additive":
            sg = F.const_matrix([[rng.randint(1, 8) / 8 if a == c else 0 for c in range(d)] for a in range(d)], d)
        elif kind == "linear":
            sg = [[[(F.Fraction(rng.randint(1, 8), 8), tuple(1 if v == a else 0 for v in range(d + 1)))] if a == c
                   else [] for c in range(d)] for a in range(d)]
        else:
            sg = [[F.rnd_poly(rng, d, deg=3 if not big else 1, tdeg=0, terms=3, scale=0.3, vars_=[a]) if a == c else []
                   for c in range(d)] for a in range(d)]
        x0 = [v * 0.5 + 0.25 for v in F.rnd_vec(rng, d)]
        h = rng.choice([0.25, 0.1, 0.0625, 0.2, 0.01, 1 / 7] if not big else [0.03125, 0.01])
        N = rng.choice([1, 2, 4, 7] if not big else [20, 64, 101])
        N, h = (big, h / 16) if big > 1 else (N, h)
        out.append(diag_run(f"diag{i}-{kind}", b, sg, x0, h, N, rng.randint(0, 10 ** 6), ["plain", "jit"][i % 2]))
    return out


def diag_law_job(seed, n, cases):
    import jax
    import jax.numpy as jnp
    out = []
    for j, (d, h, N) in enumerate(cases):
        tr = Trace(f"law{d}-{h}-{N}-{j}", "diag15_law", scheme="diag15", b=[], sg=[], x0=enc([0.0] * d), h=q(h), n=N, m=d,
                   standard=False, tol=q(1e-9))
        a = tr.attempt(lambda: np.asarray(jax.vmap(
            lambda k: jnp.concatenate(diag_noise(k, d, h, N), axis=1).ravel())(
            jax.random.split(jax.random.PRNGKey(seed + j), n))))
        if a is not None:
            tr.add("Law", reps=N, **moments(a, 1e-9))
        out.append(tr)
    return out


# ---------------------------------------------------------------- hypoelliptic order 1.5
def hypo(key, x0, b, sg, h, N):
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import hypoelliptic_diffusion_15_scheme as S
    return S(key, jnp.asarray(x0), F.fn(b, True), F.mfn(sg, True), h, N)


def hypo_trace(tid, kind, b, sg, x0, h, N, tol=1e-9):
    return Trace(tid, kind, scheme="hypo", b=F.enc_field(b), sg=F.enc_mfield(sg), x0=enc(x0), h=q(h), n=N, m=len(b),
                 standard=False, tol=q(tol))


def hypo_pair(tid, b, sg, x0, h, N, seed, wrap="plain"):
    """Same key and same noise covariance as a linear problem, whose noise is its residual."""
    import jax
    d = len(b)
    tr = hypo_trace(tid, "hypo_pair", b, sg, x0, h, N)
    key = jax.random.PRNGKey(seed)
    g = [0.0] * d
    for c, e in b[0]:  # constant d_u a by construction
        for j in range(1, d):
            if e[j] == 1 and sum(e) == 1:
                g[j] += float(c)
    lin = [F.linear([g], d)[0] if False else [(F.Fraction(v), tuple(1 if k == j else 0 for k in range(d + 1)))
                                              for j, v in enumerate(g) if v]] + [[] for _ in range(d - 1)]
    import jax.numpy as jnp
    base = tr.attempt(lambda: np.asarray(hypo(key, [0.0] * d, lin, sg, h, N)[1]))
    out = None if base is None else tr.attempt(lambda: wrapped(lambda k: hypo(k, x0, b, sg, h, N), wrap)(key))
    if out is None:
        return tr
    xs = start(tr, *out, d)
    if xs is None:
        return tr
    # residual of the linear problem: x' - x - h (g.x_u, 0)
    gv = np.array(g)
    for k in range(min(N, len(xs) - 1)):
        r = base[k + 1] - base[k]
        r[0] -= h * gv @ base[k]
        tr.add("Step", eps=enc(r), x=enc(xs[k + 1]))
    return tr


def hypo_local(tid, b, sg, x0, h, N, seed, wrap="plain"):
    """As above with sensitivity and covariance that change along the run: a linear problem for each of the states."""
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solvers import hypoelliptic_diffusion_15_scheme as S
    d = len(b)
    tr = hypo_trace(tid, "hypo_pair", b, sg, x0, h, N, tol=1e-8)
    key = jax.random.PRNGKey(seed)
    out = tr.attempt(lambda: wrapped(lambda k: hypo(k, x0, b, sg, h, N), wrap)(key))
    xs = None if out is None else start(tr, *out, d)
    if xs is None:
        return tr
    J, sf = jax.jacfwd(F.fn(b, True)), F.mfn(sg, True)

    def linear(g, s):
        return S(key, jnp.zeros(d), lambda x: jnp.concatenate([(g @ x[1:])[None], 0.0 * x[1:]]), lambda x: s, h, N)[1]
    linear = jax.jit(linear)
    for k in range(min(N, len(xs) - 1)):
        x = jnp.asarray(xs[k])
        g = J(x)[0, 1:]
        base = tr.attempt(lambda: np.asarray(linear(g, sf(x))))
        if base is None:
            return tr
        r = base[k + 1] - base[k]
        r[0] -= h * np.asarray(g) @ base[k][1:]
        tr.add("Step", eps=enc(r), x=enc(xs[k + 1]))
    return tr


def hypo_law(tid, b, sg, x0, h, seed, n):
    import jax
    tr = hypo_trace(tid, "hypo_law", b, sg, x0, h, 1)
    a = tr.attempt(lambda: np.asarray(jax.vmap(lambda k: hypo(k, x0, b, sg, h, 1)[1][1])(
        jax.random.split(jax.random.PRNGKey(seed), n))))
    if a is not None:
        tr.add("Law", reps=1, **moments(a))
    return tr


def hypo_resid(tid, b, sg, x0, h, N, seed, wrap="plain"):
    import jax
    d = len(b)
    tr = hypo_trace(tid, "hypo_resid", b, sg, x0, h, N)
    out = tr.attempt(lambda: wrapped(lambda k: hypo(k, x0, b, sg, h, N), wrap)(jax.random.PRNGKey(seed)))
    if out is None:
        return tr
    xs = start(tr, *out, d)
    if xs is None:
        return tr
    for k in range(len(xs) - 1):
        tr.add("Resid", x=enc(xs[k + 1]))
    tr.add("Sum")
    return tr


def hypo_tiny(tid, b, sg, x0, h, N, seed):
    """Diffusion of size 1e-7: the trajectory is the deterministic part to within the tolerance of the trace."""
    import jax
    d = len(b)
    sg = [[[(c / 10 ** 7, e) for c, e in p] for p in r] for r in sg]
    tr = hypo_trace(tid, "hypo_tiny", b, sg, x0, h, N, tol=1e-5)
    out = tr.attempt(lambda: hypo(jax.random.PRNGKey(seed), x0, b, sg, h, N))
    if out is None:
        return tr
    xs = start(tr, *out, d)
    if xs is not None:
        for k in range(min(N, len(xs) - 1)):
            tr.add("Step", eps=enc([0.0] * d), x=enc(xs[k + 1]))
    return tr


def rnd_hypo(rng, d, const_u):
    """Smooth first coordinate; noise in the others, of full rank."""
    b = F.rnd_field(rng, d, deg=3, tdeg=0, terms=3, scale=0.25)
    if const_u:
        b[0] = F.rnd_poly(rng, d, deg=3, tdeg=0, terms=2, scale=0.25, vars_=[0])
    b[0] = [m for m in b[0] if not (sum(m[1]) == 1 and m[1][0] == 0)]
    for j in range(1, d):
        b[0].append((F.Fraction(rng.choice([-10, -6, 5, 8, 12]), 8), tuple(1 if k == j else 0 for k in range(d + 1))))
    m = d
    sg = [[[] for _ in range(m)] for _ in range(d)]
    for j in range(1, d):
        for c in range(m):
            if c == j - 1:
                sg[j][c] = F.const(F.Fraction(rng.randint(4, 12), 8), d)
            elif c < j - 1 or c == m - 1:
                sg[j][c] = F.const(F.Fraction(rng.randint(-4, 4), 8), d)
            if not const_u and sg[j][c]:
                sg[j][c] = sg[j][c] + [(F.Fraction(rng.randint(-4, 4), 16), tuple(1 if k == rng.randrange(d) else 0
                                                                               for k in range(d + 1)))]
                sg[j][c] = [x for x in sg[j][c] if x[0]]
    return b, sg


def degenerate(rng, b, sg, x0):
    """Singular one-step covariances: noise missing in some rough coordinates, or no sensitivity to them (at x0 or anywhere)."""
    d = len(b)
    what = rng.choice(["rows", "all", "flat"] + (["spot"] if x0 is not None else []))
    if what == "rows":
        for j in rng.sample(range(1, d), rng.randint(1, d - 1)):
            sg[j] = [[] for _ in sg[j]]
    elif what == "all":
        sg = [[[] for _ in r] for r in sg]
    elif what == "flat":
        b[0] = [m for m in b[0] if not any(m[1][1:d])]
    else:
        # quadratic in the rough coordinates around x0
        b[0] = [m for m in b[0] if not any(m[1][1:d])]
        for j in range(1, d):
            c = F.Fraction(rng.choice([-3, 2, 5]), 4)
            v = F.Fraction(x0[j])
            e = lambda k: tuple(k if i == j else 0 for i in range(d + 1))  # noqa: E731
            b[0] += [(c, e(2))] + ([(-2 * c * v, e(1)), (c * v * v, e(0))] if v else [])
        b[0] = merge(b[0])
    return b, sg


def merge(p):
    acc = {}
    for c, e in p:
        acc[e] = acc.get(e, 0) + c
    return [(c, e) for e, c in acc.items() if c]


def hypo_job(lo, hi, seed, n=20000, big=False):
    out = []
    for i in range(lo, hi):
        rng = F.seeded("hypo", seed, i)
        d = rng.choice([2, 2, 3, 4, 5])
        x0 = [v * 0.5 for v in F.rnd_vec(rng, d)]
        h = rng.choice([0.25, 0.1, 0.2, 0.05, 1 / 7])
        N = rng.choice([1, 3, 8])
        s = rng.randint(0, 10 ** 6)
        b, sg = rnd_hypo(rng, d, True)
        wrap = ["plain", "jit"][i % 2]
        if i % 4 == 3:
            b, sg = degenerate(rng, b, sg, None)
        out.append(hypo_pair(f"pair{i}-{wrap}", b, sg, x0, h, N, s, wrap))
        b, sg = rnd_hypo(rng, d, False)
        out.append(hypo_tiny(f"tiny{i}", b, sg, x0, h, N, s))
        b, sg = rnd_hypo(rng, d, False)
        if i % 2:
            # much steeper in the state than the terms of degree one above
            sg = [[[(c * 4 if sum(e) else c, e) for c, e in p] for p in r] for r in sg]
        out.append(hypo_local(f"local{i}-{wrap}", b, sg, x0, h, rng.choice([2, 3, 6]), s, wrap))
        if i % 3 == 0:
            b, sg = rnd_hypo(rng, d, False)
            out.append(hypo_law(f"law{i}", b, sg, x0, h, s, n))
            b, sg = degenerate(rng, *rnd_hypo(rng, d, False), x0)
            out.append(hypo_law(f"singular{i}", b, sg, x0, h, s, n))
        if i % 3 == 1:
            # affine drift: no blow up over the longer run
            b = [F.rnd_poly(rng, d, deg=1, tdeg=0, terms=2, scale=0.25) + b[0][-(d - 1):]] + \
                [F.rnd_poly(rng, d, deg=1, tdeg=0, terms=3, scale=0.25) for _ in range(d - 1)]
            b[0] = merge(b[0])
            out.append(hypo_resid(f"resid{i}", b, sg, x0, 0.02, 300 if big else 120, s, wrap))
    return out


# ---------------------------------------------------------------- Euler ODE solver
def euler_trace(tid, f, x0, h, N, wrap="plain", split=None):
    import jax.numpy as jnp
    from bayesian_sde_solver.ode_solvers import euler
    tr = Trace(tid, "euler", scheme="euler", b=F.enc_field(f), sg=[], x0=enc(x0), h=q(h), n=N, m=0, standard=False,
               tol=q(1e-10))
    g = F.fn(f)
    y = tr.attempt(lambda: np.asarray(wrapped(lambda x: euler(x, g, h, N), wrap)(jnp.asarray(x0))))
    if y is None:
        return tr
    if y.shape != (len(x0),):
        tr.add("Raised", what=f"shape {y.shape}")
        return tr
    tr.add("Return", x=enc(y))
    if split:
        def two():
            mid = euler(jnp.asarray(x0), g, h, split)
            return np.asarray(euler(mid, lambda x, t: g(x, t + split * h), h, N - split))
        z = tr.attempt(two)
        if z is not None:
            tr.add("Split", x=enc(z))
    return tr


def euler_job(lo, hi, seed, big=False):
    out = []
    for i in range(lo, hi):
        rng = F.seeded("euler", seed, i)
        d = rng.choice([1, 2, 3, 5])
        f = F.rnd_field(rng, d, tdeg=2, scale=0.5) if not big else F.rnd_field(rng, d, deg=1, tdeg=2, scale=0.5)
        h = rng.choice([0.25, 0.1, 0.0625, 0.5, 0.01, 0.3, 1.0, 1e-3, 1 / 3, 1e-7] if not big else [0.02, 0.03125, 1e-3])
        N = rng.choice([1, 2, 3, 7, 12] if not big else [33, 64, 101, 130])
        N, h = (big, h / 16) if big > 1 else (N, h)
        out.append(euler_trace(f"euler{i}", f, F.rnd_vec(rng, d), h, N, ["plain", "jit"][i % 2],
                               split=N // 2 if N > 1 and i % 2 else None))
    return out
