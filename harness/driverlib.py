"""Recorded runs of sde_solver and ssm_parabola_ode_solver (C01, C02, C03)."""
from functools import partial

import numpy as np

from .common import Trace, enc, is_array, q
from . import fields as F


def keydata(key):
    import jax.numpy as jnp
    return jnp.asarray(key).astype(jnp.uint32)


def probe_ode(npr, d):
    """An integrator that reports what it is given; its own step is y + T f(y, T/2)."""
    import jax
    import jax.numpy as jnp

    zs = np.array([[0.5 * (i + 1) - 0.25 * j for j in range(d)] for i in range(npr)])
    us = [0.0, 1.0, 0.375, 0.75][:npr]

    def ode(key, init, vector_field, T):
        y, cnt = init[0], init[1]
        dt = y.dtype
        v0 = vector_field(y, 0.5 * T)
        pv = jnp.stack([vector_field(jnp.asarray(zs[i], dtype=dt), us[i] * T) for i in range(npr)])
        # the derivatives the solvers take of the field, at the last probe
        z, t = jnp.asarray(zs[-1], dtype=dt), jnp.asarray(us[-1] * T, dtype=dt)
        pj = jax.jacfwd(vector_field, 0)(z, t)
        pt = jax.jacfwd(vector_field, 1)(z, t)
        return (y + T * v0, cnt + 1, jnp.asarray(T, dtype=dt) * jnp.ones(()), keydata(key), v0, pv, pj, pt)

    return ode, zs, us


def bm_of(kind, m, dt_fine=7):
    """bm() -> (get_coeffs, eval_fn); every kind also reports the key and horizon it was given."""
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.foster_polynomial import get_approx, get_approx_and_brownian, get_approx_fine

    base = dict(parabola=lambda: get_approx(m), brownian=lambda: get_approx_and_brownian(m, N=dt_fine),
                fine=lambda: get_approx_fine(m, N=dt_fine)).get(kind)

    def bm():
        if base is not None:
            gc, ev = base()

            def get(key, dt):
                return (*gc(key, dt), keydata(key), dt * jnp.ones(()))

            return get, lambda t, dt, *c: ev(t, dt, *c[:-2])

        def get(key, dt):  # a user's own approximation, small integers
            r = jax.random.randint(key, (3, m), -2, 3).astype(jnp.result_type(float))
            return r[0], r[1], r[2], keydata(key), dt * jnp.ones(())

        return get, lambda t, dt, a, b, c, *_: a * t + b * t ** 2 + c * t ** 3

    return bm


def kint(k):
    return [int(v) // 65536 * 1 for v in np.asarray(k).ravel()] + [int(v) % 65536 for v in np.asarray(k).ravel()]


def children(ks):
    """Keys the consumers of these keys may derive from them."""
    import jax
    import jax.numpy as jnp
    ks = jnp.asarray(np.asarray(ks).astype(np.uint32))
    out = [np.asarray(jax.vmap(lambda k: jax.random.split(k, n))(ks)) for n in (2, 3, 4, 5)]  # noqa: B023
    out.append(np.asarray(jax.vmap(lambda k: jax.vmap(lambda i: jax.random.fold_in(k, i))(jnp.arange(2)))(ks)))
    return [[kint(c) for c in r] for r in np.concatenate(out, axis=1)]


def pack(f):
    """The integrator on a single array that concatenates the parts of the state."""
    import jax.numpy as jnp

    def solver(key, init, *a, shapes, **kw):
        parts, i = [], 0
        given = init
        init = init.ravel()
        for sh, dt in shapes:
            n = int(np.prod(sh))
            parts.append(init[i:i + n].reshape(sh).astype(dt))
            i += n
        out = f(key, tuple(parts), *a, **kw)
        nx = out[0] if isinstance(out[0], tuple) else out
        flat = jnp.concatenate([jnp.ravel(v).astype(init.dtype) for v in nx])
        flat = flat.reshape(given.shape)
        return (flat, *out[1:]) if isinstance(out[0], tuple) else flat

    return solver


def flat(init, how=True):
    import jax.numpy as jnp
    shapes = [(v.shape, v.dtype) for v in init]
    v = jnp.concatenate([jnp.ravel(v).astype(init[0].dtype) for v in init])
    return (v[:, None] if how == "column" else v), shapes


def unpacked(traj, shapes):
    out, i = [], 0
    traj = np.asarray(traj)
    traj = traj.reshape(traj.shape[0], -1)
    for sh, dt in shapes:
        n = int(np.prod(sh))
        out.append(traj[:, i:i + n].reshape((traj.shape[0], *sh)).astype(dt))
        i += n
    return tuple(out)


def start_leaves(npr, d, dt, ms=()):
    """Initial parts of the state, all different."""
    import jax.numpy as jnp
    return (jnp.asarray(3, dtype=jnp.int32), jnp.asarray(0.25, dtype=dt), jnp.asarray([7, 11], dtype=jnp.uint32),
            jnp.arange(1, d + 1).astype(dt) / 8, jnp.arange(npr * d).reshape(npr, d).astype(dt) / 4 + 2,
            jnp.arange(d * d).reshape(d, d).astype(dt) / 16 - 5, jnp.arange(d).astype(dt) + 40,
            *[v for m in ms for v in (jnp.arange(npr * d * m).reshape(npr, d, m).astype(dt) / 2 - 1,
                                      jnp.arange(d * m * d).reshape(d, m, d).astype(dt) / 2 + 100)])


def run_rode(*a, dtype="float64", **kw):
    """float32 is JAX's default mode; the rest of the harness runs in double precision."""
    if dtype == "float32":
        import jax
        with jax.experimental.disable_x64():
            return _run_rode(*a, dtype=dtype, **kw)
    return _run_rode(*a, dtype=dtype, **kw)


def _run_rode(tid, want, drift, sigma, x0, delta, N, bmkind, seed, npr=2, wrap="plain", dtype="float64",
              packed=False):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solver import sde_solver
    d, m = len(drift), len(sigma[0])
    dt = jnp.dtype(dtype)
    kind = "power" if bmkind == "power" else "parabola"
    key = jax.random.PRNGKey(seed)
    x0a = jnp.asarray(x0, dtype=dt)
    df, sf = F.fn(drift), F.mfn(sigma)
    ode, zs, us = probe_ode(npr, d)
    init = (x0a, *start_leaves(npr, d, dt))
    inits = [enc(np.asarray(v).ravel()) for v in init]
    shapes = None
    if packed:
        init, shapes = flat(init, packed)
        ode = partial(pack(ode), shapes=shapes)
    tol = 1e-9 if dtype == "float64" else 1e-4
    tr = Trace(tid, "rode", want=want, driver="rode", drift=F.enc_field(drift), sigma=F.enc_mfield(sigma),
               x0=enc(np.asarray(x0a)), delta=q(delta), n=N, bmk=kind, tol=q(tol), bm=True, key=kint(key),
               inits=inits, cnt0=3)

    def go(k):
        return sde_solver(key=k, drift=df, sigma=sf, x0=init, bm=bm_of(bmkind, m), delta=delta, N=N, ode_int=ode)

    def call():
        if wrap == "jit":
            return jax.jit(go)(key)
        if wrap == "vmap":
            out = jax.vmap(go)(jnp.stack([key, jax.random.PRNGKey(seed + 1)]))
            return jax.tree_util.tree_map(lambda a: a[0], out)
        return go(key)

    out = tr.attempt(call)
    if out is None:
        return tr
    return record(tr, out, N, d, zs, us, delta, kind, npr, "rode", shapes, want)


def record(tr, out, N, d, zs, us, delta, kind, npr, driver, shapes=None, want=None):
    try:
        ts, traj, *co = out
        if shapes:
            traj = unpacked(traj, shapes)
        leaves = [np.asarray(a) for a in traj]
        co = [np.asarray(a) for a in co]
        ys, cnt, Ts, ks, v0, pv, pj, pt = leaves[:8]
        lens = [int(a.shape[0]) for a in leaves]
        clens = [int(a.shape[0]) for a in co]
        ts = np.asarray(ts)
        assert ys.shape[1:] == (d,) and v0.shape[1:] == (d,) and pv.shape[1:] == (npr, d)
        assert pj.shape[1:] == (d, d) and pt.shape[1:] == (d,)
    except Exception as e:  # noqa: BLE001
        tr.add("Raised", what=f"unexpected result structure: {e}")
        return tr
    tr.add("Start", ts=enc(ts.ravel()), lens=lens, clens=clens, first=enc(ys[0]),
           firsts=[enc(a[0].ravel()) for a in leaves])
    kids = [] if want != "C03" else [children(ks[1:])] + ([children(co[-2])] if driver == "rode" else [])
    for k in range(min(lens) - 1):
        ev = dict(J=enc(pj[k + 1]), Jt=enc(pt[k + 1]), T=enc(Ts[k + 1]), x=enc(ys[k + 1]), cnt=int(cnt[k + 1]), v0=enc(v0[k + 1]))
        keys = [kint(ks[k + 1])]
        if driver == "rode":
            if k >= min(clens):
                break
            bmk, bmdt = co[-2], co[-1]
            keys.append(kint(bmk[k]))
            ev["bmdt"] = enc(bmdt[k])
            nco = 3 if kind == "power" else 2
            ev["c"] = enc([co[i][k] for i in range(nco)])
            ev["probes"] = [dict(z=enc(zs[i]), t=enc(float(us[i]) * float(Ts[k + 1])), v=enc(pv[k + 1, i]))
                            for i in range(npr)]
        else:
            sg = leaves[8]
            ev["SJ"] = enc(leaves[9][k + 1])
            ev["probes"] = [dict(z=enc(zs[i]), t=enc(float(us[i]) * float(Ts[k + 1])), v=enc(pv[k + 1, i]),
                                 sg=enc(sg[k + 1, i])) for i in range(npr)]
        tr.add("Step", keys=keys, kids=[c[k] for c in kids], **ev)
    return tr


def run_ssm(tid, want, drift, sigma, x0, delta, N, seed, npr=2, wrap="plain", packed=False):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver
    d, m = len(drift), len(sigma[0])
    key = jax.random.PRNGKey(seed)
    x0a = jnp.asarray(x0)
    df, sf = F.fn(drift), F.mfn(sigma)
    zs = np.array([[0.5 * (i + 1) - 0.25 * j for j in range(d)] for i in range(npr)])
    us = [0.0, 1.0, 0.375, 0.75][:npr]

    def solver(key, init, drift, diffusion, T):
        y, cnt = init[0], init[1]
        v0 = drift(y, 0.5 * T)
        pv = jnp.stack([drift(jnp.asarray(zs[i]), us[i] * T) for i in range(npr)])
        sg = jnp.stack([diffusion(jnp.asarray(zs[i]), us[i] * T) for i in range(npr)])
        z, t = jnp.asarray(zs[-1]), jnp.asarray(us[-1] * T)
        pj, pt = jax.jacfwd(drift, 0)(z, t), jax.jacfwd(drift, 1)(z, t)
        sj = jax.jacfwd(diffusion, 0)(z, t)
        nx = (y + T * v0, cnt + 1, T * jnp.ones(()), keydata(key), v0, pv, pj, pt, sg, sj)
        return nx, jnp.zeros((m,)), jnp.zeros((m,))

    init = (x0a, *start_leaves(npr, d, x0a.dtype, ms=(m,)))
    inits = [enc(np.asarray(v).ravel()) for v in init]
    shapes = None
    if packed:
        init, shapes = flat(init, packed)
        solver = partial(pack(solver), shapes=shapes)
    tr = Trace(tid, "ssm", want=want, driver="ssm", drift=F.enc_field(drift), sigma=F.enc_mfield(sigma), x0=enc(x0),
               delta=q(delta), n=N, bmk="none", tol=q(1e-9), bm=False, key=kint(key), inits=inits, cnt0=3)

    def go(k):
        return ssm_parabola_ode_solver(key=k, drift=df, sigma=sf, x0=init, delta=delta, N=N, solver=solver)

    def call():
        if wrap == "jit":
            return jax.jit(go)(key)
        if wrap == "vmap":
            out = jax.vmap(go)(jnp.stack([key, jax.random.PRNGKey(seed + 1)]))
            return jax.tree_util.tree_map(lambda a: a[0], out)
        return go(key)

    out = tr.attempt(call)
    if out is None:
        return tr
    return record(tr, out, N, d, zs, us, delta, None, npr, "ssm", shapes, want)


# ---------------------------------------------------------------- jobs
DELTAS = [0.5, 0.1, 1.0, 0.03125, 2.0, 1e-3, 1 / 3, 0.7239187265, 3.1e-7, 1e-10]


def scen_job(want, scens, seed):
    """Scenarios enumerated by MC_SdeDriver."""
    out = []
    from .common import q_to_float
    for i, sc in scens:
        args = (F.dec_field(sc["drift"]), F.dec_mfield(sc["sigma"]), [q_to_float(v) for v in sc["x0"]],
                q_to_float(sc["delta"]), sc["n"])
        out.append(run_rode(f"mc{i}", want, *args, ["parabola", "power"][i % 2], seed + i))
    return out


def random_job(want, lo, hi, seed, big=False):
    out = []
    for i in range(lo, hi):
        rng = F.seeded("driver", want, seed, i)
        d, m = rng.choice([(1, 1), (2, 2), (2, 1), (1, 2), (3, 2)])
        delta = rng.choice(DELTAS if not big else [0.01, 0.03125, 1e-3, 0.017])
        deg = 3 if delta < 0.2 and rng.random() < 0.5 else 2  # no blow up
        drift = F.rnd_field(rng, d, deg=deg, tdeg=deg) if not big else F.rnd_field(rng, d, deg=1, tdeg=1, scale=0.5)
        sigma = F.rnd_sigma(rng, d, m, deg=deg - 1 if not big else 1, tdeg=1, terms=2, scale=0.5 if big else 1.0)
        x0 = F.rnd_vec(rng, d)
        N = rng.choice([1, 2, 3, 5, 8] if not big else [37, 64, 101, 130])
        bmk = rng.choice(["parabola", "power", "brownian", "fine"])
        wrap = ["plain", "jit", "vmap"][i % 3]
        dtype = "float32" if i % 7 == 3 and not big else "float64"
        if dtype == "float32":
            bmk, delta, N = "parabola", 0.125, min(N, 4)
        s = rng.randint(0, 10 ** 6)
        packed = {1: True, 3: "column"}.get(i % 4, False) if dtype == "float64" else False
        out.append(run_rode(f"rode{i}-{bmk}-{wrap}-{dtype}{f'-packed{packed}' if packed else ''}", want, drift, sigma,
                            x0, delta, N, bmk, s, wrap=wrap, dtype=dtype, packed=packed))
        if i % 2 == 0:
            out.append(run_ssm(f"ssm{i}-{wrap}", want, drift, sigma, x0, delta, N, s, wrap=wrap,
                               packed={2: True, 4: "column"}.get(i % 8, False)))
    return out


def giant_job(want, N, seed):
    """more steps than any blocking of the loop"""
    rng = F.seeded("giant", want, seed)
    drift = [[(F.Fraction(-1, 2), (1, 0)), (F.Fraction(1, 4), (0, 1))]]
    sigma = [[[(F.Fraction(1, 2), (0, 0)), (F.Fraction(1, 8), (0, 1))]]]
    s = rng.randint(0, 10 ** 6)
    return [run_rode(f"giant-rode{N}", want, drift, sigma, [0.5], 0.0078125, N, "power", s, npr=1, wrap="jit"),
            run_ssm(f"giant-ssm{N}", want, drift, sigma, [0.5], 0.0078125, N, s, npr=1, wrap="jit")]


def scenarios(out):
    import json
    import re
    return [json.loads(s.replace('\\"', '"')) for s in sorted(set(re.findall(r'"SCEN (.*)"', out)))]


def collect(r, want, ck, extra=()):
    from . import common
    sc = list(enumerate(scenarios(r.out)))
    rng = F.seeded("scen", want, ck.seed)
    deep = ck.tier == "thorough"
    if not deep:
        rng.shuffle(sc)
        sc = sc[:24]
    jobs = [("scen_job", dict(want=want, scens=sc[i::8], seed=ck.seed)) for i in range(8)]
    n = 96 if deep else 24
    jobs += [("random_job", dict(want=want, lo=i, hi=i + 3, seed=ck.seed)) for i in range(0, n, 3)]
    jobs += [("random_job", dict(want=want, lo=1000 + i, hi=1000 + i + 1, seed=ck.seed, big=True))
             for i in range(0, 24 if deep else 5)]
    jobs += [("giant_job", dict(want=want, N=n, seed=ck.seed)) for n in ([1030, 2049] if deep else [1030])]
    jobs += list(extra)
    return common.run_jobs(f"harness.{want.lower()}", jobs)


# ---------------------------------------------------------------- noise and reproducibility (C03)
def methods(N, delta, d=2):
    """name -> function of a key returning the (N, d) increments of a run without drift, unit diffusion."""
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver import sde_solvers as S, foster_polynomial as P, ode_solvers as O
    from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver, ekf0_marginal_parabola, \
        ekf1_marginal_parabola
    zero2 = lambda x, t=0.0: 0.0 * x  # noqa: E731
    eye2 = lambda x, t=0.0: jnp.eye(d) + 0.0 * x[0]  # noqa: E731
    x0 = jnp.zeros((d,))

    def traj(f):
        def g(key):
            out = f(key)[1]
            out = out[0] if isinstance(out, tuple) else out
            return jnp.diff(out, axis=0)
        return g

    def rode(ode, bm=P.get_approx):
        return traj(lambda k: sde_solver(key=k, drift=zero2, sigma=eye2, x0=x0, bm=lambda: bm(d), delta=delta, N=N,
                                         ode_int=ode))

    def rode2(ode):
        init = (x0, x0, jnp.zeros((d, d)))
        return traj(lambda k: sde_solver(key=k, drift=zero2, sigma=eye2, x0=init, bm=lambda: P.get_approx(d),
                                         delta=delta, N=N, ode_int=ode))

    def w(o, **kw):
        return lambda key, init, vector_field, T: o(key=key, init=init, vector_field=vector_field, h=T / 2, N=2, **kw)

    def ssm(o):
        return traj(lambda k: ssm_parabola_ode_solver(
            key=k, drift=zero2, sigma=eye2, x0=x0, delta=delta, N=N,
            solver=lambda key, init, drift, diffusion, T: o(key=key, init=init, delta=T, drift=drift,
                                                            diffusion=diffusion, h=T / 2, N=2)))

    def coefs(bm):  # noqa: E306
        def g(k):
            _, _, a, b, *_ = sde_solver(key=k, drift=zero2, sigma=eye2, x0=x0, bm=lambda: bm(d), delta=delta, N=N,
                                        ode_int=lambda key, init, vector_field, T: init)
            return jnp.concatenate([a, b * jnp.sqrt(2.0)], axis=1)
        return g

    hypo_s = lambda x: jnp.array([[0.0, 0.0], [0.0, 1.0]])  # noqa: E731
    hypo_b = lambda x: jnp.array([x[1], 0.0])  # noqa: E731
    return dict(
        em=traj(lambda k: S.euler_maruyama(k, x0, zero2, eye2, delta, N)),
        diag15=traj(lambda k: S.diag_15_scheme(k, x0, zero2, eye2, delta, N)),
        hypo15=lambda k: jnp.diff(S.hypoelliptic_diffusion_15_scheme(k, x0, hypo_b, hypo_s, delta, N)[1],
                                  axis=0)[:, 1:],
        ekf0=rode(w(O.ekf0)), ekf1=rode(w(O.ekf1, sqrt=True)), ekf0_2=rode2(w(O.ekf0_2)), ekf1_2=rode2(w(O.ekf1_2)),
        euler=rode(lambda key, init, vector_field, T: O.euler(init, vector_field, T / 2, 2)),
        ssm0=ssm(ekf0_marginal_parabola), ssm1=ssm(ekf1_marginal_parabola),
        parabola=coefs(P.get_approx), fine=coefs(lambda d: P.get_approx_fine(d, N=5)),
        brownian=coefs(lambda d: P.get_approx_and_brownian(d, N=5)))


METHODS = ["em", "diag15", "hypo15", "ekf0", "ekf1", "ekf0_2", "ekf1_2", "euler", "ssm0", "ssm1", "parabola", "fine",
           "brownian"]


def noise_job(names, seed, N=12, delta=0.25, d=2):
    """Increments are all different (no noise used twice); runs are reproducible functions of the key."""
    import jax
    import jax.numpy as jnp
    out = []
    for name in names:
        key, key2 = jax.random.PRNGKey(seed), jax.random.PRNGKey(seed + 1)
        tr = Trace(f"noise-{name}-{seed}-{N}-d{d}", "noise", want="C03", tol=q(1e-9), whole=N > 50)
        out.append(tr)
        f = tr.attempt(lambda: methods(N, delta, d)[name])
        a = f and tr.attempt(lambda: np.asarray(f(key)))
        if a is None:
            continue
        tr.add("Noise0")
        for r in a:
            tr.add("Noise", u=enc(r))
        runs = dict(repeat=lambda: f(key), jit=lambda: jax.jit(f)(key),
                    vmap=lambda: jax.vmap(f)(jnp.stack([key2, key]))[1])
        for r, g in runs.items():
            b = tr.attempt(lambda: np.asarray(g()))
            if b is None:
                break
            tr.add("Same", how=r, u=enc(b.ravel()), v=enc(a.ravel()))
        else:
            # another seed, and keys that differ in one of their words only
            for k in (key2, jnp.asarray([12345, seed], dtype=key.dtype), jnp.asarray([0, seed + 2 ** 31], dtype=key.dtype)):
                b = tr.attempt(lambda: np.asarray(f(k)))
                if b is None:
                    break
                tr.add("Differ", u=enc(b.ravel()), v=enc(a.ravel()))
    return out
