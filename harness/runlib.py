"""Recorded whole runs of the drivers with the solvers of the repository (C23)."""
import numpy as np

from . import fields as F
from .common import Trace, enc, q, q_to_float
from .filterlib import gram, jx, mat, noise, prior, priorj, shaped, vec

METHODS = ["euler", "ekf0", "ekf1", "mix0", "mix1", "marg0", "marg1"]


def coded(c):
    return dict(euler=("euler", False), ekf0=("fresh", True), ekf1=("fresh", False), mix0=("mix", True),
                mix1=("mix", False), marg0=("marg", True), marg1=("marg", False))[c]


def problem(rng, method, fkind=None):
    ode, ekf0 = coded(method)
    if ode == "marg":
        d = m = rng.choice([1, 2])
    else:
        d, m = rng.choice([(1, 1), (2, 2), (2, 1), (1, 2), (2, 2), (3, 1), (4, 3), (1, 5)])
    delta = rng.choice([0.5, 0.25, 0.125, 1.0, 1 / 3])
    M, N = rng.choice([1, 2, 3]), rng.choice([2, 3, 4])
    h = delta / M
    fkind = fkind or rng.choice(["full", "full", "linear", "additive", "none"])
    drift = dict(full=lambda: F.rnd_field(rng, d, deg=2, tdeg=1, terms=3, scale=0.4),
                 linear=lambda: F.linear(mat(rng, d, d, 0.75).tolist(), d),
                 additive=lambda: F.rnd_field(rng, d, deg=2, tdeg=1, terms=2, scale=0.4),
                 none=lambda: [[] for _ in range(d)])[fkind]()
    if fkind in ("additive", "none"):
        sigma = F.const_matrix([[rng.randint(-6, 6) / 8 for _ in range(m)] for _ in range(d)], d)
    else:
        sigma = F.rnd_sigma(rng, d, m, deg=1, tdeg=1, terms=2, scale=0.4)
    n, pr, hd = 2, None, dict(prior="ibm")
    if ode in ("fresh", "mix") and rng.random() < 0.4:
        kinds = ["ibm", "ou", "wild"] + (["ibm3", "pad", "q3"] if ode == "fresh" else [])
        while True:
            n, pr, hd = prior(rng, rng.choice(kinds), d, h)
            if n == 2 or ode == "fresh":
                break
    R, Rv = (None, np.zeros((d, d))) if ode == "euler" or rng.random() < 0.6 else noise(rng, d)
    P0 = gram(rng, d, rng.choice([None, 1, 0]), scale=rng.choice([0.5, 0.5, 4.0]))[0] if ode == "mix" else np.zeros((d, d))
    sqrt = rng.choice([None, False, True])
    return dict(ode=ode, ekf0=ekf0, d=d, m=m, delta=delta, M=M, N=N, h=h, drift=drift, sigma=sigma, n=n, prior=pr, hd=hd,
                R=R, Rv=Rv, P0=P0, x0=vec(rng, d), sqrt=sqrt, fkind=fkind, bm=rng.choice(["parabola", "brownian", "fine"]))


def trace(tid, c, keyed, tol):
    return Trace(tid, "run-" + c["ode"], drift=F.enc_field(c["drift"]), sigma=F.enc_mfield(c["sigma"]), x0=enc(c["x0"]),
                 P0=enc(c["P0"]), delta=q(c["delta"]), h=q(c["h"]), M=c["M"], N=c["N"], n=c["n"], ode=c["ode"],
                 ekf0=bool(c["ekf0"]), R=enc(c["Rv"]), keyed=keyed, tol=q(tol), **c["hd"])


def call(c, keyed):
    """function of a key"""
    import jax.numpy as jnp
    from bayesian_sde_solver import foster_polynomial as B, ode_solvers as O
    from bayesian_sde_solver.sde_solver import sde_solver
    from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver, ekf0_marginal_parabola, \
        ekf1_marginal_parabola
    drift, sigma = F.fn(c["drift"]), F.mfn(c["sigma"])
    kw = dict(prior=priorj(c["prior"]), noise=None if c["R"] is None else jx(c["R"]))
    if c["sqrt"] is not None:
        kw["sqrt"] = c["sqrt"]
    use = (lambda k: k) if keyed else (lambda k: None)
    x0 = jx(c["x0"])
    if c["ode"] == "marg":
        sv = ekf0_marginal_parabola if c["ekf0"] else ekf1_marginal_parabola
        return lambda key: ssm_parabola_ode_solver(
            key, drift, sigma, x0, c["delta"], c["N"],
            lambda k, init, drift, diffusion, T: sv(use(k), init, T, drift, diffusion, T / c["M"], c["M"], **kw))
    bm = dict(parabola=lambda: B.get_approx(c["m"]), fine=lambda: B.get_approx_fine(c["m"], N=6),
              brownian=lambda: B.get_approx_and_brownian(c["m"], N=9))[c["bm"]]
    if c["ode"] == "euler":
        def ode(k, init, vector_field, T):
            return O.euler(init, vector_field, T / c["M"], c["M"])
    else:
        sv = dict(fresh=(O.ekf1, O.ekf0), mix=(O.ekf1_2, O.ekf0_2))[c["ode"]][c["ekf0"]]

        def ode(k, init, vector_field, T):
            return sv(use(k), init=init, vector_field=vector_field, h=T / c["M"], N=c["M"], **kw)
    init = (x0 + 0.0, x0, jnp.asarray(c["P0"])) if c["ode"] == "mix" else x0
    return lambda key: sde_solver(key, drift, sigma, init, bm, c["delta"], c["N"], ode)


def record(tr, c, out):
    d, m, N = c["d"], c["m"], c["N"]
    got = tr.attempt(lambda: (np.asarray(out[0]), [np.asarray(v) for v in (out[1] if c["ode"] == "mix" else [out[1]])],
                              [np.asarray(v) for v in out[2:]]))
    if got is None:
        return False
    ts, xs, co = got
    sh = [(N + 1, d)] + ([(N + 1, d), (N + 1, d, d)] if c["ode"] == "mix" else [])
    if shaped(tr, xs, sh) is None or shaped(tr, [ts], [(N + 1,)]) is None:
        return False
    if c["ode"] != "marg" and shaped(tr, co[:2], [(N, m)] * 2) is None:
        return False
    ms, Ps = (xs[1], xs[2]) if c["ode"] == "mix" else (xs[0], None)
    tr.add("Start", ts=enc(ts), len=len(xs[0]), x=enc(xs[0][0]), P=[] if Ps is None else enc(Ps[0]))
    for k in range(N):
        ev = dict(x=enc(xs[0][k + 1]), m=enc(ms[k + 1]), P=[] if Ps is None else enc(Ps[k + 1]))
        if c["ode"] != "marg":
            ev["c"] = [enc(co[0][k]), enc(co[1][k])]
        tr.add("Step", **ev)
    return True


def go(c, keyed, how, seed):
    import jax
    import jax.numpy as jnp
    f, key = call(c, keyed), jax.random.PRNGKey(seed)
    if how == "jit":
        return jax.jit(f)(key)
    if how == "vmap":
        return jax.tree_util.tree_map(lambda v: v[1], jax.vmap(f)(jnp.stack([jax.random.PRNGKey(seed + 7), key])))
    return f(key)


def run_job(lo, hi, seed):
    out = []
    for i in range(lo, hi):
        rng = F.seeded("run", seed, i)
        method = METHODS[i % len(METHODS)]
        c = problem(rng, method)
        how = ["plain", "jit", "vmap"][(i // len(METHODS)) % 3]
        tr = trace(f"run{i}-{method}-{c['fkind']}-{c['bm']}-{how}-sqrt{c['sqrt']}", c, False, 1e-8)
        out.append(tr)
        r = tr.attempt(lambda: go(c, False, how, rng.randint(0, 10 ** 6)))
        if r is not None:
            record(tr, c, r)
    return out


def scen_job(scens, seed):
    out = []
    for i, sc in scens:
        ode, delta, M = sc["ode"], q_to_float(sc["delta"]), sc["m"]
        c = dict(ode=ode, ekf0=sc["ekf0"], d=1, m=1, delta=delta, M=M, N=3, h=delta / M, drift=F.dec_field(sc["drift"]),
                 sigma=F.dec_mfield(sc["sigma"]), n=2, prior=None, hd=dict(prior="ibm"), R=None, Rv=np.zeros((1, 1)),
                 P0=np.zeros((1, 1)), x0=np.array([q_to_float(v) for v in sc["x0"]]), sqrt=[None, False, True][i % 3],
                 fkind="mc", bm="parabola")
        tr = trace(f"mc{i}-{ode}-{'ekf0' if sc['ekf0'] else 'ekf1'}", c, False, 1e-7)
        out.append(tr)
        r = tr.attempt(lambda: go(c, False, "jit", seed * 100 + i))
        if r is not None:
            record(tr, c, r)
    return out


def keyed_job(lo, hi, seed, steps):
    """long runs with sampling"""
    out = []
    for i in range(lo, hi):
        rng = F.seeded("runk", seed, i)
        method = ["ekf0", "ekf1", "mix0", "mix1", "marg0", "marg1"][i % 6]
        c = problem(rng, method, fkind="linear")
        out.append(keyed(c, i, method, rng, steps))
    return out


def long_job(lo, hi, seed):
    """long runs without sampling: mean reverting, the horizon well past the reversion time"""
    out = []
    for i in range(lo, hi):
        rng = F.seeded("runl", seed, i)
        method = METHODS[i % len(METHODS)]
        c = problem(rng, method, fkind="linear")
        d = c["d"]
        calm(c, d, rng, i)
        # forcing that grows with time: the state never settles, so that a late step still shows in it
        if i % 3 != 2:
            ramp = rng.choice([0.5, -0.375, 0.25])
            c["drift"] = [p + [(F.Fraction(ramp), tuple([0] * d + [1]))] for p in c["drift"]]
        # the noise on the state and the time too, kept small
        c["sigma"] = F.rnd_sigma(rng, d, c["m"], deg=1, tdeg=0, terms=2, scale=0.1)
        c["R"], c["Rv"] = None, np.zeros((d, d))
        delta = rng.choice([0.5, 1 / 3, 0.625])
        c.update(N=rng.choice([29, 37, 44]), P0=np.zeros((d, d)), delta=delta, h=delta / c["M"])
        how = ["plain", "jit", "vmap"][(i // len(METHODS)) % 3]
        tr = trace(f"long{i}-{method}-{c['bm']}-{how}-sqrt{c['sqrt']}", c, False, 1e-7)
        out.append(tr)
        r = tr.attempt(lambda: go(c, False, how, rng.randint(0, 10 ** 6)))
        if r is not None:
            record(tr, c, r)
    return out


def calm(c, d, rng, i):
    c["drift"] = [F.linear([[-1.0 if a == b else 0.25 / d for b in range(d)] for a in range(d)], d)[a] for a in range(d)]
    if i % 2 == 0:
        c["drift"] = [p + F.const(rng.choice([0.5, -0.25]), d) for p in c["drift"]]
    c["prior"], c["hd"], c["n"] = None, dict(prior="ibm"), 2


def keyed(c, i, method, rng, steps):
    # mean reverting drift keeps the run bounded; noise everywhere keeps the covariances regular
    d = c["d"]
    calm(c, d, rng, i)
    c["sigma"] = F.const_matrix([[0.75 if a == b else 0.125 for b in range(c["m"])] for a in range(d)], d)
    delta = 0.5 if c["M"] > 1 and i % 4 > 1 else 0.25
    c.update(N=steps, P0=np.zeros((d, d)), delta=delta, h=delta / c["M"])
    tr = trace(f"keyed{i}-{method}-{c['bm']}-sqrt{c['sqrt']}", c, True, 1e-7)
    r = tr.attempt(lambda: go(c, True, "jit", rng.randint(0, 10 ** 6)))
    if r is not None and record(tr, c, r):
        tr.add("Sum")
    return tr
