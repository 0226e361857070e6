"""Polynomial problems: the drifts and diffusions the specification can differentiate.

A polynomial is a list of monomials (coefficient, exponents of x_1..x_d and of t).
"""
import random
from fractions import Fraction

from .common import q, q_to_float


def fn(polys, autonomous=False):
    """JAX function (x, t) -> vector of the polynomial field."""
    import jax.numpy as jnp

    def mono(m, x, t):
        c, e = m
        v = jnp.asarray(float(c), dtype=x.dtype)
        for i, k in enumerate(e[:-1]):
            if k:
                v = v * x[i] ** k
        if e[-1]:
            v = v * t ** e[-1]
        return v

    def poly(p, x, t):
        v = jnp.zeros((), dtype=x.dtype) + 0.0 * jnp.sum(x)
        for m in p:
            v = v + mono(m, x, t)
        return v

    def f(x, t=0.0):
        return jnp.stack([poly(p, x, t) for p in polys])

    return (lambda x: f(x, 0.0)) if autonomous else f


def mfn(rows, autonomous=False):
    fs = [fn(r) for r in rows]

    def f(x, t=0.0):
        import jax.numpy as jnp
        return jnp.stack([g(x, t) for g in fs])

    return (lambda x: f(x, 0.0)) if autonomous else f


def enc_field(polys):
    return [[dict(c=q(c), e=list(e)) for c, e in p] for p in polys]


def enc_mfield(rows):
    return [enc_field(r) for r in rows]


def dec_field(f):
    """From the specification's JSON."""
    return [[(Fraction(q_to_float(m["c"])), tuple(m["e"])) for m in p] for p in f]


def dec_mfield(s):
    return [dec_field(r) for r in s]


def rnd_poly(rng, d, deg=2, tdeg=1, terms=3, scale=1.0, vars_=None):
    out = []
    vs = list(range(d)) if vars_ is None else list(vars_)
    for _ in range(terms):
        e = [0] * (d + 1)
        for _ in range(rng.randint(0, deg)):
            if vs:
                e[rng.choice(vs)] += 1
        e[d] = rng.randint(0, tdeg)
        out.append((Fraction(rng.randint(-12, 12) * scale / 8), tuple(e)))
    return [m for m in out if m[0] != 0]


def rnd_field(rng, d, **kw):
    return [rnd_poly(rng, d, **kw) for _ in range(d)]


def rnd_sigma(rng, d, m, **kw):
    return [[rnd_poly(rng, d, **kw) for _ in range(m)] for _ in range(d)]


def rnd_vec(rng, d, scale=1.0):
    return [rng.randint(-64, 64) / 64 * scale for _ in range(d)]


def const(c, d):
    return [(Fraction(c), tuple([0] * (d + 1)))] if c else []


def const_matrix(mat, d):
    return [[const(v, d) for v in row] for row in mat]


def linear(mat, d):
    """x -> mat x"""
    return [[(Fraction(mat[i][j]), tuple(1 if k == j else 0 for k in range(d + 1))) for j in range(d) if mat[i][j]]
            for i in range(d)]


def eye(d):
    return [[1.0 if i == j else 0.0 for j in range(d)] for i in range(d)]


def seeded(*a):
    return random.Random(repr(a))
