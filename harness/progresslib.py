"""Recorded scans with a progress bar (C19)."""
import os

import numpy as np

from . import fields as F
from .common import Trace, enc, q


class Recorder:
    """Stand-in behaviour of the tqdm base class: every bar writes to /dev/null and is recorded."""

    def __init__(self):
        self.log, self.bars, self.keep = [], {}, []

    def __enter__(self):
        from tqdm.std import tqdm
        self.cls, self.saved = tqdm, {k: getattr(tqdm, k) for k in ("__init__", "update", "close")}
        rec, sv = self, self.saved
        self.null = open(os.devnull, "w")

        def init(bar, *a, **kw):
            kw.update(file=rec.null, disable=False)
            sv["__init__"](bar, *a, **kw)
            rec.keep.append(bar)  # no close by garbage collection
            rec.bars[id(bar)] = "open"
            rec.log.append(("Open", bar, bar.total))

        def update(bar, n=1):
            rec.log.append(("Update", bar, n))
            return sv["update"](bar, n)

        def close(bar):
            if rec.bars.get(id(bar)) == "open":
                rec.bars[id(bar)] = "closed"
                rec.log.append(("Close", bar, bar.n))
            return sv["close"](bar)

        tqdm.__init__, tqdm.update, tqdm.close = init, update, close
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(self.cls, k, v)
        for b in self.keep:
            b.disable = True
        self.null.close()

    def flush(self, tr, message):
        """Events since the last flush, once all host callbacks have run."""
        import jax
        from jax.experimental import host_callback
        host_callback.barrier_wait()
        jax.effects_barrier()
        log, self.log = self.log, []
        for what, bar, v in log:
            if what == "Open":
                tr.add("Open", total=int(v) if v is not None else -1,
                       msg=message is None or (bar.desc or "").rstrip(": ") == message.rstrip(": "))
            elif what == "Update":
                k = np.asarray(v)
                tr.add("Update", k=int(k) if k.ndim == 0 and float(k) == int(k) else -1)
            else:
                tr.add("Close")
                tr.add("Shown", n=int(v))


def body(kind, rng):
    """(scan body of (carry, x), initial carry, whether x carries data)"""
    import jax
    import jax.numpy as jnp
    a, b = rng.choice([0.5, -0.25, 1.0]), rng.choice([1.0, 2.0, 0.125])
    if kind == "index":
        return (lambda c, i: (a * c + b * i, c - i)), jnp.asarray([1.0, -2.0]), False
    if kind == "tuple":
        def f(c, x):
            i, v = x
            return a * c + v * jnp.asarray([b, 1.0]) - 0.5 * i, (c + v, i)
        return f, jnp.asarray([0.5, 3.0]), True
    if kind == "pytree":
        def f(c, x):
            i, v = x
            p, (r, k) = c
            return (a * p + v, (r * 0.5 + i, k + 1)), dict(s=p.sum() + r, k=k)
        return f, (jnp.asarray([1.0, 2.0]), (jnp.asarray(0.25), 0)), True
    if kind == "random":
        def f(c, x):
            i, v = x
            return 0.5 * c + jax.random.normal(jax.random.fold_in(jax.random.PRNGKey(3), i), c.shape) + v, c
        return f, jnp.asarray([1.0, 2.0, 3.0]), True
    raise ValueError(kind)


def flat(tree):
    import jax
    return [np.ravel(np.asarray(v)) for v in jax.tree_util.tree_leaves(tree)]


def progress_job(cases, seed):
    import jax
    import jax.numpy as jnp
    from bayesian_sde_solver.utils.progress_bar import progress_bar
    out = []
    for i, N, kind, how in cases:
        rng = F.seeded("bar", seed, i)
        msg = rng.choice(["N=%d" % N, "Solving", "a longer message", None, "", "steps: 100%"])
        f, c0, data = body(kind, rng)
        idx = jnp.arange(N)
        xs = (idx, jnp.asarray([rng.randint(-16, 16) / 8 for _ in range(N)])) if data else idx
        tr = Trace(f"bar{i}-N{N}-{kind}-{how}", "bar", n=N, tol=q(1e-12))
        out.append(tr)
        kw = {} if msg is None else dict(message=msg)
        bare = lambda c: jax.lax.scan(f, c, xs)  # noqa: E731
        with Recorder() as rec:
            w = tr.attempt(lambda: progress_bar(N, **kw)(f))
            if w is None:
                continue
            run = lambda c: jax.lax.scan(w, c, xs)  # noqa: E731
            if how == "jit":
                run, bare = jax.jit(run), jax.jit(bare)
            elif how == "vmap":
                c0 = jax.tree_util.tree_map(lambda v: jnp.stack([jnp.asarray(v), jnp.asarray(v) * 2]), c0)
                run, bare = jax.vmap(run), jax.vmap(bare)
            for _ in range(2 if N < 200 else 1):
                r = tr.attempt(lambda: jax.block_until_ready(run(c0)))
                if r is None:
                    break
                rec.flush(tr, msg)
                tr.add("End")
                r0 = bare(c0)
                keep = slice(None) if N < 200 else slice(None, None, 97)
                cut = lambda t: [v[keep] if len(v) > 400 else v for v in flat(t)]  # noqa: E731
                got = tr.attempt(lambda: (cut(r[0]), cut(r[1])))
                if got is None:
                    break
                tr.add("Result", carry=enc(got[0]), out=enc(got[1]), carry0=enc(cut(r0[0])), out0=enc(cut(r0[1])))
    return out
