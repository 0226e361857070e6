"""Shared machinery: encoding of observations, TLC runs, verdicts, evidence.

No numerical judgement is made here or in the drivers: they run the code of /repo, write
down what it returned as exact rationals, and TLC evaluates the specification on it.
"""
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SPEC = VERIF / "spec"
BUILD = VERIF / "build"
CLS = BUILD / "cls"
EVID = VERIF / "evidence"
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = VERIF / "known_findings.txt"
B = 10000


class Machinery(Exception):
    """The check itself could not do its work (never a verdict)."""


# ------------------------------------------------------------------ encoding
def limbs(n):
    out = []
    while n:
        out.append(n % B)
        n //= B
    return out


def q(x):
    """Exact rational [sign, limbs, limbs]; sign 2 marks a value that is not finite."""
    if not isinstance(x, (Fraction, int)):
        x = float(x)
        if not math.isfinite(x):
            return [2, [], [1]]
    f = Fraction(x)
    return [(f > 0) - (f < 0), limbs(abs(f.numerator)), limbs(f.denominator)]


def enc(a):
    """Encode a nested array or scalar of numbers; ints outside are encoded as rationals too."""
    import numpy as np
    if isinstance(a, (Fraction, int, float)):
        return q(a)
    if isinstance(a, (list, tuple)):
        return [enc(v) for v in a]
    a = np.asarray(a)
    if a.dtype.kind not in "fiub":
        raise TypeError(f"cannot encode dtype {a.dtype}")
    if a.ndim == 0:
        return q(a.item())
    return [enc(v) for v in a]


def q_to_float(r):
    s, n, d = r
    num = sum(v * B ** i for i, v in enumerate(n))
    den = sum(v * B ** i for i, v in enumerate(d))
    return float("nan") if s == 2 else float(s * Fraction(num, den))


class Trace(dict):
    def __init__(self, id, kind, **h):
        super().__init__(id=re.sub(r"[^A-Za-z0-9_.+=,:-]", "_", id), kind=kind, h=h, ev=[])

    def add(self, a, **f):
        self["ev"].append(dict(a=a, **f))
        return self

    def attempt(self, fn):
        """Run code under test; an exception becomes an event the specification refuses."""
        try:
            return fn()
        except Exception as e:  # noqa: BLE001
            self.add("Raised", what=f"{type(e).__name__}: {e}"[:300])
            return None


def is_array(x, shape=None):
    import numpy as np
    try:
        a = np.asarray(x)
    except Exception:  # noqa: BLE001
        return False
    return a.dtype.kind in "fiub" and (shape is None or a.shape == tuple(shape))


# ------------------------------------------------------------------ TLC
def build_java():
    src = VERIF / "java/tlc2/module/Rat.java"
    out = CLS / "tlc2/module/Rat.class"
    if out.exists() and out.stat().st_mtime >= src.stat().st_mtime:
        return CLS
    CLS.mkdir(parents=True, exist_ok=True)
    r = subprocess.run(["javac", "-nowarn", "-cp", TLA, "-d", str(CLS), str(src)], capture_output=True, text=True)
    if r.returncode:
        raise Machinery("javac failed:\n" + r.stdout + r.stderr)
    return CLS


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out
        v = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated"
                      r"|Temporal properties were violated", out)
        self.violated = v.group(0) if v else None


def tlc(module, cfg=None, env=None, workers=8, timeout=600, args=(), heap="6g", deadlock=False):
    build_java()
    md = tempfile.mkdtemp(prefix="vtlc")
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", "-cp", f"{CLS}:{TLA}:{CM}", "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           *([] if deadlock else ["-deadlock"]), "-config", f"{cfg or module}.cfg", *args, f"{module}.tla"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **(env or {})}, capture_output=True, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise Machinery(f"TLC timed out on {module}") from e
    finally:
        shutil.rmtree(md, ignore_errors=True)
    res = TlcResult(r.stdout + r.stderr, r.returncode, time.time() - t0)
    if "spec/Rat.tla" in res.out and "Rat.class" not in res.out:
        raise Machinery("TLC did not load the accelerator:\n" + res.out[-2000:])
    return res


def validate(module, traces, workers=8, timeout=800):
    """[(trace, set of violated clauses)] for every trace, and the TLC result."""
    if not traces:
        raise Machinery("no traces recorded")
    ids = [t["id"] for t in traces]
    if len(set(ids)) != len(ids):
        raise Machinery("duplicate trace ids: " + ", ".join(sorted({i for i in ids if ids.count(i) > 1})))
    for t in traces:
        if not t["ev"]:
            raise Machinery(f"empty trace {t['id']}")
    fd, path = tempfile.mkstemp(suffix=".ndjson")
    with os.fdopen(fd, "w") as f:
        for t in traces:
            f.write(json.dumps(t) + "\n")
    try:
        res = tlc(module, env={"TRACE": path}, workers=workers, timeout=timeout)
    finally:
        os.unlink(path)
    done = {}
    for m in re.finditer(r'"DONE (\d+) (\S+) \{(.*?)\}"', res.out.replace("\n", " ")):
        done[int(m.group(1))] = set(re.findall(r'[A-Za-z0-9_]+', m.group(3).replace("\\", "")))
    missing = [t["id"] for i, t in enumerate(traces, 1) if i not in done]
    if missing or not res.ok:
        keep = BUILD / "tlc-failure"
        keep.mkdir(parents=True, exist_ok=True)
        (keep / f"{module}.out").write_text(res.out)
        with open(keep / f"{module}.ndjson", "w") as f:
            for t in traces:
                if t["id"] in missing:
                    f.write(json.dumps(t) + "\n")
        raise Machinery(f"{module}: no verdict for {missing[:5]} ({len(missing)})\n" + res.out[-3000:])
    return [(t, done[i]) for i, t in enumerate(traces, 1)], res


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            m = re.match(rf"finding: property={prop} trace=(\S+) clause=(\S+) (.*)", line)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


# ------------------------------------------------------------------ job pool
def _init_worker():
    os.environ["JAX_PLATFORMS"] = "cpu"
    os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    import jax
    jax.config.update("jax_enable_x64", True)
    import tqdm.std
    tqdm.std.tqdm.__init__.__kwdefaults__  # tqdm present
    os.environ["TQDM_DISABLE"] = "1"


def _run_job(a):
    mod, fn, kw = a
    import importlib
    try:
        m = importlib.import_module(mod)
        res = getattr(m, fn)(**kw)
        res = list(res) if res is not None else []
        return ("ok", res)
    except Exception:  # noqa: BLE001
        return ("err", traceback.format_exc())


def run_jobs(mod, jobs, procs=8):
    """jobs: [(function name, kwargs)]; every function returns a list of Trace."""
    import multiprocessing as mp
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["TQDM_DISABLE"] = "1"
    os.environ["JAX_PLATFORMS"] = "cpu"
    ctx = mp.get_context("spawn")
    traces = []
    with ctx.Pool(min(procs, len(jobs)), initializer=_init_worker) as pool:
        it = pool.imap_unordered(_run_job_idx, [(i, mod, f, kw) for i, (f, kw) in enumerate(jobs)])
        got = {}
        for i, res in it:
            got[i] = res
    for i, (f, kw) in enumerate(jobs):
        st, r = got[i]
        if st == "err":
            raise Machinery(f"driver {mod}.{f}({kw}) failed:\n{r}")
        for t in r:
            t["job"] = [f, kw]
            traces.append(t)
    return traces


def _run_job_idx(a):
    return a[0], _run_job(a[1:])


# ------------------------------------------------------------------ a check
class Check:
    """Collects model checking runs and trace validations of one property."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples, self.violations, self.mcs, self.exh = [], [], [], []
        self.kinds = {}
        self.assumptions = []

    def model(self, module, cfg=None, note="", timeout=800, min_states=2, **kw):
        r = tlc(module, cfg, timeout=timeout, **kw)
        if r.violated:
            raise Machinery(f"the specification itself violates: {r.violated}\n{r.out[-3000:]}")
        if not r.ok:
            raise Machinery(f"TLC failed on {module}:\n{r.out[-3000:]}")
        if r.states < min_states:
            raise Machinery(f"{module} explored only {r.states} states")
        self.states += r.states
        self.transitions += r.transitions
        self.mcs.append(dict(model=cfg or module, states=r.states, transitions=r.transitions, wall_s=round(r.wall, 1),
                             what=note))
        return r

    def validate(self, module, traces, timeout=800):
        res, r = validate(module, traces, timeout=timeout)
        self.states += r.states
        self.transitions += r.transitions
        self.validated += len(traces)
        self.mcs.append(dict(model=module, states=r.states, transitions=r.transitions, traces=len(traces),
                             wall_s=round(r.wall, 1)))
        for t, bad in res:
            k = self.kinds.setdefault(t["kind"], [0, 0])
            k[0] += 1
            k[1] += len(t["ev"])
            if k[0] <= 1:
                self.samples.append(dict(trace=t["id"], kind=t["kind"], job=t.get("job"),
                                         events=[e["a"] for e in t["ev"]][:12]))
            if bad:
                self.violations.append((t, bad))

    def finish(self):
        known = known_findings(self.prop)
        EVID.mkdir(exist_ok=True)
        fresh = []
        for t, bad in self.violations:
            for c in sorted(bad):
                if (t["id"], c) in known:
                    print(f"KNOWN-FINDING: property={self.prop} {known[(t['id'], c)]}")
                else:
                    fresh.append((t, c))
        path = EVID / f"{self.prop}.json"
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                   samples=self.samples[:12], traces_by_kind={k: dict(traces=v[0], events=v[1])
                                                              for k, v in self.kinds.items()},
                   runs=self.mcs)
        path.write_text(json.dumps(dict(
            property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
            assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(fresh)), indent=1))
        if fresh:
            rdir = EVID / "replay"
            rdir.mkdir(exist_ok=True)
            seen = set()
            for t, c in fresh:
                if t["id"] in seen:
                    continue
                seen.add(t["id"])
                rp = rdir / f"{self.prop}-{re.sub(r'[^A-Za-z0-9_.-]', '_', t['id'])[:80]}.json"
                if len(seen) <= 10:
                    rp.write_text(json.dumps(dict(property=self.prop, trace=t["id"], job=t.get("job"),
                                                  violated=sorted(x for tt, x in fresh if tt is t),
                                                  events=t["ev"][-1].get("what") or t["ev"][-1]["a"], record=t)))
                    print(f"  trace {t['id']} ({t['kind']}): violates "
                          f"{', '.join(sorted(x for tt, x in fresh if tt is t))}"
                          + (f" [{t['ev'][-1]['what']}]" if t["ev"][-1].get("what") else ""))
                    print(f"VIOLATION property={self.prop} replay={rp}")
            print(f"{self.prop}: {len(seen)} of {self.validated} traces violate the specification")
            return 1
        print(f"{self.prop}: ok, {self.validated} traces validated, {self.states} states, "
              f"{time.time() - self.t0:.1f}s")
        return 0
