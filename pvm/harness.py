"""What every check shares: reading models through the public API, replaying them
against the reference, collecting what the monitors saw, and reporting."""
import contextlib
import io
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

import numpy as np

from .textmodel import TextModel
from .reference import Reference, Indeterminate, Unstable, IllConditioned
from . import gen

REPO = os.environ.get("PVM_REPO", "/repo")


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


class Broken(Exception):
    """an oracle saw the property broken"""


class Monitor:
    """collects observations of one run"""

    def __init__(self, seed=0, tier="quick"):
        self.seed, self.tier = seed, tier
        self.events = Counter()           # what the monitors observed
        self.cases = 0                    # evaluations
        self.sigs = set()                 # distinct non-trivial cases
        self.samples = []
        self.violations = []
        self.scratch = tempfile.mkdtemp(prefix="pvm_")
        self.t0 = time.time()
        self.stop_at = None

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.scratch, name)

    def left(self):
        return self.stop_at is None or time.time() < self.stop_at

    def saw(self, what, n=1):
        self.events[what] += int(n)

    def case(self, sig=None, sample=None):
        self.cases += 1
        if sig is not None:
            self.sigs.add(sig)
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def fail(self, what, **detail):
        self.violations.append(dict(what=what, **{k: _plain(v) for k, v in detail.items()}))
        raise Broken(what)

    def check(self, cond, what, **detail):
        self.saw("assertions")
        if not cond:
            self.fail(what, **detail)

    def close_to(self, got, want, what, tol=1e-6, scale=None, **detail):
        """got == want up to tol relative to scale (default: size of want)"""
        got, want = np.asarray(got, float), np.asarray(want, float)
        detail = {k + "_" if k in ("at", "got", "want", "what") else k: v for k, v in detail.items()}
        self.saw("assertions")
        if got.shape != want.shape:
            self.fail(what + ": shape", got=got.shape, want=want.shape, **detail)
        if got.size == 0:
            return
        if scale is None:
            fin = np.abs(want[np.isfinite(want)])
            scale = 1 + (fin.max() if fin.size else 0)
        same = (got == want) | (np.isnan(got) & np.isnan(want))
        with np.errstate(invalid="ignore"):
            ok = same | (np.abs(got - want) <= tol * scale)
        if not ok.all():
            i = np.unravel_index(np.argmax(~ok), ok.shape)
            self.fail(what, at=[int(j) for j in i], got=float(got[i]), want=float(want[i]), **detail)

    def dump(self):
        return dict(events=dict(self.events), cases=self.cases, sigs=sorted(map(str, self.sigs)),
                    samples=self.samples, violations=self.violations)

    def absorb(self, d):
        self.events.update(d["events"])
        self.cases += d["cases"]
        self.sigs.update(d["sigs"])
        for s in d["samples"]:
            if len(self.samples) < 6:
                self.samples.append(s)
        self.violations += d["violations"]


def _plain(v):
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return str(v)[:2000]


# ---- models ---------------------------------------------------------------
def write_model(mon, spec, name="m", style=None, text=None):
    """files of a model in a fresh directory; returns the path of the yaml"""
    d = tempfile.mkdtemp(dir=mon.scratch)
    p = os.path.join(d, name + ".yaml")
    with open(p, "w") as f:
        f.write(text if text is not None else spec.render(style))
    if spec is not None and spec.funcs:
        with open(os.path.join(d, name + "_funcs.py"), "w") as f:
            f.write(spec.funcs)
    return p


def read(path, **kw):
    from pydsge import DSGE
    with quiet():
        return DSGE.read(path, **kw)


class Case:
    """a model read by pydsge together with its reference"""

    def __init__(self, mon, spec, style=None, values=None, l_max=None, k_max=None, setpar=True, path=None):
        self.mon, self.spec = mon, spec
        self.text = spec.render()
        self.tm = TextModel(self.text, spec.func_dict())
        self.R = Reference(self.tm, values)
        self.path = path or write_model(mon, spec, style=style)
        self.mod = read(self.path)
        if setpar:
            with quiet():
                self.mod.set_par(list(self.tm.calib if values is None else values), l_max=l_max, k_max=k_max)
            self.sync()
        # the longest expected (wait, spell) that is considered; one more period of waiting than asked for
        self.lmax, self.kmax = (3 if l_max is None else l_max + 1), (17 if k_max is None else k_max)

    def sync(self):
        """index maps between the model's state vector and the reference"""
        vv = [str(v) for v in self.mod.vv]
        self.names = [v for v in self.tm.variables if v in vv]
        self.mi = np.array([vv.index(v) for v in self.names])
        self.ri = np.array([self.R.ix[v] for v in self.names])
        return self

    def reparam(self, values):
        self.R = Reference(self.tm, values)
        return self.sync()


def draw_case(mon, rng, features=None, tries=20, values=False, **kw):
    """a random model that has a well-conditioned unique stable solution"""
    nobs = kw.pop("nobs", None)
    for _ in range(tries):
        spec = gen.draw(rng, features, nobs)
        try:
            tm = TextModel(spec.render(), spec.func_dict())
            v = gen.perturb(rng, tm) if values else None
            Reference(tm, v)
        except (Indeterminate, Unstable, IllConditioned):
            mon.saw("draws rejected")
            continue
        return Case(mon, spec, values=v, **kw)
    raise RuntimeError("no admissible model")


def shock_std(case):
    return case.tm.stds(case.R.par)


def read_example(mon, which):
    """the example models shipped with the package, with a canonical text"""
    import pydsge
    d = os.path.join(os.path.dirname(os.path.abspath(pydsge.__file__)), "examples")
    path = os.path.join(d, which + ".yaml")
    text = open(path).read().replace("    ~ ", "    - ")
    funcs = {}
    fp = os.path.join(d, which + "_funcs.py")
    if os.path.exists(fp):
        ns = {}
        exec(open(fp).read(), ns)
        funcs = {k: v for k, v in ns.items() if callable(v) and not k.startswith("__")}

    class S(gen.Spec):
        def __init__(self):
            super().__init__()
            self.tags = {"example_" + which}
            self.funcs = None

        def render(self, style=None):
            return text

        def func_dict(self):
            return funcs
    return S(), path


def example_case(mon, which, values=None, **kw):
    spec, path = read_example(mon, which)
    return Case(mon, spec, path=path, values=values, **kw)


def any_case(mon, rng, i, features=None, values=False, **kw):
    """the two examples first, then random models"""
    if features is None and i in (0, 1):
        kw.pop("nobs", None)
        c = example_case(mon, ("dfi", "minimal_nk")[i], **kw)
        return c
    return draw_case(mon, rng, features, values=values, **kw)


class Path:
    """dated values by name; periods before the start are zero unless given"""

    def __init__(self, names, shocks):
        self.v = {n: [] for n in names}
        self.e = {n: [] for n in shocks}

    def push(self, vals, shocks):
        for n, x in vals.items():
            self.v[n].append(float(x))
        for n, x in shocks.items():
            self.e[n].append(float(x))

    def get(self, t):
        def g(name, lag):
            src = self.v if name in self.v else self.e
            s = t + lag
            return src[name][s] if 0 <= s < len(src[name]) else 0.0
        return g

    def __len__(self):
        return len(next(iter(self.v.values())))


def residuals(tm, par, path, t):
    """residual of every written equation at t, relative to the size of its terms"""
    out = []
    g = path.get(t)
    for e in tm.eqs:
        res = e.residual(par, g)
        _, cf = e.cached_coefs(par)
        size = 1 + sum(abs(c * g(*a)) for a, c in cf.items())
        out.append(res / size)
    return np.array(out)


def shadow_value(tm, par, path, t):
    """value of the right-hand side of the constraint"""
    return eval(tm.const.rhs_code, dict(par, _g=path.get(t), __builtins__={}))


def max_lead(tm):
    return max(d for e in tm.eqs for _, d in e.atoms)


# ---- data and estimation ----------------------------------------------------
def simulate_obs(c, rng, T, scale=1., linear=True):
    """data from the reference, without measurement error: DataFrame with a quarterly index"""
    import pandas as pd
    R = c.R
    H, cst = R.obs()
    sd = shock_std(c)
    x, Z = np.zeros(R.n), []
    for t in range(T + 10):
        e = sd * rng.standard_normal(len(sd)) * scale
        l = k = 0
        if not linear:
            l, k, status = R.select(x, e, 3, 17)
            if status != "ok":
                l = k = 0
        x = R.step(x, e, l, k)
        Z.append(H @ x + cst)
    return pd.DataFrame(np.array(Z[10:]), columns=c.tm.observables,
                        index=pd.date_range("1990-03-31", periods=T, freq="QE"))


def square_case(mon, rng, features=(), tries=40, min_shocks=2, **kw):
    """a model with as many observables as shocks whose observables are not redundant"""
    for _ in range(tries):
        spec = gen.draw(rng, set(features) | {"cost_push"})
        n = len(spec.cov)
        if n < min_shocks or len(spec.obs) != n:
            continue
        try:
            tm = TextModel(spec.render(), spec.func_dict())
            R = Reference(tm)
        except (Indeterminate, Unstable, IllConditioned):
            mon.saw("draws rejected")
            continue
        H, _ = R.obs()
        V = H @ R.stationary() @ H.T
        d = np.sqrt(np.diag(V))
        M = H @ R.Q @ np.diag(tm.stds(R.par))
        if d.min() < 1e-3 or np.linalg.cond(V / np.outer(d, d)) > 1e5 or np.linalg.cond(M) > 1e5:
            mon.saw("draws rejected")
            continue
        return Case(mon, spec, **kw)
    raise RuntimeError("no admissible model")
