"""What is interrupted or killed can be done again: models stay usable, chains on disk stay and continue."""
import ast
import copy
import glob
import json
import os
import subprocess
import sys
import threading
import numpy as np
import pandas as pd
from ..harness import *

CASES = {"quick": 6, "thorough": 300}
RULE = ("a case is one model with data, a filter and a short chain; each of its operations is interrupted (Ctrl-C) at random "
        "lines, after which the model must answer a fixed list of questions as before (operations that change the model: once "
        "parameters are set again) and the repeated operation must give what it gives uninterrupted; and one run of a sampler that is killed "
        "at a random evaluation and taken up again by another process; an evaluation is one interruption; "
        "non-trivial: the interruption came out of the call")
ASSUMES = ["interruptions inside of `finally` and `except` blocks are not judged (no Python code survives those)",
           "processes die during an evaluation of the posterior, not during a write of the HDF5 library"]
MIN = {"interrupted": 200, "kinds": 80, "killed": 2, "resumed": 2, "changes": 40, "questions": 100, "refused": 40,
       "refused parameters": 8}


class Stop(KeyboardInterrupt):
    pass


def cleanup_lines():
    """lines of `finally` and `except` blocks of the package"""
    import pydsge
    d = os.path.dirname(os.path.abspath(pydsge.__file__))
    out = {}
    for f in glob.glob(os.path.join(d, "*.py")):
        s = set()
        for n in ast.walk(ast.parse(open(f).read())):
            if isinstance(n, ast.Try):
                for b in n.finalbody + [x for h in n.handlers for x in h.body]:
                    s.update(range(b.lineno, b.end_lineno + 1))
                for h in n.handlers:
                    s.add(h.lineno)
        out[f] = s
    return d, out


class Tracer:
    """counts executed lines of the package; raises at the n-th"""

    def __init__(self, at=None):
        self.at, self.n, self.where = at, 0, None
        self.d, self.clean = cleanup_lines()

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.at is not None and self.n >= self.at and self.where is None:
                f = frame
                while f is not None:
                    if f.f_lineno in self.clean.get(f.f_code.co_filename, ()) or f.f_code.co_name in ("__exit__", "__del__"):
                        return self.local
                    f = f.f_back
                self.where = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise Stop()
        return self.local

    def call(self, frame, event, arg):
        return self.local if frame.f_code.co_filename in self.clean else None

    def run(self, f):
        old = sys.gettrace()
        sys.settrace(self.call)
        try:
            return f()
        finally:
            sys.settrace(old)


CHILD = r'''
import sys, json, os, io, contextlib, warnings
warnings.simplefilter("ignore")
a = json.loads(sys.argv[1])
import numpy as np
import pandas as pd
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    import pydsge
    from pydsge import DSGE
    import pydsge.estimation as es
    m = DSGE.read(a["path"])
    m.set_par("calib")
    d = pd.DataFrame(a["data"], columns=a["obs"], index=pd.date_range("1990-03-31", periods=len(a["data"]), freq="QE"))
    m.load_data(d)
    m.prep_estim(linear=True, seed=0, ncores=0, verbose=False)
    m.filter.R = np.array(a["R"])
    inner = m.filter.batch_filter
    if a["die"]:
        import econsieve
        cls = type(m.filter)
        orig = cls.batch_filter
        mark = a["mark"]
        def batch_filter(self, *x, **k):
            import os
            with open(mark, "a") as h:
                h.write("x")
            if os.path.getsize(mark) >= a["die"]:
                os._exit(9)
            return orig(self, *x, **k)
        cls.batch_filter = batch_filter
    kw = dict(resume=True) if a["resume"] else dict(p0=np.array(a["p0"]))
    m.mcmc(nsteps=a["n"], tune=2, seed=a["seed"], backend=a["h5"], verbose=False, **kw)
    out = dict(chain=np.array(m.get_chain()).tolist(), lp=np.array(m.get_log_prob()).tolist(),
               mode=np.array(m.get_par("mode", full=False)).tolist())
    json.dump(out, open(a["out"], "w"))
os._exit(0)
'''


def killed(mon, rng, i, c, d, R, P0):
    """a run of the sampler that dies, and one that continues"""
    import emcee
    m = c.mod
    nw, nd = P0.shape
    n = 6
    common = dict(path=c.path, data=d.to_numpy().tolist(), obs=list(d.columns), R=R.tolist(), p0=P0.tolist(), n=n, seed=5,
                  resume=False, die=0, mark=mon.path("mark%d" % i), h5=mon.path("whole%d.h5" % i), out=mon.path("whole%d" % i))

    def go(**kw):
        a = dict(common, **kw)
        r = subprocess.run([sys.executable, "-c", CHILD, json.dumps(a)], capture_output=True, text=True, timeout=300)
        return r, (json.load(open(a["out"])) if r.returncode == 0 else None)
    r, whole = go()
    mon.check(r.returncode == 0, "a run of the sampler failed", err=r.stderr[-1500:])
    X, L = np.array(whole["chain"]), np.array(whole["lp"])
    f = mon.path("killed%d.h5" % i)
    r, _ = go(h5=f, die=int(nw * rng.uniform(2.2, n - .2)), out=mon.path("k%d" % i))
    if r.returncode == 0:
        return                     # fewer evaluations than thought (outside of the prior)
    mon.check(r.returncode == 9, "a run of the sampler failed", err=r.stderr[-1500:])
    mon.saw("killed")
    b = emcee.backends.HDFBackend(f, read_only=True)
    k = b.iteration
    mon.check(0 <= k < n, "number of stored states of a run that was killed", got=k)
    if k:
        mon.check(np.array_equal(b.get_chain(), X[:k]) and np.array_equal(b.get_log_prob(), L[:k]),
                  "what a killed run leaves on disk is not the beginning of the whole run", got=b.get_chain(), want=X[:k])
    else:
        return
    r, res = go(h5=f, resume=True, n=3, out=mon.path("r%d" % i))
    mon.check(r.returncode == 0, "a run that was killed cannot be taken up again", err=r.stderr[-1500:], kept=k)
    Y, LY = np.array(res["chain"]), np.array(res["lp"])
    mon.check(len(Y) == k + 3, "number of states after taking up a run again", got=len(Y), want=k + 3)
    mon.check(np.array_equal(Y[:k], X[:k]) and np.array_equal(LY[:k], L[:k]), "taking up a run again changes what was stored")
    if not np.any(Y[k:] != Y[k - 1]):
        mon.saw("no move")
    for t in range(k, k + 3):
        for w in range(0, nw, 3):
            mon.close_to(LY[t, w], m.lprob(Y[t, w]), "density of a draw after taking up a run again", tol=1e-8)
    mon.saw("resumed")
    mon.case(sig=(i, "killed"))


def case(mon, rng, i):
    from .C24 import grab, same
    from .C16 import go
    from ..child26 import flat
    from pydsge import DSGE
    linear = bool(i % 2)
    c = square_case(mon, rng, features={"no_zeros"})
    m, tm = c.mod, c.tm
    d = simulate_obs(c, rng, 6)
    if not np.isfinite(d.to_numpy()).all() or d.std().min() < 1e-3:
        raise IllConditioned("data")
    est = [str(p) for p in m.prior]
    nd, nx, ne = len(est), len(m.vv), len(tm.shocks)
    Rm = np.diag((d.std().to_numpy() + .05) ** 2 * .1)

    def prep(lin=linear):
        m.load_data(d)
        m.prep_estim(linear=lin, N=10, seed=3, ncores=0, verbose=False, dry_run=False)
        m.filter.R = Rm.copy()
    prep(True)
    P0 = []
    nw = max(2 * nd + 2, 6)
    for _ in range(30 * nw):
        if len(P0) == nw:
            break
        v = dict(zip(tm.parameters, gen.perturb(rng, tm)))
        x = [v[p] for p in est]
        if np.isfinite(m.lprob(x)):
            P0.append(x)
    if len(P0) < nw:
        raise IllConditioned("no initial states")
    P0 = np.array(P0)
    if linear:
        killed(mon, rng, i, c, d, Rm, P0)
    prep()

    def first():
        go(mon, m, p0=P0.copy(), nsteps=3, tune=2, seed=1, backend=False, verbose=False)
    first()
    vs = []
    for _ in range(30):
        v = gen.perturb(rng, tm)
        try:
            Reference(tm, v)
        except (Indeterminate, Unstable, IllConditioned):
            continue
        m.set_par(v)
        names = [str(q) for q in m.vv]
        if not vs or names == vs[0][1]:
            vs.append((list(v), names))
        if len(vs) == 2:
            break
    if len(vs) < 2:
        raise IllConditioned("no parameters")
    V = np.array([v for v, _ in vs])

    def home():
        m.set_par(V[0], l_max=3, k_max=12)
    home()
    sd = tm.stds(tm.full_par(list(V[0])))
    x0, e0 = rng.standard_normal(nx) * .3, rng.standard_normal(ne) * sd * 3
    s0 = [(tm.shocks[0], float(-4 * sd[0]), 0), (tm.shocks[-1], float(2 * sd[-1]), 1)]
    E, I = rng.standard_normal((2, 4, ne)) * sd * 2, rng.standard_normal((2, nx)) * .1
    ex = None
    try:
        ex = m.extract(seed=2, verbose=False)
    except ValueError as err:
        if "infs only" not in str(err):
            raise
    home()
    X = rng.standard_normal((2, 3, nx)) * .3
    xs = P0[0]
    mat = dict(vv=np.array([str(q) for q in m.vv]))

    def rd():
        q = read(c.path, nocache=bool(i % 4 == 0))
        q.set_par("calib", l_max=3, k_max=9)
        return q.irfs(copy.deepcopy(s0), T=4, verbose=False)
    f = mon.path("sv%d" % i)
    m.save(f, verbose=False)

    def ld():
        q = DSGE.load(f + ".npz")
        q.set_par("calib", l_max=3, k_max=9)
        return q.irfs(copy.deepcopy(s0), T=4, verbose=False)

    def chain():
        prep(True)
        go(mon, m, p0=P0.copy(), nsteps=2, tune=1, seed=1, backend=False, verbose=False)
        r = [np.array(m.get_chain()), np.array(m.get_log_prob())]
        return r
    Q = [("t_func", lambda: m.t_func(x0.copy(), e0.copy(), return_k=True)),
         ("irfs", lambda: m.irfs(copy.deepcopy(s0), T=4, verbose=False)),
         ("irfs at", lambda: m.irfs(copy.deepcopy(s0), V.copy(), T=3, verbose=False)),
         ("simulate", lambda: m.simulate(pars=V.copy(), resid=E.copy(), init=I.copy())),
         ("obs at", lambda: m.obs(X.copy(), pars=V.copy())),
         ("get_par", lambda: m.get_par(asdict=True)), ("get_par calib", lambda: m.get_par("calib")),
         ("get_par name", lambda: m.get_par(est[0])), ("get_par best", lambda: m.get_par("best", full=False)),
         ("get_par mode", lambda: m.get_par("mode")), ("get_par prior mean", lambda: m.get_par("prior_mean")),
         ("get_par npar", lambda: m.get_par(npar=V[1].copy())), ("get_par at", lambda: m.get_par(est[0], npar=V[1].copy())),
         ("derived", lambda: m.get_par(list(tm.parafunc)[0]) if tm.parafunc else 0.),
         ("get_cov", lambda: m.get_cov()), ("get_cov at", lambda: m.get_cov(npar=V[1].copy())),
         ("on the side", lambda: m.set_par(est[0], float(V[1][tm.parameters.index(est[0])]), npar=V[1].copy())),
         ("traj", lambda: m.traj(m.shock2state(s0[0][:2]), verbose=False)),
         ("k_map", lambda: m.k_map(m.shock2state(s0[0][:2]), verbose=False)),
         ("prior_sampler", lambda: m.prior_sampler(2, seed=3, verbose=False, filterwarnings="ignore")),
         ("prior", lambda: m.get_par("prior", nsamples=1, seed=3, verbose=False)),
         ("posterior", lambda: m.get_par("posterior", nsamples=2, seed=3)),
         ("mask", lambda: m.mask), ("info", lambda: float(len(m.info(verbose=False)) > 0)),
         ("get_chain", lambda: np.array(m.get_chain())),
         ("read", rd), ("load", ld)]
    if ex is not None:
        Q += [("extract", lambda: m.extract(seed=2, verbose=False)),
              ("extract at", lambda: m.extract(V[1].copy(), seed=2, verbose=False) if linear else 0.),
              ("simulate extracted", lambda: m.simulate(grab(ex), linear=linear)),
              ("nhd", lambda: m.nhd(grab(ex), linear=linear)),
              ("gfevd", lambda: m.gfevd(grab(ex), horizon=2, nsamples=1, linear=linear, verbose=False))]

    def setting():
        m.set_par(V[1])
        return m.irfs(copy.deepcopy(s0), T=3, verbose=False)
    C = [("set_par", setting), ("set_par name", lambda: m.set_par(est[0], float(V[1][tm.parameters.index(est[0])]))),
         ("horizons", lambda: m.set_par(V[0], l_max=2, k_max=3)),
         ("lprob", lambda: m.lprob(xs)), ("load_data", lambda: m.load_data(d)), ("prep_estim", lambda: prep()),
         ("run_filter", lambda: m.run_filter(verbose=False, seed=1) if not linear else m.run_filter(smoother=True)),
         ("save", lambda: m.save(f, verbose=False))]
    if i % 3 == 0:
        C.append(("mcmc", chain))

    def probe():
        out = {}
        flat([m.get_par(), m.irfs(copy.deepcopy(s0), T=4, verbose=False), m.get_cov(), m.obs(x0.copy()),
              m.get_par("calib"), m.get_par("best"), m.data,
              m.t_func(x0.copy(), e0.copy(), return_k=True), m.traj(m.shock2state(s0[0][:2]), verbose=False),
              m.filter.R, [float(z) for z in m.lks], m.get_ll() if linear else 0.,
              m.obs(X.copy(), pars=V.copy())], "", out)
        return out

    def compare(got, want, what, **kw):
        mon.check(set(got) == set(want), what + " (another kind)", **kw)
        for q in want:
            if isinstance(want[q], str):
                mon.check(got[q] == want[q], what, **kw)
            else:
                mon.close_to(got[q], want[q], what, tol=1e-9, question=q, **kw)
    before = probe()
    # what is refused changes nothing
    bad = []
    for _ in range(40):
        v = np.array(V[0])
        k = rng.integers(len(v))
        v[k] *= float(rng.choice([-1, -5, 0, 3, 20, 1e3]))
        bad.append(v)
    wrong = d.rename(columns={d.columns[0]: "no_such_column"})
    R = [("name", lambda: m.set_par("no_such_name", .3)), ("set", lambda: m.set_par("no_such_set")),
         ("derived name", lambda: m.set_par(list(tm.parafunc)[0], .3) if tm.parafunc else None),
         ("get", lambda: m.get_par("no_such_name")), ("shock", lambda: m.irfs(("no_such_shock", 1, 0), verbose=False)),
         ("state", lambda: m.t_func(np.zeros(nx + 3), e0.copy())), ("columns", lambda: m.load_data(wrong)),
         ("dates", lambda: m.load_data(d, start="2190-01-01")), ("not data", lambda: m.load_data(3)),
         ("length", lambda: m.extract(np.ones(nd + len(V[0]) + 3), seed=2, verbose=False)),
         ("walkers", lambda: m.mcmc(p0=np.ones((nw, nd + 1)), nsteps=2, tune=1, seed=1, backend=False, verbose=False)),
         ("path", lambda: DSGE.load(mon.path("no_such_file"))), ("residuals", lambda: m.simulate(resid=np.zeros((1, 3, ne + 1)), init=I)),
         ("horizon", lambda: m.set_par(V[1], l_max="a"))]
    R += [("parameters", lambda v=v: m.set_par(v)) for v in bad]
    R += [("parameter", lambda v=v: m.set_par(est[0], v)) for v in ("a", None, [1, 2], np.nan)]
    nref = 0
    for name, f0 in R:
        if name == "parameters" and nref >= 4:
            continue
        try:
            with np.errstate(all="ignore"):
                f0()
        except Exception as err:
            mon.saw("refused")
            mon.saw("refused " + name)
            nref += name == "parameters"
            compare(probe(), before, "what is refused changes the model", operation=name, error=str(err)[:200], linear=linear)
            mon.case(sig=(i, "refused", name))
        else:
            if name not in ("parameters", "parameter"):
                prep()
                first()
            home()
    tries = 3 if mon.tier == "quick" else 8
    for ops, change in ((Q, False), (C, True)):
        for name, f0 in ops:
            want, t = {}, Tracer()
            flat(t.run(f0), "", want)
            home()
            for _ in range(tries if t.n else 0):
                u = Tracer(int(rng.integers(1, t.n + 1)))
                out, got = None, {}
                try:
                    flat(u.run(f0), "", got)
                    out = "returned"
                except KeyboardInterrupt:
                    out = "interrupted"
                except Exception as err:
                    out = "%s: %s" % (type(err).__name__, err)
                kw = dict(operation=name, at_line=u.where, linear=linear)
                if u.where is None:
                    mon.saw("not interrupted")
                elif out == "returned":
                    compare(got, want, "an interruption is ignored and the answer is another one", **kw)
                    mon.saw("ignored")
                else:
                    mon.check(out == "interrupted", "an interruption comes out as something else", got=out, **kw)
                    mon.saw("interrupted")
                    mon.saw("changes" if change else "questions")
                if change:
                    if name in ("prep_estim", "mcmc", "load_data"):
                        prep()
                    if name == "mcmc":
                        first()
                    home()
                compare(probe(), before, "after an interruption the model answers otherwise", **kw)
                got = {}
                flat(f0(), "", got)
                compare(got, want, "repeated after an interruption, another result", **kw)
                if name == "mcmc":
                    prep()
                    first()
                home()
                mon.case(sig=(i, name, u.where) if u.where else None)
            mon.saw("kinds")
