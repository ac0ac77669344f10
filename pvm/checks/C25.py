"""How much is printed, and debugging, change neither what works nor the results."""
import contextlib
import io
import warnings
import numpy as np
import pandas as pd
from ..harness import *

CASES = {"quick": 18, "thorough": 500}
WARM = True
RULE = ("a case is one model and one random script (reading, parameters, responses, simulations, estimation, filtering, "
        "extraction, decompositions, sampling, saving and loading) carried out side by side by an instance that is told "
        "to be silent and one with random levels of verbosity and debugging; an evaluation is one step whose outcome "
        "and results are compared; non-trivial: the loud instance printed more than the silent one")
ASSUMES = ["the modified harmonic mean is computed by a dependency whose verbose mode needs a package it does not import; "
           "it is only asked for silently"]
MIN = {"steps": 400, "louder": 150, "characters": 5000, "failures": 4, "kinds": 24, "debugging": 60}


@contextlib.contextmanager
def captured(box):
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            yield
        finally:
            box.append(len(o.getvalue()) + len(e.getvalue()))


def outcome(f, q, v, d):
    box = []
    np.random.seed(7)
    try:
        with captured(box):
            r = f(q, v, d)
        return "ok", r, box[0]
    except Exception as e:
        return "failed", "%s: %s" % (type(e).__name__, str(e)[:300]), box[0]


def plain(x):
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return [list(map(str, x.index)), [] if x.ndim == 1 else list(map(str, x.columns)), plain(x.to_numpy())]
    if isinstance(x, dict):
        return {str(k): plain(y) for k, y in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, np.ndarray) and x.dtype == object:
        return [plain(y) for y in x.ravel()]
    if isinstance(x, (str, type(None))):
        return x
    try:
        return np.asarray(x, float)
    except (TypeError, ValueError):
        return str(type(x))


class Pair:
    def __init__(self, mon, rng, what):
        self.mon, self.rng, self.what = mon, rng, what
        self.q = [None, None]
        self.kinds, self.n = set(), 0

    def compare(self, a, b, step, at, **kw):
        mon = self.mon
        if isinstance(a, dict):
            mon.check(isinstance(b, dict) and list(a) == list(b), step + ": other entries if loud", **kw)
            for k in a:
                self.compare(a[k], b[k], step, at + "/" + k, **kw)
        elif isinstance(a, list):
            mon.check(isinstance(b, list) and len(a) == len(b), step + ": other number of results if loud", **kw)
            for j, (x, y) in enumerate(zip(a, b)):
                self.compare(x, y, step, at + "/%d" % j, **kw)
        elif isinstance(a, np.ndarray):
            mon.check(isinstance(b, np.ndarray), step + ": other kind of result if loud", **kw)
            mon.close_to(b, a, step + ": other result if loud", tol=1e-10, result=at, **kw)
        else:
            mon.check(a == b, step + ": other result if loud", silent=a, loud=b, result=at, **kw)

    def __call__(self, step, f, **kw):
        """f(model, verbosity, debug); if it returns a model, that one is used from here on"""
        v = int(self.rng.integers(1, 5))
        v = True if v == 1 and self.rng.random() < .5 else v
        d = bool(self.rng.random() < .35)
        if self.rng.random() < .15:
            v, d = 0, True
        a = outcome(f, self.q[0], 0, False)
        b = outcome(f, self.q[1], v, d)
        kw = dict(self.what, verbose=v, debug=d, **kw)
        mon = self.mon
        mon.check(a[0] == b[0], step + ": works with one verbosity only", silent=a[1] if a[0] != "ok" else "ok",
                  loud=b[1] if b[0] != "ok" else "ok", **kw)
        mon.saw("steps")
        mon.saw("debugging", d)
        if step not in self.kinds:
            self.kinds.add(step)
            mon.saw("kinds")
        more = b[2] > a[2]
        mon.saw("louder", more)
        mon.saw("characters", b[2])
        self.n += 1
        mon.case(sig=(self.what["case_no"], self.n, step) if more else None,
                 sample=dict(step=step, verbose=int(v), debug=d, printed=b[2], outcome=a[0]))
        if a[0] != "ok":
            mon.check(a[1].split(":")[0] == b[1].split(":")[0], step + ": fails otherwise if loud", silent=a[1], loud=b[1],
                      **kw)
            mon.saw("failures")
            return None
        self.compare(plain(a[1]), plain(b[1]), step, "", **kw)
        return a[1]

    def both(self, f):
        self.q = [f(x) for x in self.q]


def case(mon, rng, i):
    from pydsge import DSGE
    from .C16 import go
    linear = bool(i % 2)
    trans, short = bool(rng.random() < .5), bool(rng.random() < .5)
    c = square_case(mon, rng, features={"no_zeros"})
    tm = c.tm
    with quiet():
        d = simulate_obs(c, rng, int(rng.integers(5, 10)), scale=1.5)
    if not np.isfinite(d.to_numpy()).all() or d.std().min() < 1e-3:
        raise IllConditioned("data")
    Rm = np.diag((d.std().to_numpy() + .05) ** 2 * .05)
    sd = tm.stds(tm.full_par(list(tm.calib)))
    cal = np.array(tm.calib, float)
    good = [cal]
    for _ in range(30):
        v = gen.perturb(rng, tm)
        try:
            Reference(tm, v)._table(4, 16)
        except (Indeterminate, Unstable, IllConditioned):
            continue
        good.append(np.array(v))
        if len(good) == 4:
            break
    bad = None
    for _ in range(20):
        v = np.array(gen.perturb(rng, tm)) * rng.choice([1., 3., -2.], len(cal))
        try:
            Reference(tm, v)
        except Exception:
            bad = v
            break
    p = Pair(mon, rng, dict(case_no=i, linear=linear, model=c.text))

    # reading
    def rd(nocache):
        def f(q, v, db):
            m = DSGE.read(c.path, verbose=v, debug=db, nocache=nocache)
            p.got.append(m)
            m.set_par("calib")
            return [str(x) for x in m.vv], [str(x) for x in m.parameters], m.get_par(), m.irfs((tm.shocks[0], 1.), verbose=False)
        return f
    for nocache in (True, False, False):
        p.got = []
        p("read", rd(nocache))
        p.q = list(p.got)
    if rng.random() < .3:
        p.got = []
        txt = open(c.path).read()
        import os
        ff = c.path.replace(".yaml", "_funcs.py")
        ff = ff if os.path.exists(ff) else None

        def f(q, v, db):
            m = DSGE.parse(txt, ff, verbose=v, debug=db)
            m = m[0] if isinstance(m, tuple) else m
            return [str(x) for x in m.variables], [str(x) for x in m.parameters]
        p("parse", f)

    def some():
        return good[int(rng.integers(len(good)))].copy()

    def state():
        return rng.standard_normal(len(p.q[0].vv)) * .3

    prepared = False

    # parameters
    def do_set_par():
        w = rng.random()
        if w < .4:
            x = some()
            p("set_par", lambda q, v, db: [q.set_par(x, verbose=v), q.get_par()])
        elif w < .6:
            n, y = str(rng.choice(tm.parameters)), float(rng.choice([.5, -3., 40.]))
            p("set_par", lambda q, v, db: [q.set_par(n, y, verbose=v), q.get_par()], name=n, value=y)
            p.both(lambda q: [q.set_par("calib"), q][1])
        elif w < .8 and bad is not None:
            p("set_par without solution", lambda q, v, db: [q.set_par(bad, verbose=v), q.get_par()])
            p.both(lambda q: [q.set_par("calib"), q][1])
        else:
            l, k = int(rng.integers(1, 4)), int(rng.integers(4, 20))
            p("set_par horizons", lambda q, v, db: [q.set_par("calib", l_max=l, k_max=k, verbose=v), q.get_par()])

    def do_get_par():
        for w in (None, "calib", "prior_mean", "adj_prior_mean", str(rng.choice(tm.parameters))) + (("init", "best") if prepared else ()):
            full = bool(rng.integers(2))
            p("get_par", lambda q, v, db: q.get_par(w, full=full, verbose=v, debug=db), which=w)
        n = int(rng.integers(2, 4))
        p("get_par many", lambda q, v, db: q.get_par("best", full=False, nsamples=n, verbose=v)) if prepared else None

    def do_irfs():
        sh = [(str(rng.choice(tm.shocks)), float(rng.choice([-4., 2., -8.]) * sd.max()), int(rng.integers(3)))]
        w = rng.random()
        P = None if w < .5 else some() if w < .7 else np.array([some() for _ in range(3)])
        if P is not None and P.ndim == 2 and bad is not None and rng.random() < .3:
            P[1] = bad
        lin = bool(rng.random() < .3)

        def f(q, v, db):
            r = q.irfs(sh, pars=P, T=7, linear=lin, verbose=v, debug=db)
            if P is not None:
                q.set_par("calib")
            return r
        p("irfs", f)

    def do_step():
        x, e = state(), rng.standard_normal(len(sd)) * sd * 3
        p("t_func", lambda q, v, db: q.t_func(x, e, return_k=True, verbose=v))
        s = p.q[0].shock2state((tm.shocks[0], float(-4 * sd[0])))
        l, k = int(rng.integers(0, 3)), int(rng.integers(0, 5))
        p("traj", lambda q, v, db: q.traj(s.copy(), l, k, verbose=v))
        p("traj", lambda q, v, db: q.traj(s.copy(), verbose=v))
        p("k_map", lambda q, v, db: q.k_map(s.copy(), verbose=v))

    def do_simulate():
        n = int(rng.integers(1, 4))
        P = np.array([some() for _ in range(n)])
        E = rng.standard_normal((n, 6, len(sd))) * sd * 2
        I = np.zeros((n, len(p.q[0].vv)))
        lin = bool(rng.random() < .3)
        p("simulate", lambda q, v, db: [q.simulate(dict(pars=P, resid=E, init=I), linear=lin, verbose=v, debug=db),
                                        q.set_par("calib")][0])

    def do_matrices():
        import copy
        from pydsge import gen_sys_from_dict
        from .C20 import matrices
        dic = matrices(c.R, rng, bool(rng.integers(2)))
        E = rng.standard_normal((4, len(sd))) * sd * 2
        kw = dict(l_max=3, k_max=10) if rng.random() < .5 else {}
        fp = bool(rng.integers(2))

        def f(q, v, db):
            m = gen_sys_from_dict(copy.deepcopy(dic), verbose=v, force_processing=fp, **kw)
            x, out = np.zeros(len(m.vv)), []
            for e in E:
                r = m.t_func(x, e, return_k=True, verbose=v)
                x = r[0]
                out.append(r)
            return [str(z) for z in m.vv], out
        p("matrices", f)

    for f in rng.permutation([do_set_par, do_get_par, do_irfs, do_step, do_simulate, do_set_par, do_irfs, do_matrices]):
        f()

    # estimation
    p.both(lambda q: [q.set_par("calib"), q][1])
    p.both(lambda q: [q.load_data(d.copy()), q][1])
    if short:
        def shorten(q):
            for k, x in list(q.prior.items()):
                x = list(x)
                if len(x) > 3 and rng2.random() < .5:
                    lo = 3 if isinstance(x[0], str) else len(x) - 3
                    q.prior[k] = x[lo:] if isinstance(x[lo], str) else x
            return q
        rng2 = None
        sd2 = int(rng.integers(1000))

        def sh(q):
            nonlocal rng2
            rng2 = np.random.default_rng(sd2)
            return shorten(q)
        p.both(sh)
    seed = int(rng.integers(100))
    nc = 2 if i % 6 == 0 else 0
    full = bool(rng.random() < .7)

    def prep(q, v, db):
        q.prep_estim(linear=linear, N=12, seed=seed, ncores=nc, verbose=v, debug=db, dry_run=False,
                     use_prior_transform=trans, reduced_form=not full)
        q.filter.R = Rm
        return q.get_par(), np.array(q.filter.R).shape, [str(x) for x in q.prior]
    try:
        p("prep_estim", prep)
        prepared = True
        est = [str(x) for x in p.q[0].prior]
        ix = [tm.parameters.index(n) for n in est]

        def do_prior():
            n, s = int(rng.integers(1, 4)), int(rng.integers(1000))
            cl = bool(rng.integers(2))
            p("prior draws", lambda q, v, db: [q.prior_sampler(n, seed=s, max_attempts=1000, check_likelihood=cl, verbose=v,
                                                              debug=db), q.set_par("calib")][0])

        def do_lprob():
            for _ in range(3):
                w = rng.random()
                x = some()[ix] if w < .5 or bad is None else bad[ix] if w < .75 else some()[ix] + rng.choice([-50, 50], len(ix))
                tr = bool(rng.random() < .2) and trans
                p("lprob", lambda q, v, db: q.lprob(x.copy(), verbose=v, use_prior_transform=tr), point=x)
                p("lprior", lambda q, v, db: q.lprior(x.copy()))
            p.both(lambda q: [q.set_par("calib"), q][1])

        def do_filter():
            sm = bool(rng.integers(2))
            p("run_filter", lambda q, v, db: q.run_filter(smoother=sm, seed=seed, verbose=v))
            p("get_ll", lambda q, v, db: q.get_ll(verbose=v, seed=seed))
        for f in rng.permutation([do_prior, do_lprob, do_filter, do_get_par]):
            f()
        many = bool(rng.random() < .5)
        P = np.array([some() for _ in range(1 + many)])
        ex = p("extract", lambda q, v, db: q.extract(P.copy(), seed=seed, verbose=v, debug=db))
        if ex is not None:
            import copy
            p("simulate extracted", lambda q, v, db: [q.simulate(copy.deepcopy(ex), linear=linear, verbose=v, debug=db),
                                                      q.set_par("calib")][0])
            p("nhd", lambda q, v, db: q.nhd(copy.deepcopy(ex), linear=linear, verbose=v))
            vd = p("gfevd", lambda q, v, db: q.gfevd(copy.deepcopy(ex), horizon=2, nsamples=3, linear=linear, verbose=v))
            if vd is not None:
                p("mbcs_index", lambda q, v, db: q.mbcs_index(copy.deepcopy(vd), verbose=v))
        p.both(lambda q: [q.set_par("calib"), q][1])
        # sampling
        nd = len(est)
        P0 = []
        q = p.q[0]
        with quiet():
            for _ in range(60 * nd):
                if len(P0) == 2 * nd + 2:
                    break
                x = np.array(gen.perturb(rng, tm))[ix]
                if np.isfinite(q.lprob(x, use_prior_transform=False)):
                    P0.append(x)
        p.both(lambda q: [q.set_par("calib"), q][1])
        if len(P0) == 2 * nd + 2:
            P0 = np.array(P0)

            def sample(q, v, db):
                go(mon, q, p0=P0.copy(), nsteps=4, tune=2, seed=1, backend=False, verbose=v)
                return np.array(q.get_chain()), np.array(q.get_log_prob()), q.get_par("mode")
            p("mcmc", sample)
            p("mdd", lambda q, v, db: q.mdd(verbose=v))
            p("mdd mhm", lambda q, v, db: q.mdd("mhm", verbose=bool(v)))
            p("info", lambda q, v, db: [x for x in str(q.info(verbose=v)).splitlines() if not x.startswith("Date")])
        # saving and loading
        names = [mon.path("q%d_%d" % (i, j)) for j in (0, 1)]

        def save(q, v, db):
            q.save(names[p.q.index(q)] + ".npz", verbose=v)
            return None
        p("save", save)
        rdict = dict(a=np.arange(3.), b=[1., 2.])
        p("save_rdict", lambda q, v, db: q.save_rdict(rdict, path=names[p.q.index(q)] + "r", verbose=v))
        p.got = []
        fp = bool(rng.integers(2))

        def load(q, v, db):
            m = DSGE.load(names[p.q.index(q)] + ".npz", force_parse=fp, verbose=v, debug=db)
            p.got.append(m)
            m.set_par("calib", verbose=v)
            return m.get_par(), m.irfs((tm.shocks[0], 1.), verbose=v), m.data
        p("load", load, force_parse=fp)
    finally:
        for q in p.q:
            if getattr(q, "pool", None):
                q.pool.close()
                q.pool.terminate()
                q.pool = None
