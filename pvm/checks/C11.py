"""What a model answers depends on its file and its parameters only, not on what happened before."""
import copy
import os
import shutil
import numpy as np
from ..harness import *
from .C08 import replay, shock_matrix

CASES = {"quick": 24, "thorough": 500}
RULE = ("a case is a random history over two or three models (two from files that share a text): sets, refused and "
        "failing sets, impulse responses, simulations, expected paths, observables, draws from the prior, likelihoods, "
        "re-reads from the cache, deep copies, saving and loading, overwritten results; after every operation a random "
        "model is probed and must answer as its parameters and horizons alone imply (independent reference); an "
        "evaluation is one probe; non-trivial: a probe after operations on that model or on another one")
MIN = {"probes": 200, "probes without a set": 100, "failing set": 8, "irfs": 8, "simulate": 8, "other parameters": 6,
       "traj": 40, "likelihood": 6, "re-read": 6, "deepcopy": 6, "save and load": 2, "prior draw": 1,
       "horizons changed": 8, "short horizons": 3, "steps at kept horizons": 200, "compared with a model read afresh": 20}


class Slot:
    """a model under observation and what it should be"""

    def __init__(self, c, m):
        self.c, self.m = c, m
        self.v, self.R, self.lk, self.set_lk = None, None, None, None
        self.base = True                     # still shares vv ordering etc.

    def set(self, v, R, lm, km):
        self.m.set_par(list(v), l_max=lm, k_max=km)
        self.v, self.R = list(v), R
        self.lk = (max(lm, 2) + 1 if km > 0 else lm + 1, km)     # corrected, as documented
        self.set_lk = (lm, km)


def good(rng, c, tries=8):
    for _ in range(tries):
        v = gen.perturb(rng, c.tm)
        try:
            R = Reference(c.tm, v)
            R._table(5, 20)
            return v, R
        except (Indeterminate, Unstable, IllConditioned):
            pass
    raise IllConditioned("no parameters")


def probe(mon, s, rng, what):
    c, m, R = copy.copy(s.c), s.m, s.R
    c.mod, c.R = m, R
    c.lmax, c.kmax = s.lk
    c.sync()
    tm = c.tm
    sd = tm.stds(R.par)
    mon.saw("probes")
    mon.close_to(m.get_par(), s.v, "parameters are not those set last", tol=1e-12, after=what)
    mon.check([str(x) for x in m.shocks] == list(tm.shocks), "shocks changed", after=what)
    # impulse responses
    lst, T = [], 8
    for _ in range(int(rng.integers(1, 3))):
        j = int(rng.integers(len(sd)))
        lst.append((tm.shocks[j], float(sd[j] * rng.choice([-5, -3, 3, 5])), 0))
    lst = [lst[0]] if len(lst) > 1 and lst[0][0] == lst[1][0] else lst
    X, LK, fl = m.irfs(copy.deepcopy(lst), T=T, verbose=False)
    x = replay(mon, c, X, LK, fl, shock_matrix(c, lst, T), np.zeros(R.n), False, True, "after %s: %s" % (what, lst))
    # observables
    H, cst = R.obs()
    if x is not None and len(H):
        mon.close_to(np.asarray(m.obs(X.to_numpy()[-1]), float), H @ x + cst, "observables", after=what, model=c.text)
    # the expected path of the constrained variable
    j = int(rng.integers(len(sd)))
    e = np.zeros(len(sd))
    e[j] = sd[j] * 4 * (1 if rng.random() < .5 else -1)
    l, k, status = R.select(np.zeros(R.n), e, *s.lk)
    if status == "ok" and s.lk[1] > 0:
        tr = np.asarray(m.traj(m.shock2state((tm.shocks[j], e[j])), l=l, k=k, verbose=False), float)
        _, S = R.expected(np.zeros(R.n), e, l, k, len(tr))
        mon.close_to(tr, S, "the expected path of the bounded variable", after=what, lk=(l, k), model=c.text)
        mon.saw("traj")
    mon.close_to(np.diag(np.asarray(m.get_cov(), float)), sd, "standard deviations", tol=1e-10, after=what)


def case(mon, rng, i):
    c1 = any_case(mon, rng, i) if i < 2 else draw_case(mon, rng)
    c2 = draw_case(mon, rng)
    sq = square_case(mon, rng)
    cs = [c1, c2, sq]
    slots = [Slot(c, read(c.path)) for c in cs]
    for s in slots:
        v, R = good(rng, s.c)
        s.set(v, R, 2 + int(rng.integers(3)), 4 + int(rng.integers(14)))
    last = "start"
    hist = []
    for op in range(14):
        s = slots[int(rng.integers(len(slots)))]
        c, m = s.c, s.m
        tm = c.tm
        kind = str(rng.choice(["set", "lk", "name", "bad", "irfs", "pars", "sim", "traj", "gets", "ll", "reread", "copy",
                               "save", "prior", "obs"],
                              p=[.12, .08, .08, .1, .08, .07, .08, .06, .05, .07, .07, .06, .04, .02, .02]))
        hist.append((slots.index(s), kind))
        sd = tm.stds(s.R.par)
        if kind == "set":
            v, R = good(rng, c)
            m.set_par(np.array(v))
            s.v, s.R = v, R
        elif kind == "lk":
            v, R = good(rng, c)
            short = bool(rng.random() < .5)
            lm, km = int(rng.integers(0 if short else 2, 5)), int(rng.integers(0, 3) if short else rng.integers(3, 20))
            s.set(v, R, lm, km)
            mon.saw("horizons changed")
            if short:
                mon.saw("short horizons")
            if rng.random() < .7:                # parameters only: horizons are those of before
                v, R = good(rng, c)
                m.set_par(list(v))
                s.v, s.R = list(v), R
        elif kind == "name":
            p = int(rng.integers(len(s.v)))
            new = list(s.v)
            new[p] = good(rng, c)[0][p]
            try:
                R = Reference(tm, new)
                R._table(*s.lk)
            except (Indeterminate, Unstable, IllConditioned):
                continue
            m.set_par(tm.parameters[p], new[p])
            s.v, s.R = new, R
        elif kind == "bad":
            new = list(s.v)
            for p, x in (("phi_pi", .3), ("phi_y", 0.)):
                if p in tm.parameters:
                    new[tm.parameters.index(p)] = x
            try:
                Reference(tm, new)
                continue
            except (Unstable, Indeterminate):
                pass
            except IllConditioned:
                continue
            try:
                m.set_par(new)
            except Exception:
                mon.saw("failing set")
            else:
                mon.fail("a parametrization without unique stable solution is accepted", par=new, model=c.text)
            # what was set before, again
            m.set_par(list(s.v))
        elif kind == "irfs":
            X = m.irfs((tm.shocks[0], 4 * sd[0], 0), T=12, linear=bool(rng.random() < .5), verbose=False)
            X[0].loc[:] = 7.                     # results are the caller's
            X[1][:] = 7
            mon.saw("irfs")
        elif kind == "pars":
            v = good(rng, c)[0]
            try:
                m.irfs((tm.shocks[0], 1., 0), pars=np.array([v, v]), T=3, verbose=False)
            except Exception as ex:
                if "ordering" not in str(ex):
                    raise
            mon.saw("other parameters")
        elif kind == "sim":
            n = len(m.vv)
            E = rng.standard_normal((1, 6, len(sd))) * sd * 2
            X = m.simulate(pars=np.array([s.v]), resid=E, init=np.zeros((1, n)))[0]
            X[:] = 0
            mon.saw("simulate")
        elif kind == "traj":
            m.traj(m.shock2state((tm.shocks[0], -5 * sd[0])), verbose=False)
        elif kind == "gets":
            for w in ("calib", "prior_mean", tm.parameters[0]):
                g = m.get_par(w)
                if isinstance(g, np.ndarray) and g.ndim:
                    g[:] = 0
            g = m.get_par()
            g[:] = 0
            m.get_par(asdict=True)
        elif kind == "obs":
            n = len(m.vv)
            m.obs(np.zeros((2, 3, n)), pars=np.array([s.v, s.v]))
        elif kind == "prior":
            try:
                m.get_par("prior", nsamples=2, verbose=False)
            except Exception:
                pass
            m.prior_sampler(1, try_parameter=False, verbose=0)
            mon.saw("prior draw")
        elif kind == "ll":
            if s.c is not sq or type(m).__name__ != "DSGE":
                s = slots[2]
                m, c, tm = s.m, s.c, s.c.tm
            d = simulate_obs(sq, rng, 12)
            m.load_data(d)
            m.prep_estim(linear=bool(rng.random() < .6), N=12, seed=int(rng.integers(100)), ncores=0, verbose=False,
                         dry_run=False)
            p = [good(rng, c)[0][tm.parameters.index(q)] for q in m.prior]
            m.lprob(p)
            mon.saw("likelihood")
            s.set(s.v, s.R, *s.set_lk)           # a likelihood leaves its parameters in the model
        elif kind == "reread":
            if rng.random() < .5:
                d = os.path.join(mon.scratch, "again%d_%d" % (i, op))
                shutil.copytree(os.path.dirname(c.path), d)
                path = os.path.join(d, os.path.basename(c.path))
            else:
                path = c.path
            n = Slot(c, read(path))
            n.m.set_par("calib", l_max=2, k_max=9)
            n.v, n.lk, n.set_lk = list(tm.calib), (3, 9), (2, 9)
            n.R = Reference(tm)
            n.R._table(*n.lk)
            probe(mon, n, rng, "re-reading")
            mon.case(sig=(c.text, "re-read"))
            if len(slots) < 5:
                slots.append(n)
            mon.saw("re-read")
        elif kind == "copy":
            k2 = copy.deepcopy(m)
            v, R = good(rng, c)
            k2.set_par(v)
            n = Slot(c, k2)
            n.v, n.R, n.lk, n.set_lk = v, R, s.lk, s.set_lk
            probe(mon, n, rng, "copying")
            mon.case(sig=(c.text, "copy"))
            mon.saw("deepcopy")
        elif kind == "save":
            f = mon.path("sv%d_%d" % (i, op))
            m.save(f, verbose=False)
            from pydsge import DSGE
            k2 = DSGE.load(f + ".npz", force_parse=bool(rng.random() < .5))
            v, R = good(rng, c)
            n = Slot(c, k2)
            n.set(v, R, 3, 9)
            probe(mon, n, rng, "saving and loading")
            mon.case(sig=(c.text, "save"))
            mon.saw("save and load")
        # any model, as it should be by now
        q = slots[int(rng.integers(len(slots)))]
        probe(mon, q, rng, repr(hist[-6:]))
        mon.saw("probes without a set")
        mon.case(sig=(op, kind, slots.index(q), q.c.text), sample=dict(history=hist[-6:], probed=slots.index(q)))
    # in the end, against models that have not lived
    for s in slots[:3]:
        f = read(s.c.path, nocache=True)
        v, R = good(rng, s.c)
        for m in (s.m, f):
            m.set_par(list(v), l_max=3, k_max=12)
        mon.check([str(x) for x in f.vv] == [str(x) for x in s.m.vv], "the variables of a used model are others")
        sd = s.c.tm.stds(R.par)
        sh = (s.c.tm.shocks[0], -4 * sd[0], 0)
        a, b = (m.irfs(sh, T=15, verbose=False) for m in (s.m, f))
        mon.close_to(a[0], b[0].to_numpy(), "a used model answers differently than a new one", tol=1e-10, history=hist)
        mon.check(np.array_equal(a[1], b[1]), "a used model reports other durations than a new one", history=hist)
        # horizons set once hold for what is set afterwards
        lm, km = int(rng.integers(0, 4)), int(rng.integers(0, 4))
        names = [str(x) for x in f.vv]
        how = int(rng.integers(4))
        if how == 3:
            s.m.set_par(list(v), l_max=lm, k_max=0)
            s.m.set_par(list(v), k_max=km)
        elif how:
            s.m.set_par(list(good(rng, s.c)[0]), l_max=lm, k_max=km)
            if how == 1:
                s.m.set_par(list(v))
            else:
                s.m.set_par(list(v), l_max=lm)
        else:
            s.m.set_par(list(v), k_max=km)
            lm = 3
        f.set_par(list(v), l_max=lm, k_max=km)
        for _ in range(40):
            x, e = rng.standard_normal(len(names)) * .5, rng.standard_normal(len(sd)) * sd * rng.choice([1, 4, 10])
            a, b = (m.t_func(x.copy(), e.copy(), return_k=True) for m in (s.m, f))
            mon.check(tuple(a[1]) == tuple(b[1]) and a[2] == b[2], "horizons are not those set last", got=a[1:], want=b[1:],
                      lm=lm, km=km, how=how)
            mon.close_to(a[0], b[0], "a used model answers differently than a new one", tol=1e-10, lm=lm, km=km, how=how)
            mon.saw("steps at kept horizons", int(None not in b[1] and max(b[1]) > 0))
        mon.saw("compared with a model read afresh")
        mon.case(sig=(s.c.text, "end"))
