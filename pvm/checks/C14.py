"""Extracted shocks reproduce the smoothed history when they are simulated again."""
import copy
import numpy as np
from ..harness import *
from .C12 import Dense, draw_data

CASES = {"quick": 44, "thorough": 800}
RULE = ("a case is one model with data; an evaluation is one extraction (linear: exact conditional expectation of "
        "states and shocks from the dense normal distribution; nonlinear: path adjustment after the ensemble filter) "
        "followed by simulating its result; extractions are repeated, batched, reordered, and run in a pool; "
        "non-trivial: the bound binds along the extracted path, or several parameter vectors")
ASSUMES = ["nonlinear extraction is approximate: the median distance of the re-simulated observables to the data must "
           "stay below 0.35 standard deviations (about three times what is usual)"]
MIN = {"linear": 25, "linear beyond the constraint": 5, "nonlinear": 12, "simulated again": 40, "repeated": 10, "batch": 15, "several draws": 2,
       "binding": 4, "counterfactual": 12, "pooled": 1, "horizons": 4, "one horizon": 4}


def setup(mon, rng, c, linear, T, Rm=None, N=80):
    m = c.mod
    d = draw_data(rng, c, T) if linear else None
    if linear and rng.random() < .5:
        d = d * float(rng.choice([3., 8.]))          # far beyond the constraint, which does not exist linearly
    if d is None:
        for _ in range(5):
            d = simulate_obs(c, rng, T, scale=float(rng.choice([1., 1.7])), linear=False)
            if np.isfinite(d.to_numpy()).all() and d.abs().to_numpy().max() < 20 and d.std().min() > 1e-3:
                break
        else:
            raise IllConditioned("data")
    m.load_data(d)
    m.prep_estim(linear=linear, N=N, seed=0, ncores=0, verbose=False, l_max=3, k_max=16)
    return d


def vectors(rng, c, n):
    out = []
    probe = read(c.path)
    for _ in range(4 * n):
        if len(out) == n:
            break
        v = gen.perturb(rng, c.tm)
        try:
            R = Reference(c.tm, v)
        except (Indeterminate, Unstable, IllConditioned):
            continue
        probe.set_par(v)
        if [str(x) for x in probe.vv] == [str(x) for x in c.mod.vv]:
            out.append((v, R))
    return out


def linear_case(mon, rng, i):
    c = square_case(mon, rng)
    m, tm = c.mod, c.tm
    T = int(rng.integers(4, 22))
    d = setup(mon, rng, c, True, T)
    Z = d.to_numpy()
    Rm = np.diag((d.std().to_numpy() + .05) ** 2 * float(rng.choice([.01, .05])))
    m.filter.R = Rm
    c.sync()
    vs = vectors(rng, c, 3)
    if not vs:
        raise IllConditioned("no parameters")
    P = np.array([v for v, _ in vs])
    if rng.random() < .6:
        m.set_par(P[0], l_max=3, k_max=16)           # the linear filter in a model that has a constraint
    np.random.seed(int(rng.integers(1e6)))
    ex = m.extract(P, verbose=False)
    mon.close_to(ex["pars"], P, "extraction reports other parameters", tol=0)
    mon.check(np.shape(ex["resid"]) == (len(P), T - 1, len(tm.shocks)), "shape of the extracted shocks",
              got=np.shape(ex["resid"]))
    X = m.simulate(ex, linear=True)[0]
    free = read(c.path)
    free.set_par(P[0])
    for t in range(T - 1):
        if free.t_func(X[0][t], np.asarray(ex["resid"])[0][t], return_k=True)[1][1]:
            mon.saw("linear beyond the constraint")
            break
    for j, (v, R) in enumerate(vs):
        D = Dense(R, T, Rm)
        if D.cond() > 1e9:
            continue
        tl = max(1e-5 * max(1, D.cond() * 1e-6), D.slack())
        if not np.isfinite(tl):
            mon.saw("nearly singular")
            continue
        w = D.smooth(Z)[0]
        mon.close_to(np.asarray(ex["init"])[j][c.mi], w[0][c.ri], "the first state is not the smoothed one", tol=tl,
                     model=c.text, par=v)
        mon.close_to(X[j][:, c.mi], w[:, c.ri], "simulating the extracted shocks leaves the smoothed path", tol=tl,
                     model=c.text, par=v)
        # the shocks themselves: what moves the conditional expectation on
        for t in range(T - 1):
            inn = w[t + 1] - R.P @ w[t]
            e = np.linalg.lstsq(R.Q, inn, rcond=None)[0]
            mon.close_to(np.asarray(ex["resid"])[j][t], e, "extracted shocks are not the expected ones",
                         tol=tl * max(1, np.linalg.cond(R.Q)), period=t, model=c.text)
        mon.saw("linear")
        mon.saw("simulated again")
        mon.case(sig=(c.text, j), sample=dict(linear=True, T=T, pars=len(P)))
    if len(P) > 1:
        a = m.extract(P[::-1], verbose=False)
        mon.close_to(a["resid"], np.asarray(ex["resid"])[::-1], "extraction depends on the order of the parameters",
                     tol=1e-8)
        b = m.extract(P[0], verbose=False)
        mon.close_to(np.asarray(b["resid"])[0], np.asarray(ex["resid"])[0], "extraction alone differs", tol=1e-8)
        mon.saw("batch")
    # counterfactual: one shock switched off
    mk = m.mask
    mon.check(list(mk.columns) == list(tm.shocks) and len(mk) == T - 1 and mk.isna().all().all(), "the mask")
    s = str(rng.choice(tm.shocks))
    mk = mk.copy()
    mk[s] = 0.
    Y = m.simulate(ex, mask=mk, linear=True)[0]
    E = np.array(ex["resid"])
    E[:, :, tm.shocks.index(s)] = 0
    Y2 = m.simulate(dict(ex, resid=E), linear=True)[0]
    mon.close_to(Y, Y2, "a shock that is switched off still has effects", tol=1e-10)
    mon.saw("counterfactual")


def nonlinear_case(mon, rng, i):
    c = square_case(mon, rng)
    m, tm = c.mod, c.tm
    T = int(rng.integers(6, 14))
    d = setup(mon, rng, c, False, T)
    c.lmax, c.kmax = 4, 16
    m.filter.R = np.diag((d.std().to_numpy() * .05) ** 2)
    sd = d.std().to_numpy()
    cal = np.array(tm.calib, float)
    m.set_par("calib")
    c.R = Reference(tm)
    c.sync()
    seed = int(rng.integers(1000))

    def ex_(sample, **kw):
        np.random.seed(int(rng.integers(1e6)))
        kw = dict(dict(seed=seed, verbose=False), **kw)
        return m.extract(sample, **kw)

    ex = ex_(None)
    mon.close_to(np.asarray(ex["pars"], float)[0], cal, "extraction reports other parameters", tol=1e-12)
    X, LK, fl = m.simulate(ex)
    mon.check(not (np.any(fl) and not np.any(ex["flags"])), "simulating flags an error that extraction did not")
    mon.check(X.shape == (1, T, len(m.vv)), "the extracted history has another length", got=X.shape)
    mon.close_to(X[0, 0], np.asarray(ex["init"])[0], "the simulation does not start at the extracted state", tol=1e-12)
    O = np.array([np.asarray(m.obs(x), float) for x in X[0]])
    err = np.abs(O - d.to_numpy())[1:] / sd
    mon.check(np.median(err) < .35, "simulating the extracted shocks does not reproduce the data",
              median=float(np.median(err)), T=T, model=c.text, data=d.to_numpy())
    mon.saw("nonlinear")
    mon.saw("simulated again")
    mon.saw("binding", int((LK[1] > 0).any()))
    mon.case(sig=c.text if (LK[1] > 0).any() else None, sample=dict(T=T, median_error=round(float(np.median(err)), 3)))
    # again
    b = ex_(cal.copy())
    mon.close_to(b["resid"], np.asarray(ex["resid"]), "the same extraction gives other shocks", tol=1e-12)
    mon.close_to(b["init"], np.asarray(ex["init"]), "the same extraction gives another first state", tol=1e-12)
    mon.saw("repeated")
    vs = vectors(rng, c, 2)
    if len(vs) == 2:
        P = np.array([v for v, _ in vs])
        try:
            a = ex_(P)
        except ValueError as e:              # the optimizer gives up: parameters far from those behind the data
            if "infs only" not in str(e):
                raise
            mon.saw("refused")
            raise IllConditioned("path adjustment gives up")
        mon.close_to(a["pars"], P, "extraction reports other parameters", tol=0)
        for j in range(2):
            o = ex_(P[j])
            mon.close_to(np.asarray(a["resid"])[j], np.asarray(o["resid"])[0],
                         "extraction in company differs from extraction alone", tol=1e-10, at=j)
            mon.close_to(np.asarray(a["init"])[j], np.asarray(o["init"])[0],
                         "the first state extracted in company differs", tol=1e-10, at=j)
        mon.saw("batch")
        mon.case(sig=(c.text, "batch"))
    if i % 3 == 1:
        a = ex_(cal, nsamples=2)
        mon.check(len(a["pars"]) == 2 and len(a["resid"]) == 2 and len(a["init"]) == 2, "number of draws")
        X = m.simulate(a)[0]
        for j in range(2):
            O = np.array([np.asarray(m.obs(x), float) for x in X[j]])
            err = np.abs(O - d.to_numpy())[1:] / sd
            mon.check(np.median(err) < .35, "simulating one of several draws does not reproduce the data",
                      median=float(np.median(err)), T=T, model=c.text)
        mon.saw("several draws")
        mon.saw("simulated again", 2)
    if i % 12 == 1:
        m.create_pool(2)
        try:
            a = ex_(cal, nsamples=2)
            m.create_pool(2)
            b = m.extract(cal, nsamples=2, seed=seed, verbose=False)
        finally:
            m.pool = None
        mon.close_to(a["resid"], np.asarray(b["resid"]), "the same extraction in a pool gives other shocks", tol=1e-10)
        s = ex_(cal, nsamples=2)
        mon.close_to(a["resid"], np.asarray(s["resid"]), "in a pool extraction gives other shocks", tol=1e-10)
        mon.saw("pooled")
    # under other horizons, all or some: as with a model that has them
    d2 = simulate_obs(c, rng, 7, scale=2.5, linear=False)
    if not np.isfinite(d2.to_numpy()).all() or d2.abs().to_numpy().max() > 30:
        return
    lm, km = [(1, 0), (2, int(rng.integers(1, 4))), (None, int(rng.integers(0, 3))), (2, None)][(i // 2) % 4]
    kw = {k: v for k, v in (("l_max", lm), ("k_max", km)) if v is not None}
    m.set_par("calib", l_max=3, k_max=16)
    q = read(c.path)
    for z in (m, q):
        z.load_data(d2)
    q.prep_estim(linear=False, N=80, seed=0, ncores=0, verbose=False, l_max=3, k_max=16)
    q.filter.R = m.filter.R
    q.set_par("calib", **kw)
    try:
        np.random.seed(int(rng.integers(1e6)))
        b = q.extract(cal.copy(), seed=seed, verbose=False)
        a = ex_(cal.copy(), **kw)
    except ValueError as e:
        if "infs only" not in str(e):
            raise
        mon.saw("refused")
        return
    mon.close_to(a["resid"], np.asarray(b["resid"]), "extraction under given horizons gives other shocks",
                 tol=1e-8, horizons=(lm, km), model=c.text)
    m.set_par("calib", l_max=3, k_max=16)
    mon.saw("horizons" if len(kw) == 2 else "one horizon")
    if km is not None:
        Y, YK, _ = m.simulate(a, **kw)
        mon.check(np.max(YK[1]) <= km, "durations beyond the horizons asked for", got=np.max(YK[1]), want=km)
        mon.saw("spells of given length", int((YK[1] == km).any() and km > 0))


def case(mon, rng, i):
    (nonlinear_case if i % 2 else linear_case)(mon, rng, i)
