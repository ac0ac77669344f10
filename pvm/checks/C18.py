"""Decompositions account for the whole path: shares and contributions add up and belong to their shock."""
import copy
import numpy as np
import pandas as pd
from ..harness import *
from .C14 import vectors

CASES = {"quick": 40, "thorough": 900}
RULE = ("a case is one model with a history of innovations from 1-3 parameter vectors; an evaluation is one historical "
        "decomposition or one variance decomposition, recomputed shock by shock with the reference laws and selection; "
        "non-trivial: the bound binds along the path or several parameter vectors are averaged")
ASSUMES = ["histories in which a deciding comparison is a tie, or in which the contributions to the constraint cancel, "
           "are judged by summing up only"]
MIN = {"historical": 30, "periods": 150, "binding periods": 20, "components": 100, "several": 10, "variance": 20,
       "variance nonlinear": 8, "variance binding": 2, "variance sampled": 8, "sorted": 20, "extracted": 5,
       "horizons": 2, "ordering": 1, "indices": 3}


def history(mon, rng, c, pick, n, T, linear, size):
    """innovations and initial states reached on the way, with the reference states"""
    m = c.mod
    sd = shock_std(c)
    ne = len(sd)
    nx = len(m.vv)
    P = np.array([p for p, _ in pick])
    B = rng.standard_normal((n, 3, ne)) * sd
    z = np.zeros((n, nx))
    X, (L, K), fl = m.simulate(dict(pars=P, resid=B, init=z), linear=linear)
    refs = []
    for j, (p, R) in enumerate(pick):
        x = np.zeros(R.n)
        for t in range(3):
            x = R.step(x, B[j, t], int(L[j, t]), int(K[j, t]))
        refs.append(x)
    E = rng.standard_normal((n, T - 1, ne)) * sd * size
    if rng.random() < .3:
        E[rng.random(E.shape) < .4] = 0
    return P, E, X[:, -1], refs


def decompose(R, x0, E, lk):
    """(paths of components, sizes) under the given durations; None if contributions cancel"""
    ne = R.ne
    D = np.repeat((x0 / ne)[None], ne, 0)
    out = [D]
    for t, e in enumerate(E):
        l, k = lk[t]
        P, Q, d = R.law(l, k)
        H = np.array([P @ D[s] + Q[:, s] * e[s] for s in range(ne)])
        if k:
            r = np.array([R.sh[0] @ H[s] + R.sh[1] @ D[s] + R.sh[2][s] * e[s] for s in range(ne)])
            if abs(r.sum()) < 1e-3 * np.abs(r).sum() or abs(r.sum()) < 1e-8:
                return None
            H = H + np.outer(r / r.sum(), d)
        D = H
        out.append(D)
    return np.array(out)            # T, ne, n


def durations(R, x, E, c, linear):
    lk = []
    for e in E:
        l = k = 0
        if not linear:
            l, k, status = R.select(x, e, c.lmax, c.kmax)
            if status != "ok":
                return None
        x = R.step(x, e, l, k)
        lk.append((l, k))
    return lk


def run_nhd(mon, rng, c, pick, src, refs, linear, T, kw, exact=True):
    m, tm = c.mod, c.tm
    keep = copy.deepcopy({k: np.asarray(src[k]) for k in ("pars", "resid", "init")})
    X = np.asarray(m.simulate(src, linear=linear, **kw)[0])
    hd, means = m.nhd(src, linear=linear, **kw)
    for k in keep:
        mon.check(np.array_equal(np.asarray(src[k]), keep[k]), "the decomposition changes what it is given", which=k)
    n, ne = len(keep["pars"]), len(tm.shocks)
    vv = [str(v) for v in m.vv]
    mon.check(len(hd) == ne, "number of components", got=len(hd))
    for h in list(hd) + [means]:
        mon.check([str(v) for v in h.columns] == vv and h.index.equals(m.data.index), "labels of the decomposition")
    H = np.array([h.to_numpy() for h in hd])
    M = means.to_numpy()
    mon.close_to(M, X.mean(0), "the decomposed path is not the simulated one", tol=1e-9, model=c.text, linear=linear)
    big = 1 + np.abs(H).max()
    if big < 1e6:
        mon.close_to(H.sum(0), M, "the contributions do not sum to the path", tol=1e-8, scale=big, model=c.text,
                     linear=linear)
    mon.close_to(H[:, 0], np.repeat(keep["init"].mean(0)[None] / ne, ne, 0), "the initial state is not split evenly",
                 tol=1e-9)
    mon.saw("historical")
    mon.saw("periods", T)
    if n > 1:
        mon.saw("several")
    # component by component
    W, binding = [], False
    for j, (p, R) in enumerate(pick):
        lk = durations(R, refs[j], keep["resid"][j], c, linear) if refs is not None else None
        D = None if lk is None else decompose(R, refs[j], keep["resid"][j], lk)
        if D is None:
            W = None
            break
        mon.saw("binding periods", sum(k > 0 for _, k in lk))
        binding |= any(k > 0 for _, k in lk)
        W.append(D)
    if W is not None and np.abs(W).max() < 1e6:
        W = np.mean([d[:, :, c.ri] for d in W], 0)
        for s in range(ne):
            mon.close_to(H[s][:, c.mi], W[:, s], "a contribution is not that of its shock", tol=1e-6,
                         scale=1 + np.abs(W).max(), shock=tm.shocks[s], model=c.text, linear=linear, names=c.names)
            mon.saw("components")
    mon.case(sig=(c.text, "nhd", linear, T) if n > 1 or binding else None, sample=dict(T=T, samples=n, linear=linear))
    # sorted
    from pydsge.stats import sort_nhd
    lo, hi = sort_nhd(hd)
    mon.check(len(lo) == ne and len(hi) == ne, "number of sorted components")
    for s in range(ne):
        mon.close_to(hi[s][1] - hi[s][0], np.maximum(H[s], 0), "a positive bar has another size", tol=1e-10, scale=big)
        mon.close_to(lo[s][1] - lo[s][0], np.minimum(H[s], 0), "a negative bar has another size", tol=1e-10, scale=big)
        mon.close_to(hi[s][0], np.maximum(H[:s], 0).sum(0), "positive bars overlap", tol=1e-10, scale=big)
        mon.close_to(lo[s][0], np.minimum(H[:s], 0).sum(0), "negative bars overlap", tol=1e-10, scale=big)
    mon.saw("sorted")
    return X


def respond(R, x, e, h, c, linear):
    for s in range(h):
        l = k = 0
        es = e if s == 0 else np.zeros(R.ne)
        if not linear:
            l, k, status = R.select(x, es, c.lmax, c.kmax)
            if status != "ok":
                return None
            respond.bound |= k > 0
        x = R.step(x, es, l, k)
    return x


def table(R, x, e, h, c, linear):
    """squared responses of every variable to every shock of one period"""
    out = []
    v = respond(R, x, e * 0, h, c, linear)
    if v is None:
        return None
    for s in range(R.ne):
        es = np.zeros(R.ne)
        es[s] = e[s]
        y = respond(R, x, es, h, c, linear)
        if y is None:
            return None
        out.append((y - v)[c.ri] ** 2)
    return np.array(out)


def run_gfevd(mon, rng, c, pick, src, refs, X, linear, T, kw):
    m, tm = c.mod, c.tm
    h = int(rng.integers(1, 5))
    ne = R_ne = len(tm.shocks)
    E = np.asarray(src["resid"])
    respond.bound = False
    tabs = []
    for j, (p, R) in enumerate(pick):
        x = refs[j]
        for t in range(T - 1):
            tb = table(R, x, E[j, t], h, c, linear)
            if tb is None:
                return
            tabs.append(tb)
            l = k = 0
            if not linear:
                l, k, status = R.select(x, E[j, t], c.lmax, c.kmax)
                if status != "ok":
                    return
            x = R.step(x, E[j, t], l, k)
    tabs = np.array(tabs)
    bound = respond.bound
    given = dict(src, means=X) if rng.random() < .6 else src

    def judge(vd, tot, what):
        mon.check([str(v) for v in vd.columns] == [str(v) for v in m.vv] and
                  [str(v) for v in vd.index] == list(tm.shocks), "labels of the variance decomposition")
        s = tot.sum(0)
        ok = s > 1e-10 * (1 + s.max())
        if not ok.any():
            return False
        got = vd.to_numpy()[:, c.mi][:, ok]
        mon.close_to(got.sum(0), np.ones(ok.sum()), "shares of variance do not sum to one", tol=1e-8, by=what)
        mon.check((got >= 0).all(), "a share of variance is negative", by=what)
        mon.close_to(got, tot[:, ok] / s[ok], "share of variance", tol=1e-5, horizon=h, linear=linear, by=what,
                     model=c.text, names=c.names)
        return True

    vd = m.gfevd(given, horizon=h, linear=linear, verbose=False, **kw)
    if not judge(vd, tabs.sum(0), "all"):
        return
    mon.saw("variance")
    if not linear:
        mon.saw("variance nonlinear")
    mon.saw("variance binding", int(bound))
    mon.case(sig=(c.text, "gfevd", linear, h) if bound or len(pick) > 1 else None, sample=dict(horizon=h, linear=linear))
    # a sample of one: that of one of the periods
    if rng.random() < .5:
        seed = int(rng.integers(100))
        vd = m.gfevd(given, horizon=h, nsamples=1, seed=seed, linear=linear, verbose=False, **kw)
        vd2 = m.gfevd(given, horizon=h, nsamples=1, seed=seed, linear=linear, verbose=False, **kw)
        a, b = vd.to_numpy(), vd2.to_numpy()
        mon.check(np.array_equal(a, b, equal_nan=True), "the same seed gives another sample")
        best = np.inf
        for tb in tabs:
            s = tb.sum(0)
            ok = s > 1e-10 * (1 + s.max())
            if not ok.any():
                best = 0
                break
            d = np.abs(a[:, c.mi][:, ok] - tb[:, ok] / s[ok])
            best = min(best, d.max() if np.isfinite(d).all() else np.inf)
        mon.check(best < 1e-4, "a sample of one period is none of the periods", distance=float(best), model=c.text)
        mon.saw("variance sampled")


ORDER = """
declarations:
    name: 'order'
    variables: [x, zz, r, y]
    shocks: [e, u]
    parameters: [phi, psi, x_bar, gam]
equations:
    model:
        - y = gam*y(-1) + x - .5*r
        - x = phi*x(-1) + e
        - zz = psi*zz(-1) + u
    constraint:
        - r = .3*y + zz
    observables:
        ox: x
        oz: zz
calibration:
    parameters:
        phi: .5
        psi: .6
        x_bar: -9
        gam: .4
    covariances:
        e: 1
        u: 1
"""


def ordering(mon, rng):
    """averaging over parameters under which the variables are ordered differently is refused or right"""
    p = write_model(mon, None, text=ORDER)
    m = read(p)
    base = dict(phi=.5, psi=.6, x_bar=-9., gam=.4)
    alt = [dict(base, phi=0.), dict(base, psi=0.), dict(base, gam=0.)]
    vecs = [list(base.values())] + [list(a.values()) for a in alt]
    orders = []
    for v in vecs:
        m.set_par(v)
        orders.append([str(x) for x in m.vv])
    T = 4
    m.set_par(vecs[0])
    m.load_data(pd.DataFrame(np.zeros((T, 2)), columns=["ox", "oz"]))
    E = rng.standard_normal((2, T - 1, 2))
    for j in range(1, 4):
        if orders[j] == orders[0]:
            continue
        mon.saw("ordering")
        src = dict(pars=np.array([vecs[0], vecs[j]]), resid=E, init=np.zeros((2, len(orders[0]))))
        for first in (0, j):
            m.set_par(vecs[first])
            try:
                hd, means = m.nhd(src, linear=True)
            except Exception:
                mon.saw("ordering refused")
                continue
            want = 0
            for i, q in enumerate((0, j)):
                x, z = 0, 0
                w = [0]
                for t in range(T - 1):
                    x = vecs[q][0] * x + E[i, t, 0]
                    w.append(x)
                want = want + np.array(w) / 2
            mon.close_to(means["x"].to_numpy(), want, "variables are mixed up across parameters")
        for first in (0, j):
            m.set_par(vecs[first])
            try:
                vd = m.gfevd(dict(src, means=np.zeros((2, T, len(orders[0])))), linear=True, verbose=False)
            except Exception:
                mon.saw("ordering refused")
                continue
            mon.close_to(vd["x"].to_numpy(), [1., 0.], "variables are mixed up across parameters")
            mon.close_to(vd["zz"].to_numpy(), [0., 1.], "variables are mixed up across parameters")


def index(mon, rng, c):
    """one shock behind everything gives one, every observable its own shock gives zero"""
    m = c.mod
    Hm = np.hstack(m.hx[:2])
    n = len(m.shocks)
    if n < 2 or len(Hm) != n or np.linalg.cond(Hm) > 1e6:
        return
    back = np.linalg.pinv(Hm)

    def ask(W):
        vd = pd.DataFrame((back @ W).T, index=m.shocks, columns=m.vv)
        copy_ = vd.copy()
        v = float(m.mbcs_index(vd, verbose=False))
        mon.check(vd.equals(copy_), "the index changes the table it is given")
        return v
    own = np.eye(n)[rng.permutation(n)]
    mon.close_to(ask(own), 0., "every observable has its own shock", tol=1e-9, n=n)
    one = np.zeros((n, n))
    one[:, rng.integers(n)] = 1.
    mon.close_to(ask(one), 1., "one shock explains everything", tol=1e-9, n=n)
    W = rng.dirichlet(np.full(n, float(rng.choice([.2, 1., 5.]))), n)
    v = ask(W)
    mon.check(-1e-9 <= v <= 1 + 1e-9, "the index is not between zero and one", got=v, shares=W.tolist())
    mon.close_to(ask(W[:, rng.permutation(n)][rng.permutation(n)]), v, "the index depends on the order", tol=1e-9)
    mon.saw("indices")


def case(mon, rng, i):
    if i == 3:
        ordering(mon, rng)
    kw = dict(l_max=int(rng.integers(2, 5)), k_max=int(rng.integers(4, 30))) if rng.random() < .4 else {}
    if i % 4 == 0:
        c = square_case(mon, rng, **kw)
    else:
        c = draw_case(mon, rng, values=rng.random() < .5, **kw)
    m, tm = c.mod, c.tm
    here = np.array(m.get_par(), float)
    if kw:
        mon.saw("horizons")
    n = int(rng.integers(1, 4))
    others = vectors(rng, c, n - 1) if n > 1 else []
    pick = [(here, c.R)] + [(np.array(v), R) for v, R in others]
    n = len(pick)
    T = int(rng.integers(3, 9))
    size = float(rng.choice([1., 2.]))
    for rep in range(2):
        linear = bool(rng.random() < .3)
        m.set_par(here, **kw)
        P, E, I0, refs = history(mon, rng, c, pick, n, T, linear, size)
        src = dict(pars=P, resid=E, init=I0)
        idx = pd.date_range("2000-03-31", periods=T, freq="QE") if rep else pd.RangeIndex(T)
        m.load_data(pd.DataFrame(np.zeros((T, len(tm.observables))), columns=tm.observables, index=idx))
        X = run_nhd(mon, rng, c, pick, src, refs, linear, T, kw)
        m.set_par(here, **kw)
        if T <= 6 or n == 1:
            run_gfevd(mon, rng, c, pick, src, refs, X, linear, T, kw)
    if i % 4 == 0:
        index(mon, rng, c)
        # what extraction returns can be decomposed
        d = simulate_obs(c, rng, T)
        m.load_data(d)
        m.prep_estim(linear=True, ncores=0, verbose=False, **kw)
        m.filter.R = np.diag((d.std().to_numpy() + .05) ** 2 * .02)
        ex = m.extract(P, verbose=False)
        m.set_par(here, **kw)
        run_nhd(mon, rng, c, pick, ex, None, True, T, kw)
        vd = m.gfevd(ex, horizon=1, linear=True, verbose=False, **kw)
        tot = 0
        for j, (p, R) in enumerate(pick):
            for t in range(T - 1):
                tot = tot + np.array([(R.Q[:, s] * ex["resid"][j][t][s])[c.ri] ** 2 for s in range(R.ne)])
        s = tot.sum(0)
        ok = s > 1e-10 * (1 + s.max())
        if ok.any():
            mon.close_to(vd.to_numpy()[:, c.mi][:, ok], tot[:, ok] / s[ok], "share of variance of extracted shocks",
                         tol=1e-5, model=c.text)
        mon.saw("extracted")
