"""The data that is used is exactly the observables of the model in the window asked for."""
import numpy as np
import pandas as pd
from ..harness import *

CASES = {"quick": 150, "thorough": 4000}
RULE = ("a case is one model with tables of data (columns in random order among others, many kinds of index, windows "
        "given in many ways, holes inside and outside of the window); an evaluation is one loaded or refused table; "
        "the rows are selected independently by date arithmetic; non-trivial: a window, or columns out of order")
MIN = {"loaded": 500, "windows": 500, "refused": 300, "kept after refusal": 300, "dates": 300, "numbers": 200,
       "labels": 60, "likelihood": 8, "out of order": 300, "observation noise": 100}


def calendar(rng, T):
    kind = str(rng.choice(["quarter end", "quarter start", "month end", "year", "day", "periods", "range", "years",
                           "floats", "labels"]))
    y = int(rng.integers(1950, 2010))
    if kind == "quarter end":
        ix = pd.date_range("%d-03-31" % y, periods=T, freq="QE")
    elif kind == "quarter start":
        ix = pd.date_range("%d-01-01" % y, periods=T, freq="QS")
    elif kind == "month end":
        ix = pd.date_range("%d-01-31" % y, periods=T, freq="ME")
    elif kind == "year":
        ix = pd.date_range("%d-12-31" % y, periods=T, freq="YE")
    elif kind == "day":
        ix = pd.date_range("%d-12-20" % y, periods=T, freq="D")
    elif kind == "periods":
        ix = pd.period_range("%dQ1" % y, periods=T, freq="Q")
    elif kind == "range":
        ix = pd.RangeIndex(T)
    elif kind == "years":
        ix = pd.Index(np.arange(y, y + T))
    elif kind == "floats":
        ix = pd.Index(y + np.arange(T) / 4)
    else:
        ix = pd.Index(["t%03d" % j for j in range(T)])
    return kind, ix


def ends(rng, kind, ix, last):
    """(argument, predicate on position): an end point in some notation"""
    j = int(rng.integers(len(ix)))
    lab = ix[j]
    if kind in ("range", "years", "floats", "labels"):
        v = lab.item() if hasattr(lab, "item") else lab
        if kind == "years" and rng.random() < .2:
            v = v + (500 if last else -500)              # beyond the data
        return v, [(x <= v if last else x >= v) for x in ix]
    t = lab.start_time if kind == "periods" else lab
    how = str(rng.choice(["year", "year int", "quarter", "month", "day", "stamp"]))
    if kind == "periods" and how in ("day", "stamp", "month"):
        how = "quarter"
    if kind == "quarter start" and how == "quarter":
        how = "month"               # pandas takes quarters of such an index for those of another fiscal year
    q = (t.month - 1) // 3 + 1
    if how in ("year", "year int"):
        a, lo, hi = str(t.year), (t.year, 1, 1), (t.year + 1, 1, 1)
        if how == "year int":
            a = int(t.year)
    elif how == "quarter":
        a = "%dQ%d" % (t.year, q)
        lo = (t.year, 3 * q - 2, 1)
        hi = (t.year + (q == 4), 1 if q == 4 else 3 * q + 1, 1)
    elif how == "month":
        a = "%d-%02d" % (t.year, t.month)
        lo = (t.year, t.month, 1)
        hi = (t.year + (t.month == 12), 1 if t.month == 12 else t.month + 1, 1)
    else:
        a = "%d-%02d-%02d" % (t.year, t.month, t.day)
        if how == "stamp":
            a = pd.Timestamp(a)
        lo = (t.year, t.month, t.day)
        hi = None
    out = []
    for x in ix:
        s = x.start_time if kind == "periods" else x
        d = (s.year, s.month, s.day)
        if last:
            out.append(d < hi if hi else d <= lo)
        else:
            out.append(d >= lo)
    return a, out


def one(mon, rng, m, tm, k):
    T = int(rng.integers(2, 40))
    kind, ix = calendar(rng, T)
    mon.saw("dates" if kind not in ("range", "years", "floats", "labels") else
            "labels" if kind == "labels" else "numbers")
    other = ["other%d" % j for j in range(int(rng.integers(0, 4)))] + [v for v in tm.variables[:2]
                                                                      if v not in tm.observables]
    cols = list(tm.observables) + other
    if rng.random() < .7:
        cols = [cols[j] for j in rng.permutation(len(cols))]
    vals = rng.standard_normal((T, len(cols))).round(6)
    df = pd.DataFrame(vals, columns=cols, index=ix)
    if rng.random() < .2:
        df[tm.observables[0]] = rng.integers(-9, 9, T)
    for o in other:
        if rng.random() < .5:
            df[o] = "text" if rng.random() < .3 else np.nan
    kw, keep = {}, np.ones(T, bool)
    if rng.random() < .6:
        kw["start"], p = ends(rng, kind, ix, False)
        keep &= np.array(p)
    if rng.random() < .6:
        kw["end"], p = ends(rng, kind, ix, True)
        keep &= np.array(p)
    if kw:
        mon.saw("windows")
    if not keep.any():
        return None
    want = np.array([[df[o].iloc[t] for o in tm.observables] for t in range(T) if keep[t]], float)
    # holes
    hole = int(rng.integers(4))
    bad = False
    if hole == 1:
        t, o = int(rng.integers(T)), str(rng.choice(tm.observables))
        df[o] = df[o].astype(float)
        df.iloc[t, df.columns.get_loc(o)] = np.nan
        bad = bool(keep[t])
    src = df.copy()
    before = getattr(m, "data", None)
    before_v = None if before is None else before.copy()
    f_before = m.fdict.get("data")
    what = dict(index=kind, window={a: str(b) for a, b in kw.items()}, T=T, columns=cols)

    def refused(f, kinds, why):
        try:
            f()
        except kinds:
            mon.saw("refused")
        else:
            mon.fail("bad data is accepted", why=why, **what)
        mon.check(getattr(m, "data", None) is before and m.fdict.get("data") is f_before and
                  (before is None or before.equals(before_v)), "refused data replaces what was loaded", why=why, **what)
        mon.saw("kept after refusal")

    if k % 3 == 0:
        o = str(rng.choice(tm.observables))
        refused(lambda: m.load_data(df.drop(columns=o), **kw), Exception, "missing series " + o)
        refused(lambda: m.load_data(df[tm.observables].to_numpy(), **kw), Exception, "not a table")
    if bad:
        refused(lambda: m.load_data(df, **kw), Exception, "hole in the window")
        return None
    d = m.load_data(df, **kw)
    mon.check(df.equals(src), "loading changes the table", **what)
    for x in (d, m.data):
        mon.check([str(q) for q in x.columns] == list(tm.observables), "columns of the data", got=list(x.columns), **what)
        mon.close_to(x.to_numpy().astype(float), want, "the data is not what was asked for", tol=0, **what)
        mon.check(list(x.index) == [ix[t] for t in range(T) if keep[t]], "dates of the data", **what)
    mon.saw("loaded")
    if cols[:len(tm.observables)] != list(tm.observables):
        mon.saw("out of order")
    mon.case(sig=(kind, tuple(sorted(map(str, kw.values()))), tuple(cols)), sample=what)
    # what happens to the source afterwards
    snap = m.data.copy()
    for o in tm.observables:
        df.loc[:, o] = 77
    mon.check(m.data.equals(snap), "the data changes with the table it was taken from", **what)
    # noise of observation
    if len(want) > 1:
        sc = float(rng.choice([.1, .5, 1.]))
        C = m.create_obs_cov(sc) if sc != .1 or rng.random() < .5 else m.create_obs_cov()
        V = np.diag(((want - want.mean(0)) ** 2).mean(0) * sc ** 2)
        mon.close_to(C, V, "observation noise is not the share of variance asked for", tol=1e-10, **what)
        mon.saw("observation noise")
    mk = m.mask
    mon.check(len(mk) == len(want) - 1 and bool(mk.isna().all().all()) and m.data.equals(snap), "the mask", **what)
    return want


def likelihood(mon, rng):
    c = square_case(mon, rng)
    m, tm = c.mod, c.tm
    T = 30
    d = simulate_obs(c, rng, T)
    big = d.copy()
    for j in range(3):
        big["o%d" % j] = np.nan
    big = big[[big.columns[j] for j in rng.permutation(big.shape[1])]]
    a, b = sorted(int(x) for x in rng.choice(T, 2, replace=False))
    a = min(a, T - 6)
    b = max(b, a + 4)
    m.load_data(big, start=str(big.index[a].date()), end=str(big.index[b].date()))
    lin = bool(rng.random() < .6)
    R = np.diag(d.std().to_numpy() ** 2 * .05 + 1e-4)

    def val(mm):
        mm.filter.R = R
        x = [tm.calib[tm.parameters.index(p)] for p in mm.prior]
        return mm.lprob(np.array(x))

    def fresh(dd):
        f = read(c.path, nocache=True)
        f.set_par("calib")
        f.load_data(dd)
        f.prep_estim(linear=lin, N=12, seed=3, ncores=0, verbose=False, dry_run=False)
        return f
    m.prep_estim(linear=lin, N=12, seed=3, ncores=0, verbose=False, dry_run=False)
    ref = fresh(d.iloc[a:b + 1])
    w = val(ref)
    mon.close_to(val(m), w, "the likelihood is not that of the data asked for", tol=1e-8, model=c.text)
    # other data, same preparation
    d2 = simulate_obs(c, rng, 12)
    m.load_data(d2)
    v = val(m)
    mon.close_to(v, val(fresh(d2)), "the likelihood does not follow the data that was loaded", tol=1e-8, model=c.text)
    try:
        m.load_data(d2 * np.nan)
    except Exception:
        mon.saw("refused")
    mon.close_to(val(m), v, "refused data enters the likelihood", tol=0)
    mon.saw("likelihood", 2 if np.isfinite(w) else 1)


def case(mon, rng, i):
    if i % 12 == 5:
        return likelihood(mon, rng)
    c = draw_case(mon, rng)
    for k in range(16):
        one(mon, rng, c.mod, c.tm, k)
