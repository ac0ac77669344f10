"""Posterior statistics are those of the kept part of the stored chain, in terms of the parameters."""
import os
import numpy as np
import pandas as pd
from scipy.stats import chi2, multivariate_normal
from ..harness import *
from .C16 import inverse

CASES = {"quick": 72, "thorough": 1500}
WARM = True
RULE = ("a case is one model with a stored chain (written by the harness, with the sampler's or the parameters' space, "
        "any number of periods and walkers, kept part given in the file, on the object or in the call), read directly "
        "or after the model was saved and loaded; an evaluation is one statistic recomputed from the numbers written; "
        "non-trivial: the kept part is shorter than the chain")
MIN = {"chains": 36, "posterior means": 70, "posterior draws": 70, "recent samples": 140, "summaries": 36, "tables": 36,
       "laplace": 60, "harmonic": 30, "loaded": 15, "transformed": 20, "complete samples": 20, "refused": 20,
       "unchanged": 60, "in a pool": 2, "panels": 12, "posterior panels": 12}


def write_chain(path, X, L, acc):
    import emcee
    if os.path.exists(path):
        os.remove(path)
    T, nw, nd = X.shape
    b = emcee.backends.HDFBackend(path)
    b.reset(nw, nd)
    b.grow(T, None)
    for t in range(T):
        st = emcee.State(X[t], log_prob=L[t], random_state=np.random.RandomState(0).get_state())
        b.save_step(st, acc[t])


def rows(a):
    return {tuple(np.round(r, 9)) for r in a}


def plots(mon, m, names, X, tune, other, own, what):
    """the lines drawn are the chain, one parameter to a panel, the kept part apart from the rest"""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import warnings
    T, nw, nd = X.shape
    if min(tune, other) < 2 or min(np.ptp(X[-k:].reshape(-1, nd), axis=0).min() for k in (tune, other)) < 1e-6:
        return
    use, k, Y, nm = {}, tune, X, names
    if not own and other != tune:
        use, k = dict(tune=other), other
    if own:
        Y = X[::-1] * 1.
        nm = ["x%d" % j for j in range(nd)]
        use, k = dict(chain=Y, tune=other, prior_names=nm), other
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            figs, subs, axs = m.traceplot(**use)
            mon.check(len(axs) == nd, "number of panels", got=len(axs), **what)
            titles = [s._suptitle.get_text() for f in subs for s in f]
            mon.check(titles == nm, "parameters of the plot", got=titles, want=nm)
            for j, (left, right) in enumerate(axs):
                old = [l for l in right.get_lines() if l.get_color() == "maroon"]
                new = [l for l in right.get_lines() if l.get_color() == "C0"]
                mon.check(len(new) == nw and len(old) == nw, "number of lines", got=(len(old), len(new)), want=nw)
                got = np.array([l.get_ydata() for l in new]).T
                mon.close_to(got, Y[-k:, :, j], "the kept part in the plot", tol=1e-9, par=nm[j], **what)
                mon.check(list(new[0].get_xdata()) == list(range(T - k, T)), "periods of the kept part in the plot")
                got = np.array([l.get_ydata() for l in old]).T
                mon.close_to(got, Y[:T - k + 1, :, j], "the first part in the plot", tol=1e-9, par=nm[j], **what)
            mon.saw("panels", nd)
        finally:
            plt.close("all")
        try:
            figs, axs = m.posteriorplot(plots_per_fig=max(nd, 2), display_additinal_info=True)
            flat = np.atleast_1d(axs[0]).ravel()
            mon.check([a.get_title() for a in flat] == names, "parameters of the posterior plot")
            for j, a in enumerate(flat):
                K = X[-tune:, :, j].ravel()
                txt = " ".join(t.get_text() for t in a.texts)
                mean = [t.get_text() for t in a.texts if "mean" in t.get_text()]
                mon.check(len(mean) == 1, "mean in the posterior plot", got=txt)
                mon.close_to(float(mean[0].split("=")[-1].replace("$", "")), K.mean(), "mean in the posterior plot",
                             tol=2e-3 * max(1, abs(K.mean())), par=names[j], text=txt, **what)
            mon.saw("posterior panels", nd)
        finally:
            plt.close("all")


def case(mon, rng, i):
    from pydsge import DSGE
    from pydsge.stats import post_mean
    c = square_case(mon, rng, features={"no_zeros", "all_priors"} if i % 2 else {"no_zeros"})
    m, tm = c.mod, c.tm
    d = simulate_obs(c, rng, 6)
    m.load_data(d)
    trans = bool(rng.random() < .5)
    pool = i % 24 == 7
    m.prep_estim(linear=True, ncores=2 if pool else 0, use_prior_transform=trans, verbose=False, dry_run=False)
    prior = {str(a): b for a, b in m.prior.items()}
    nd = len(prior)
    T, nw = int(rng.integers(3, 25)), int(rng.integers(2 * nd + 2, 3 * nd + 6))
    ix = [tm.parameters.index(p) for p in prior]
    X = np.array([np.array(gen.perturb(rng, tm))[ix] for _ in range(T * nw)]).reshape(T, nw, nd)
    X = X + 1e-3 * X * rng.standard_normal(X.shape) * (X > .01) * (X < .95)
    S = inverse(prior, X) if trans else X
    L = rng.standard_normal((T, nw)).round(4) * 10 - 50
    acc = rng.random((T, nw)) < .4
    tune = int(rng.integers(1, T + 1))
    name = os.path.join(os.path.dirname(c.path), tm.name + "_sampler.h5")
    write_chain(name, S, L, acc)
    m.tune = tune
    mon.saw("chains")
    if trans:
        mon.saw("transformed")
    what = dict(T=T, walkers=nw, dims=nd, tune=tune, trans=trans, pool=bool(pool))
    load = bool(rng.random() < .4)
    if load:
        f = mon.path("meta%d" % i)
        m.save(f, verbose=False)
        os.rename(name, mon.path(tm.name + "_sampler.h5"))
        m = DSGE.load(f + ".npz", verbose=False)
        what["loaded"] = True
        mon.saw("loaded")
        m.set_par("calib")
        if rng.random() < .5:
            m.prep_estim(ncores=0, verbose=False, dry_run=False)
            m.set_par("calib")
    mine = np.array(gen.perturb(rng, tm))
    try:
        Reference(tm, mine)
        m.set_par(mine)
    except (Indeterminate, Unstable, IllConditioned):
        mine = np.array(m.get_par(), float)
    vv = [str(v) for v in m.vv]
    sd = shock_std(c)
    probe = m.t_func(np.zeros(len(vv)), sd, linear=True)[0].copy()
    fix = np.array(tm.calib, float)

    # the chain itself
    C = np.asarray(m.get_chain())
    mon.close_to(C, X, "the chain is not the one that was stored", tol=1e-9, **what)
    mon.close_to(m.get_log_prob(), L, "the densities are not those that were stored", tol=0, **what)
    mon.close_to(m.get_chain(flat=True), X.reshape(-1, nd), "the flat chain", tol=1e-9, **what)
    mon.close_to(m.get_log_prob(flat=True), L.reshape(-1), "the flat densities", tol=0, **what)
    mon.close_to(m.get_chain(get_acceptance_fraction=True), acc.sum(0) / T, "acceptance fractions", tol=1e-12, **what)
    mon.check(int(m.get_tune) == tune, "number of periods kept", got=m.get_tune, **what)

    def kept(k):
        return X[-k:].reshape(-1, nd), L[-k:].reshape(-1)

    def unchanged(by):
        mon.check(np.array_equal(np.array(m.get_par(), float), mine), "parameters of the model change", by=by, **what)
        mon.close_to(m.t_func(np.zeros(len(vv)), sd, linear=True)[0], probe, "the model changes", tol=1e-12, by=by)
        mon.saw("unchanged")
    unchanged("get_chain")
    K, KL = kept(tune)
    other = int(rng.integers(1, T + 1))
    O, OL = kept(other)
    # means
    for nm in ("post_mean", "posterior_mean"):
        mon.close_to(m.get_par(nm, full=False), K.mean(0), "posterior mean", tol=1e-9, **what)
    w = fix.copy()
    w[ix] = K.mean(0)
    mon.close_to(m.get_par("post_mean"), w, "posterior mean among all parameters", tol=1e-9, **what)
    mon.close_to(post_mean(m, tune=other), O.mean(0), "posterior mean of another part", tol=1e-9, other=other, **what)
    Y = rng.standard_normal((4, 3, nd))
    mon.close_to(post_mean(m, chain=Y), Y.reshape(-1, nd).mean(0), "posterior mean of another chain", tol=1e-12)
    mon.saw("posterior means", 2)
    mon.case(sig=(i, "mean") if tune < T else None, sample=what)
    # draws
    have = rows(K)
    for nm in ("post", "posterior"):
        n = 30 * len(K) if rng.random() < .5 and len(K) < 150 else int(rng.integers(1, 30))
        D = np.asarray(m.get_par(nm, full=False, nsamples=n), float)
        mon.check(D.shape == (n, nd), "number of posterior draws", got=D.shape, want=(n, nd), **what)
        got = rows(D)
        mon.check(got <= have, "a posterior draw is not in the kept part of the chain", **what)
        if n == 30 * len(K):
            mon.check(got == have, "some of the kept draws are never drawn", missing=len(have - got), of=len(have), **what)
        D2 = np.asarray(m.get_par(nm, full=True, nsamples=min(n, 9)), float)
        mon.check(rows(D2[:, ix]) <= have, "a posterior draw is not in the kept part of the chain", **what)
        if len(have) > 9:
            D3 = np.asarray(m.get_par(nm, full=True, nsamples=12), float)
            mon.check(len(rows(D3[:, ix])) > 1, "all posterior draws are the same one", **what)
        rest = [j for j in range(len(fix)) if j not in ix]
        mon.close_to(D2[:, rest], np.tile(fix[rest], (len(D2), 1)), "a draw changes parameters that are not estimated",
                     tol=0)
        mon.saw("posterior draws")
        mon.case(sig=(i, nm) if tune < T else None)
    # recent samples
    for _ in range(4):
        size = int(rng.choice([1, nw - 1, nw, nw + 1, 2 * nw, T * nw, int(rng.integers(1, T * nw + 1))]))
        rec = -(-size // nw)
        if rec > T:
            continue
        g = np.asarray(m.get_sample(size))
        mon.check(g.shape == (size, nd), "size of the sample", got=g.shape, want=(size, nd), **what)
        mon.check(rows(g) <= rows(X[-rec:].reshape(-1, nd)), "the sample is not a recent one", size=size, **what)
        full = rows(X[-rec:].reshape(-1, nd))
        if len(full) == rec * nw:
            mon.check(len(rows(g)) == size, "the sample repeats draws", size=size, **what)
            if size == rec * nw:
                mon.check(rows(g) == full, "the sample is incomplete", size=size, **what)
                mon.saw("complete samples")
        mon.saw("recent samples")
    g = np.asarray(m.get_sample(3, chain=Y))
    mon.check(rows(g) <= rows(Y[-1]), "a sample from another chain")
    try:
        m.get_sample(T * nw + 1)
    except Exception:
        mon.saw("refused")
    else:
        mon.fail("a sample larger than the chain", **what)
    # summary
    use = dict(tune=other) if rng.random() < .5 else {}
    A, AL = (O, OL) if use else (K, KL)
    res = m.mcmc_summary(**use, **(dict(out=lambda *a: None) if rng.random() < .5 else {}))
    mon.check([str(p) for p in res.index] == list(prior), "parameters of the summary", got=list(res.index))
    mon.close_to(res["mean"].to_numpy(), A.mean(0), "means of the summary", tol=1e-9, **what)
    mon.close_to(res["sd"].to_numpy(), A.std(0), "standard deviations of the summary", tol=1e-9, **what)
    if "mode" in res:
        b = A[AL.argmax()]
        ties = (AL == AL.max()).sum() > 1
        if not ties:
            mon.close_to(res["mode"].to_numpy(), b, "mode of the summary", tol=1e-9, **what)
    mon.saw("summaries")
    mon.case(sig=(i, "summary") if use or tune < T else None)
    # table
    p = mon.path("post%d.csv" % i)
    use = dict(tune=other) if rng.random() < .5 else {}
    A, AL = (O, OL) if use else (K, KL)
    m.posterior2csv(p, **use)
    t = pd.read_csv(p, index_col=0)
    mon.check([str(v) for v in t.index] == list(prior), "parameters of the table")
    mon.close_to(t.to_numpy().T, A, "draws in the table", tol=1e-9, **what)
    mon.saw("tables")
    # marginal data density
    for k, (A, AL) in ((None, (K, KL)), (other, (O, OL))):
        use = {} if k is None else dict(tune=k)
        if len(A) < nd + 3 or nd == 1:
            continue
        V = np.cov(A.T)
        s = np.sqrt(np.diag(V))
        if s.min() <= 0 or np.linalg.cond(V / np.outer(s, s)) > 1e8:
            continue
        want = .5 * nd * np.log(2 * np.pi) + np.log(s).sum() + \
            .5 * np.linalg.slogdet(V / np.outer(s, s))[1] + AL.max()
        want_lp = want
        mon.close_to(m.mdd("laplace", **use), want, "marginal data density (Laplace)", tol=1e-7, **what)
        mon.saw("laplace")
        al = float(rng.choice([.05, .2]))
        z = (A - A.mean(0)) / s
        Vn = V / np.outer(s, s)
        dist = np.einsum("ij,jk,ik->i", z, np.linalg.inv(Vn), z)
        cut = chi2.ppf(1 - al, nd)
        if np.abs(dist - cut).min() > 1e-6:
            ld = -.5 * (nd * np.log(2 * np.pi) + 2 * np.log(s).sum() + np.linalg.slogdet(Vn)[1] + dist)
            q = (ld - AL)[dist < cut]
            want = -(np.log(np.exp(q - q.max()).sum() / len(A)) + q.max())
            got = m.mdd("mhm", alpha=al, **use)
            mon.close_to(got, want, "marginal data density (harmonic mean)", tol=1e-6, alpha=al, **what)
            mon.saw("harmonic")
            if pool and not load:
                mon.saw("in a pool")
        mon.close_to(m.mdd("laplace", chain=A, **use), want_lp, "marginal data density of a given chain", tol=1e-7)
        mon.close_to(m.mdd("laplace", lprobs=AL, **use), want_lp, "marginal data density at given densities", tol=1e-7)
        got = m.mdd("laplace", chain=A[::-1], lprobs=AL[::-1])
        mon.close_to(got, .5 * nd * np.log(2 * np.pi) + .5 * np.linalg.slogdet(Vn)[1] + np.log(s).sum() + AL.max(),
                     "marginal data density of a given chain", tol=1e-7)
        mon.case(sig=(i, "mdd", k) if tune < T else None)
    unchanged("statistics")
    if i % 6 == 1:
        plots(mon, m, list(prior), X, tune, other, bool(i % 12 == 1), what)
        unchanged("plots")
    # a later chain replaces the earlier one
    name2 = mon.path("other%d.h5" % i)
    write_chain(name2, S[::-1] if T > 1 else S, L[::-1], acc)
    mon.close_to(np.asarray(m.get_chain(backend_file=name2)), X[::-1] if T > 1 else X, "the chain of another file",
                 tol=1e-9, **what)
    mon.close_to(np.asarray(m.get_chain()), X, "looking at another file changes the chain", tol=1e-9, **what)
    if pool and getattr(m, "pool", None):
        m.pool.close()
        m.pool = None
