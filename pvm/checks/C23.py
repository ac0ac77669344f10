"""Draws from the prior follow the prior, are admissible, and are reproducible."""
import contextlib
import io
import re
import numpy as np
import scipy.stats as ss
import scipy.optimize as so
from scipy.special import gammaln
from ..harness import *

CASES = {"quick": 30, "thorough": 600}
RULE = ("a case is one model with a random choice of estimated parameters and prior distributions of all kinds (written "
        "with three or six entries), some of whose mass has no solution; an evaluation is one sample (unchecked, tried, "
        "or with a finite likelihood); non-trivial: some draws had to be rejected, or the distribution was compared")
ASSUMES = ["distributions are compared by Kolmogorov-Smirnov tests at 1e-7 with fixed seeds"]
MIN = {"samples": 50, "distributions": 40, "tried": 500, "rejections": 20, "likelihood": 8, "reproduced": 25,
       "truncated": 5, "transformed": 3, "uniform": 3, "normal": 3, "gamma": 5, "beta": 5, "inv_gamma": 5,
       "inv_gamma_dynare": 1, "densities": 80, "bounds": 20}
TYPES = ["uniform", "normal", "gamma", "beta", "inv_gamma", "inv_gamma_dynare"]


def dist(d):
    """(cdf, logpdf) of a prior as the file states it"""
    ty, a, b = list(d)[-3:]
    if ty == "uniform":
        f = ss.uniform(a, b - a)
    elif ty == "normal":
        f = ss.norm(a, b)
    elif ty == "gamma":
        f = ss.gamma((a / b) ** 2, scale=b * b / a)
    elif ty == "beta":
        n = a * (1 - a) / b ** 2 - 1
        f = ss.beta(a * n, (1 - a) * n)
    elif ty == "inv_gamma":
        al = (a / b) ** 2 + 2
        f = ss.invgamma(al, scale=a * (al - 1))
    else:
        def g(nu):
            return (np.log(2 * a * a) - np.log((b * b + a * a) * (nu - 2))
                    + 2 * (gammaln(nu / 2) - gammaln((nu - 1) / 2)))
        nu = so.brentq(g, 2 + 1e-9, 1e6, xtol=1e-13, rtol=1e-14)
        s = (b * b + a * a) * (nu - 2)
        q = ss.invgamma(nu / 2, scale=s / 2)
        return (lambda x: q.cdf(np.asarray(x) ** 2)), (lambda x: q.logpdf(x * x) + np.log(2 * x) if x > 0 else -np.inf)
    return f.cdf, f.logpdf


def draw_prior(rng, tm, wide, dynare):
    out = {}
    names = [p for p in tm.parameters if p != "x_bar" and tm.calib[tm.parameters.index(p)] != 0]
    k = int(rng.integers(2, min(6, len(names)) + 1))
    for p in rng.choice(names, k, replace=False):
        v = tm.calib[tm.parameters.index(p)]
        ok = ["uniform", "normal"]
        if v > 0:
            ok += ["gamma", "inv_gamma"] * 2
            if dynare and not any("inv_gamma_dynare" in e for e in out.values()):
                ok = ["inv_gamma_dynare"]
        if .02 < v < .98:
            ok += ["beta"] * 3
        ty = str(rng.choice(ok))
        sd = abs(v) * float(rng.choice([.05, .2, .5] if wide else [.02, .05]))
        if ty == "uniform":
            a, b = round(v - 1.7 * sd, 6), round(v + 1.7 * sd, 6)
        else:
            a, b = round(v, 6), round(sd, 6)
            if ty == "inv_gamma_dynare":
                b = round(v * float(rng.choice([.7, 1.5])), 6)
            if ty == "beta":
                b = round(min(sd, .4 * np.sqrt(v * (1 - v))), 6)
        e = [ty, a, b]
        if rng.random() < .5:
            e = [round(v, 6), a - 9 if ty == "normal" else 0, 20] + e
        out[str(p)] = e
    return out


def has(m, v):
    try:
        with np.errstate(all="raise"):
            m.set_par(v)
    except Exception:
        return False
    return True


def case(mon, rng, i):
    wide = i % 3 != 0
    for _ in range(20):
        c = square_case(mon, rng, setpar=False)
        pr = draw_prior(rng, c.tm, wide, i % 6 == 1)
        c.spec.prior = pr
        if pr:
            break
    tm = c.tm
    path = write_model(mon, c.spec)
    m = read(path)
    m.set_par("calib")
    probe = read(path, nocache=True)
    ix = [tm.parameters.index(p) for p in pr]
    mon.check([str(p) for p in m.prior] == list(pr), "estimated parameters", got=[str(p) for p in m.prior])
    D = {p: dist(e) for p, e in pr.items()}
    what = dict(prior=pr)
    seed = int(rng.integers(10 ** 6))
    dynare = any("inv_gamma_dynare" in e for e in pr.values())
    n = 40 if dynare else 300        # the numerical inversion of its distribution function is slow
    kw = dict(verbose=False, filterwarnings="ignore")

    def shape(x, k):
        x = np.asarray(x, float)
        mon.check(x.shape == (k, len(pr)), "shape of a sample from the prior", got=x.shape, want=(k, len(pr)), **what)
        for j, p in enumerate(pr):
            u = D[p][0](x[:, j])
            mon.check((u > 0).all() and (u < 1).all(), "a draw outside of the support", parameter=p, **what)
        mon.check(k < 2 or len(np.unique(x[:, 0])) > .9 * k, "draws repeat", **what)
        mon.saw("samples")
        return x

    # unchecked: the prior itself
    try:
        X = shape(m.prior_sampler(n, try_parameter=False, seed=seed, **kw), n)
    except (RuntimeError, ValueError):
        if not dynare:
            raise
        mon.saw("distribution function could not be inverted")
        return
    for j, (p, e) in enumerate(pr.items()):
        pv = ss.kstest(X[:, j], D[p][0]).pvalue
        mon.check(pv > 1e-7, "draws do not follow the prior", parameter=p, p_value=pv, **what)
        mon.saw("distributions")
        mon.saw(e[-3])
    if len(pr) > 1:
        r = np.corrcoef(ss.rankdata(X, axis=0).T) - np.eye(len(pr))
        mon.check(np.abs(r).max() * np.sqrt(n) < 6, "draws of different parameters are related", corr=r, **what)
    mon.case(sig=(i, "free"), sample=what)
    # again
    np.random.seed(int(rng.integers(1000)))
    k = 6 if dynare else n
    W = np.asarray(m.prior_sampler(k, try_parameter=False, seed=seed, **kw)) if dynare else X
    np.random.seed(int(rng.integers(1000)))
    Y = np.asarray(m.prior_sampler(k, try_parameter=False, seed=seed, **kw))
    mon.check(np.array_equal(W, Y), "the same seed gives another sample", **what)
    Y = np.asarray(m.prior_sampler(k, try_parameter=False, seed=seed + 10 ** 7, **kw))
    mon.check(not np.isin(Y[:, 0], X[:, 0]).any(), "another seed gives the same draws", **what)
    mon.saw("reproduced")
    # tried: all have a solution; otherwise as likely as before
    n2 = 10 if dynare else 60
    full = np.tile(np.array(tm.calib, float), (n, 1))
    full[:, ix] = X
    adm = np.array([has(probe, v) for v in full[:n2]])
    mon.saw("rejections", (~adm).sum())
    if adm.mean() > .25:
        Y = shape(m.prior_sampler(n2, seed=seed, max_attempts=500, **kw), n2)
        f2 = np.tile(np.array(tm.calib, float), (n2, 1))
        f2[:, ix] = Y
        for v in f2:
            mon.check(has(probe, v), "a draw without a solution", par=v, **what)
            mon.saw("tried")
        if not adm.all():
            A = X[:n2][adm]
            for j, p in enumerate(pr):
                pv = ss.ks_2samp(A[:, j], Y[:, j]).pvalue
                mon.check(pv > 1e-6, "tried draws follow another distribution than the admissible ones", parameter=p,
                          p_value=pv, **what)
            mon.saw("truncated")
        mon.case(sig=(i, "tried") if not adm.all() else None)
        np.random.seed(5)
        Z = np.asarray(m.prior_sampler(n2, seed=seed, max_attempts=500, **kw))
        mon.check(np.array_equal(Y, Z), "the same seed gives another sample", **what)
        mon.saw("reproduced")
        G = np.asarray(m.get_par("prior", nsamples=5, seed=seed, max_attempts=500, verbose=False), float)
        mon.check(G.shape == (5, len(tm.parameters)), "shape of draws of all parameters", got=G.shape)
        mon.check(np.ptp(G[:, ix], axis=0).min() > 0, "several draws are the same draw", got=G, **what)
        rest = [j for j in range(len(tm.parameters)) if j not in ix]
        mon.check(np.array_equal(G[:, rest], np.tile(np.array(tm.calib)[rest], (5, 1))),
                  "draws move parameters without a prior", **what)
        for v in G:
            mon.check(has(probe, v), "a draw without a solution", par=v, **what)
    # with a likelihood
    if adm.mean() > .5:
        T = 5
        d = simulate_obs(c, rng, T)
        trans = bool(rng.random() < .5)
        Rm = np.diag((d.std().to_numpy() + .1) ** 2 * .2)
        refs = []
        for q in (m, probe):
            q.load_data(d)
            q.prep_estim(linear=True, ncores=0, seed=2, use_prior_transform=trans if q is m else False, verbose=False,
                         dry_run=False)
            q.filter.R = Rm
        k = 3 if dynare else 12
        Y = shape(m.prior_sampler(k, check_likelihood=True, seed=seed, max_attempts=500, verbose=False,
                                  filterwarnings="ignore"), k)
        for y in Y:
            mon.check(np.isfinite(probe.lprob(y)), "a draw without a likelihood", par=y, **what)
        mon.saw("likelihood")
        if trans:
            mon.saw("transformed")
            for y in Y[:4]:
                s = m.bptrans(y, sampler_to_prior=False)
                mon.close_to(m.bptrans(s), y, "the transformation is not undone by its inverse", tol=1e-9)
                mon.close_to(m.lprob(s), probe.lprob(y), "density in the sampler's space", tol=1e-7)
        for y in X[:8]:
            w = sum(D[p][1](v) for p, v in zip(pr, y))
            mon.close_to(m.lprior(y), w, "density of the prior", tol=1e-6, par=y, **what)
            mon.saw("densities")
        # the bounds of the file
        for _ in range(4):
            y = X[int(rng.integers(n))].copy()
            out = []
            for j, (p, e) in enumerate(pr.items()):
                if len(e) > 3:
                    lo, hi = float(e[1]), float(e[2])
                    if rng.random() < .5:
                        y[j] = rng.choice([lo - .3, hi + .4, lo, hi, .5 * (lo + hi)])
                    if not lo <= y[j] <= hi:
                        out.append(p)
            for arg in ((y,), (list(y),)):
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    m.box_check(*arg)
                said = re.findall(r"Parameter (\S+) of", buf.getvalue())
                mon.check(said == out, "box_check names other parameters than those outside of the bounds", said=said,
                          outside=out, par=y, **what)
            mon.saw("bounds")
        # sampling again after preparation: the same prior
        k = 6 if dynare else n
        Z = np.asarray(m.prior_sampler(k, try_parameter=False, seed=seed, **kw))
        mon.check(np.array_equal(W, Z), "the sample depends on what was done before", **what)
        mon.case(sig=(i, "likelihood"))
