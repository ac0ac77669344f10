"""Questions change neither the model nor what they are given, and answers belong to the caller."""
import copy
import numpy as np
import pandas as pd
from ..harness import *

CASES = {"quick": 10, "thorough": 500}
WARM = True
RULE = ("a case is one model with data, a filter, extracted shocks and a short chain; an evaluation is one call: its "
        "arguments are compared with copies made before, the answers of the model to a fixed list of questions are "
        "compared with those before the call once everything that was handed in and handed back is overwritten; non-trivial: the call was given or gave back something that can be "
        "overwritten")
ASSUMES = ["chains are handed out by emcee, which gives access to its storage: only transformed chains are overwritten",
           "the posterior, the filter and samplers leave their last parameters in the model; only arguments are compared"]
MIN = {"calls": 500, "answers overwritten": 350, "arguments overwritten": 500, "kinds": 30, "nonlinear": 3, "linear": 3}


def same(a, b):
    if isinstance(b, (pd.DataFrame, pd.Series)):
        return type(a) is type(b) and a.equals(b) and list(a.index) == list(b.index) and \
            (not isinstance(b, pd.DataFrame) or list(a.columns) == list(b.columns))
    if isinstance(b, np.ndarray):
        if not isinstance(a, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, float) and isinstance(a, float) and np.isnan(b):
        return np.isnan(a)
    return type(a) is type(b) and bool(a == b)


def overwrite(x):
    """write over everything that can be written to; how many such things there were"""
    n = 0
    if isinstance(x, pd.DataFrame):
        for c in range(x.shape[1]):
            try:
                x.iloc[:, c] = x.iloc[:, c].to_numpy() * 0 + 7
            except (TypeError, ValueError):
                pass
        return 1
    if isinstance(x, pd.Series):
        x.iloc[:] = 7.
        return 1
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return sum(overwrite(y) for y in x.ravel())
        if not x.flags.writeable:
            return 0
        if x.dtype.kind in "fiu":
            x[...] = 7
        return 1
    if isinstance(x, dict):
        n = sum(overwrite(y) for y in x.values())
        x.clear()
        return n + 1
    if isinstance(x, list):
        n = sum(overwrite(y) for y in x)
        for j in range(len(x)):
            if isinstance(x[j], (float, int, np.floating)):
                x[j] = 7.
        x.append(7)
        return n + 1
    if isinstance(x, tuple):
        return sum(overwrite(y) for y in x)
    return 0


def grab(x):
    """a copy"""
    if isinstance(x, (tuple, list)) and not isinstance(x, str):
        return type(x)(grab(y) for y in x) if type(x) in (tuple, list) else copy.deepcopy(x)
    return copy.deepcopy(x)


class Asker:
    def __init__(self, mon, m, fixed, what):
        self.mon, self.m, self.fixed, self.what = mon, m, fixed, what
        self.kinds = set()
        self.before = self.probe()

    def probe(self):
        m, f = self.m, self.fixed
        d = dict(par=np.array(m.get_par(), float), cov=np.array(m.get_cov(), float),
                 names=[[str(x) for x in m.parameters], [str(x) for x in m.shocks], [str(x) for x in m.observables],
                        [str(x) for x in m.vv]],
                 prior={str(k): [str(z) for z in v] for k, v in m.prior.items()},
                 data=m.data.to_numpy().copy(), index=[str(t) for t in m.data.index],
                 irfs=m.irfs(copy.deepcopy(f["shocks"]), T=6, verbose=False)[0].to_numpy().copy(),
                 step=np.array(m.t_func(f["x"].copy(), f["e"].copy(), return_flag=False)),
                 lin=np.array(m.t_func(f["x"].copy(), f["e"].copy(), return_flag=False, linear=True)),
                 obs=np.array(m.obs(f["x"].copy()), float))
        for s in ("calib", "prior_mean", "init", "mode", "best"):
            d[s] = np.array(m.get_par(s), float)
        if f.get("ll"):
            d["ll"] = m.get_ll()
            d["R"] = np.array(m.filter.R)
        return d

    def compare(self, name, when):
        now = self.probe()
        for k, v in self.before.items():
            if isinstance(v, (np.ndarray, float)):
                self.mon.close_to(now[k], v, "%s: the model answers otherwise %s" % (name, when), tol=1e-10, question=k,
                                  **self.what)
            else:
                self.mon.check(now[k] == v, "%s: the model answers otherwise %s" % (name, when), question=k, got=now[k],
                               want=v, **self.what)

    def __call__(self, name, f, *args, keep=True, own=True, heavy=True, **kw):
        """keep: the call is a question; own: its answer belongs to the caller"""
        a0, k0 = grab(args), grab(kw)
        res = f(*args, **kw)
        self.mon.saw("calls")
        if name not in self.kinds:
            self.kinds.add(name)
            self.mon.saw("kinds")
        for j, (x, y) in enumerate(zip(args, a0)):
            self.mon.check(same(x, y), "%s changes its argument" % name, argument=j, got=x, want=y, **self.what)
        for j in k0:
            self.mon.check(same(kw[j], k0[j]), "%s changes its argument" % name, argument=j, got=kw[j], want=k0[j],
                           **self.what)
        out = grab(res) if own else res
        n = overwrite(res) if own and keep else 0
        self.mon.saw("answers overwritten", int(n > 0))
        k = overwrite(args) + overwrite(kw)
        self.mon.saw("arguments overwritten", int(k > 0))
        n += k
        if keep:
            self.compare(name, "after the call and when what was given and returned is overwritten")
        self.mon.case(sig=(self.what["case_no"], name, self.mon_n()) if n else None)
        return out

    def mon_n(self):
        self._n = getattr(self, "_n", 0) + 1
        return self._n


def case(mon, rng, i):
    linear = bool(i % 2)
    trans = bool(rng.random() < .5)
    c = square_case(mon, rng, features={"no_zeros"})
    m, tm = c.mod, c.tm
    T = int(rng.integers(5, 10))
    d = simulate_obs(c, rng, T)
    if not np.isfinite(d.to_numpy()).all() or d.std().min() < 1e-3:
        raise IllConditioned("data")
    frame = d.copy()
    m.load_data(frame)
    frame.iloc[:, :] = 7.
    mon.check(m.data.equals(d), "overwriting the data frame changes the data of the model")
    m.prep_estim(linear=linear, N=12, seed=3, ncores=0, verbose=False, dry_run=False, use_prior_transform=trans,
                 reduced_form=bool(rng.random() < .6))
    m.filter.R = np.diag((d.std().to_numpy() + .05) ** 2 * .05)
    mon.saw("linear" if linear else "nonlinear")
    est = [str(p) for p in m.prior]
    nd, nx, ne = len(est), len(m.vv), len(tm.shocks)
    # a chain
    P0 = []
    for _ in range(60 * nd):
        if len(P0) == 2 * nd + 2:
            break
        v = dict(zip(tm.parameters, gen.perturb(rng, tm)))
        x = [v[p] for p in est]
        if np.isfinite(m.lprob(x, use_prior_transform=False)):
            P0.append(x)
    if len(P0) < 2 * nd + 2:
        raise IllConditioned("no initial states")
    P0 = np.array(P0)
    keep = P0.copy()
    from .C16 import go
    go(mon, m, p0=P0, nsteps=4, tune=2, seed=1, backend=False, verbose=False)
    mon.check(np.array_equal(P0, keep), "mcmc changes the initial states it is given")
    # parameters that work
    vs = []
    for _ in range(30):
        v = gen.perturb(rng, tm)
        try:
            Reference(tm, v)._table(4, 16)
        except (Indeterminate, Unstable, IllConditioned):
            continue
        m.set_par(v)
        names = [str(q) for q in m.vv]
        if not vs or names == vs[0][1]:
            vs.append((v, names))
        if len(vs) == 4:
            break
    if len(vs) < 4:
        raise IllConditioned("no parameters")
    V = np.array([v for v, _ in vs])
    m.set_par(V[0], l_max=3, k_max=16)
    sd = tm.stds(tm.full_par(list(V[0])))
    fixed = dict(shocks=[(tm.shocks[0], float(-3 * sd[0]), 0), (tm.shocks[-1], float(2 * sd[-1]), 1)],
                 x=rng.standard_normal(nx) * .3, e=rng.standard_normal(ne) * sd * 2, ll=True)
    ask = Asker(mon, m, fixed, dict(case_no=i, linear=linear, trans=trans))

    def st():
        return rng.standard_normal(nx) * .3

    def sh():
        return rng.standard_normal(ne) * sd * 2
    ask("set_par", m.set_par, V[0].copy())
    ask("set_par", m.set_par, list(V[0]))
    # transitions
    ask("t_func", m.t_func, st(), sh(), return_k=True)
    ask("t_func", m.t_func, st(), sh(), linear=True)
    ask("t_func", m.t_func, st(), sh(), set_k=(1, 2))
    ask("t_func", m.t_func, st(), sh(), get_obs=True)
    ask("t_func", m.t_func, st())
    # responses
    s0, s1 = tm.shocks[0], tm.shocks[-1]
    ask("irfs", m.irfs, [[s0, float(sd[0])], [s1, float(-3 * sd[-1]), 2]], T=5, verbose=False)
    ask("irfs", m.irfs, [(s0, float(sd[0])), s1], T=5, verbose=False)
    ask("irfs", m.irfs, [[s0, 1.5]], T=5, state=st(), verbose=False)
    ask("irfs", m.irfs, [[s0, 1.5, 1]], V[1].copy(), T=4, verbose=False)
    ask("irfs", m.irfs, [[s0, 1.5]], V[1:3].copy(), T=4, verbose=False)
    ask("irfs", m.irfs, [[s0, 1.5]], [list(v) for v in V[1:3]], T=4, linear=True, verbose=False)
    # simulations
    eps = rng.standard_normal((2, 5, ne)) * sd
    ini = rng.standard_normal((2, nx)) * .1
    ask("simulate", m.simulate, dict(pars=V[1:3].copy(), resid=eps.copy(), init=ini.copy()))
    ask("simulate", m.simulate, None, pars=V[:1].copy(), resid=eps[:1].copy(), init=ini[:1].copy(), linear=True)
    mk = np.full((5, ne), np.nan)
    mk[:, 0] = 0.
    ask("simulate", m.simulate, dict(pars=V[1:3].copy(), resid=eps.copy(), init=ini.copy()), mask=mk)
    # observables
    ask("obs", m.obs, st())
    X = rng.standard_normal((4, nx)) * .3
    ask("obs", m.obs, X.copy())
    ask("obs", m.obs, np.stack((X, X)), pars=V[1:3].copy())
    B = rng.standard_normal((4, nx, nx)) * .1
    ask("obs", m.obs, X.copy(), covs=B @ B.transpose(0, 2, 1))
    # parameters
    for w in ("calib", "prior_mean", "adj_prior_mean", "init", "mode", "best", "post_mean"):
        for full in (True, False):
            ask("get_par %s" % w, m.get_par, w, full=full)
            ask("get_par dict", m.get_par, w, full=full, asdict=True)
    ask("get_par", m.get_par)
    ask("get_par", m.get_par, full=False)
    ask("get_par", m.get_par, npar=V[1].copy())
    ask("get_par", m.get_par, npar=list(V[1]), asdict=True)
    ask("get_par", m.get_par, tm.parameters[0], npar=V[1].copy())
    ask("get_par vector", m.get_par, V[0].copy())
    ask("get_par posterior", m.get_par, "posterior", nsamples=3)
    ask("get_par many", m.get_par, "best", full=False, nsamples=3)
    ask("get_cov", m.get_cov)
    ask("get_cov", m.get_cov, npar=V[1].copy())
    ask("set_par on the side", m.set_par, est[0], .4, npar=V[1].copy())
    # the constraint
    ask("traj", m.traj, m.shock2state((s0, float(-3 * sd[0]))), verbose=False)
    ask("k_map", m.k_map, m.shock2state((s0, float(-3 * sd[0]))), k=2, verbose=False)
    ask("shock2state", m.shock2state, [s0, 1.])
    # data and filter
    ask("mask", lambda: m.mask)
    ask("obs cov", m.create_obs_cov, .1)
    ask("stationary covariance", m.get_p_init_lyapunov, np.diag(sd ** 2))
    # what is stored
    ask("vix", m.vix, [str(m.vv[0]), str(m.vv[1])])
    ask("oix", m.oix, [str(m.observables[-1])])
    ask("info", m.info, verbose=False)
    ask("get_chain", m.get_chain, own=trans)
    ask("get_log_prob", m.get_log_prob, own=False)
    ask("get_sample", m.get_sample, 3)
    ch = np.array(m.get_chain())
    ask("get_sample of a chain", m.get_sample, 3, chain=ch.copy())
    ask("mdd", m.mdd, chain=ch.reshape(-1, nd).copy(), lprobs=np.array(m.get_log_prob()).ravel(), own=False)
    ask("box_check", m.box_check, list(ch[0, 0]), own=False)
    ask("lprior", m.lprior, ch[0, 0].copy(), own=False)
    rd = dict(a=np.arange(3.), b=[1, 2], c={"x": np.ones(2)})
    ask("save_rdict", m.save_rdict, rd, path=mon.path("r%d" % i), verbose=False)
    # extraction and what it is used for
    seed = int(rng.integers(99))
    P = V[1:3].copy()
    try:
        ex = ask("extract", m.extract, P, seed=seed, verbose=False)
    except ValueError as err:
        if "infs only" not in str(err):
            raise
        mon.saw("refused")
        ex = None
    if ex is not None:
        if linear:
            ask("extract", m.extract, seed=seed, verbose=False)
            A = rng.standard_normal((nx, nx)) * .3
            ask("extract", m.extract, seed=seed, init_cov=A @ A.T, verbose=False)
        ask("simulate extracted", m.simulate, grab(ex), linear=linear)
        ask("simulate extracted", m.simulate, grab(ex), mask=m.mask, linear=linear)
        ask("nhd", m.nhd, grab(ex), linear=linear)
        ask("gfevd", m.gfevd, grab(ex), horizon=2, nsamples=3, linear=linear, verbose=False)
    # not questions, but they leave their arguments alone
    x = ch[0, 0].copy()
    ask("lprob", m.lprob, x.copy(), use_prior_transform=False, keep=False)
    ask("lprob", m.lprob, list(x), use_prior_transform=False, keep=False)
    for f in (V[1].copy(), list(V[1])):
        got = ask("lprob", m.lprob, x.copy(), par_fix=f, use_prior_transform=False, keep=False)
    mon.check(not np.isnan(got), "posterior at other fixed parameters", got=got)
    m.set_par(V[0], l_max=3, k_max=16)
    if linear or not getattr(m.filter, "reduced_form", False):
        A = rng.standard_normal((nx, nx)) * .3
        ask("run_filter", m.run_filter, init_cov=A @ A.T, smoother=bool(rng.random() < .5))
        ask.compare("everything", "in the end")
