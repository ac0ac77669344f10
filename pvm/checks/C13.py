"""The nonlinear likelihood is the ensemble filter run on the model's own transition and observation functions."""
import numpy as np
import scipy.linalg as sl
from ..harness import *
from .C12 import logprior, draw_data

CASES = {"quick": 30, "thorough": 600}
RULE = ("a case is one model with data in which the bound binds now and then; an evaluation is one likelihood (reduced "
        "or full form, with or without given initial covariance, after other evaluations, under another state of the "
        "random number generator) compared with the ensemble filter of econsieve wired up independently: transition "
        "and observations from single public calls, covariances from the text of the model and from the linear law; "
        "non-trivial: the bound binds for some member of the ensemble")
ASSUMES = ["the ensemble filter of econsieve is what it is (a dependency)"]
MIN = {"likelihoods": 30, "binding": 40, "full form": 10, "reduced form": 10, "repeated": 30, "posterior": 20,
       "initial covariance": 10, "linear limit": 2}


def law(m):
    """linear transition by asking for it"""
    nx, ne = len(m.vv), len(m.shocks)
    z, ze = np.zeros(nx), np.zeros(ne)
    F = np.array([m.t_func(e, ze, linear=True, return_flag=False) for e in np.eye(nx)]).T
    E = np.array([m.t_func(z, e, linear=True, return_flag=False) for e in np.eye(ne)]).T
    return F, E


def own(mon, m, tm, R, Z, N, reduced, dim, Rm, P0=None):
    """the likelihood, wired independently"""
    from econsieve import TEnKF
    F, E = law(m)
    sig = np.diag(tm.stds(R.par) ** 2)
    V = sl.solve_discrete_lyapunov(F, E @ sig @ E.T)
    nx = len(m.vv)
    f = TEnKF(N=N, dim_x=dim, dim_z=Z.shape[1])
    f.Q, f.R = sig, Rm
    bind = [0, 0]

    def fx(x, e):
        st = np.zeros(nx)
        st[nx - dim:] = x
        new, (l, k), flag = m.t_func(st, e, return_k=True)
        bind[k > 0] += 1
        if reduced:
            return (new[nx - dim:], np.asarray(m.obs(new), float)), flag
        return new, flag
    f.t_func = fx
    f.o_func = None if reduced else (lambda X: np.array([np.asarray(m.obs(x), float) for x in X]))
    f.P = V[nx - dim:, nx - dim:] if P0 is None else P0
    ll = f.batch_filter(Z, calc_ll=True)
    mon.saw("binding", bind[1])
    mon.saw("slack", bind[0])
    return -np.inf if np.isnan(ll) else ll, bind[1], V


def case(mon, rng, i):
    c = square_case(mon, rng, features={"no_chain", "xbar_par"} if i % 5 == 0 else ())
    m, tm = c.mod, c.tm
    T = int(rng.integers(3, 14))
    d = simulate_obs(c, rng, T, scale=float(rng.choice([1., 2.])), linear=rng.random() < .3)
    if d.isna().any().any() or d.abs().to_numpy().max() > 50:
        d = draw_data(rng, c, T)
    Z = d.to_numpy()
    m.load_data(d)
    N = int(rng.integers(8, 30))
    reduced = bool(rng.random() < .5)
    l, k = (3, 16) if rng.random() < .5 else (int(rng.integers(2, 4)), int(rng.integers(3, 12)))
    m.prep_estim(N=N, seed=int(rng.integers(99)), ncores=0, verbose=False, reduced_form=reduced, l_max=l, k_max=k,
                 **({} if rng.random() < .5 else dict(linear=False)))
    Rm = np.diag((d.std().to_numpy() + .05) ** 2 * float(rng.choice([.04, .1])))
    m.filter.R = Rm
    prior = {str(a): b for a, b in m.prior.items()}
    est = list(prior)
    nx = len(m.vv)
    names = None
    for rep in range(2):
        try:
            v = gen.perturb(rng, tm)
            R = Reference(tm, v)
            R._table(l + 1, k)
        except (Indeterminate, Unstable, IllConditioned):
            continue
        m.set_par(v)
        nx = len(m.vv)
        if not reduced and m.filter.dim_x != nx:
            continue                       # another ordering; the filter was made for the old one
        names = [str(x) for x in m.vv]
        if reduced:
            F, _ = law(m)
            dim = m.filter.dim_x
            if np.abs(F[:, :nx - dim]).max() > 1e-12:
                continue
        else:
            dim = nx
        want, nb, V = own(mon, m, tm, R, Z, N, reduced, dim, Rm)
        np.random.seed(int(rng.integers(1e6)))
        got = m.get_ll()
        mon.close_to(got, want, "the likelihood is not that of the ensemble filter on the model", tol=1e-5, T=T, N=N,
                     reduced=reduced, par=v, model=c.text)
        mon.saw("likelihoods")
        mon.saw("reduced form" if reduced else "full form")
        mon.case(sig=(c.text, rep, reduced) if nb else None, sample=dict(T=T, N=N, reduced=reduced, ll=float(got)))
        np.random.seed(int(rng.integers(1e6)))
        mon.close_to(m.get_ll(), got, "the likelihood changes when asked again", tol=1e-12)
        mon.saw("repeated")
        # another distribution of the first state
        B = rng.standard_normal((dim, dim)) * .2
        P0 = B @ B.T
        want, nb, _ = own(mon, m, tm, R, Z, N, reduced, dim, Rm, P0)
        got2 = m.run_filter(smoother=False, get_ll=True, init_cov=P0)
        mon.close_to(got2, want, "the likelihood given an initial covariance is another", tol=1e-5, reduced=reduced,
                     model=c.text)
        mon.saw("initial covariance")
        mon.case(sig=(c.text, rep, reduced, "P0") if nb else None)
        mon.close_to(m.get_ll(), got, "the likelihood changes after a run with an initial covariance", tol=1e-12)
    # posterior
    for rep in range(2):
        if rep:                            # other data of the same size
            Z = Z[::-1].copy()
            m.load_data(d.iloc[::-1].set_index(d.index))
        v = gen.perturb(rng, tm)
        cal = dict(zip(tm.parameters, tm.calib))
        x = [v[tm.parameters.index(p)] for p in est]
        cal.update(dict(zip(est, x)))
        try:
            R = Reference(tm, [cal[p] for p in tm.parameters])
            R._table(l + 1, k)
        except (Indeterminate, Unstable, IllConditioned):
            continue
        lp = logprior(prior, x)
        got = m.lprob(np.array(x))
        if not np.isfinite(lp):
            mon.check(got == lp, "posterior outside the support of the prior", got=got)
            continue
        if [str(q) for q in m.vv] != names or (not reduced and m.filter.dim_x != len(m.vv)):
            continue
        dim = m.filter.dim_x
        want = own(mon, m, tm, R, Z, N, reduced, dim, Rm)[0] + lp
        mon.close_to(got, want, "the posterior is not prior times likelihood", tol=1e-5, model=c.text, par=cal)
        mon.saw("posterior")
        mon.case(sig=(c.text, "posterior", rep))
    # far from the bound, a large ensemble approaches the linear likelihood
    if i % 5 == 0 and "x_bar" not in tm.parafunc and "x_bar" in tm.parameters:
        cal = dict(zip(tm.parameters, tm.calib))
        cal["x_bar"] = -60.
        v = [cal[p] for p in tm.parameters]
        big = read(c.path)
        big.set_par(v, l_max=2, k_max=2)
        big.load_data(d)
        lin = read(c.path)
        lin.set_par(v)
        lin.load_data(d)
        out = []
        for q, kw in ((big, dict(N=1500, l_max=2, k_max=2)), (lin, dict(linear=True))):
            q.prep_estim(ncores=0, verbose=False, dry_run=False, **kw)
            q.filter.R = Rm
            q.set_par(v)
            out.append(q.get_ll())
        if abs(out[1]) > 20 * Z.size:
            return                         # data far out in the tails (the bound enters what is observed)
        mon.close_to(out[0], out[1], "the ensemble likelihood is far from the linear one although the bound is too",
                     tol=.1, scale=abs(out[1]) + 10, model=c.text)
        mon.saw("linear limit")
