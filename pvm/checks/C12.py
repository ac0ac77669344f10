"""The linear likelihood and the linear smoother are those of the Gaussian state space the model implies."""
import numpy as np
from ..harness import *

CASES = {"quick": 42, "thorough": 1000}
RULE = ("a case is one model with data (from the model, from elsewhere, short, shifted), measurement error and "
        "parameter vectors; an evaluation is one likelihood, filtered or smoothed path, compared with the joint normal "
        "distribution of all observations written out densely from the reference solution; non-trivial: parameters "
        "away from the calibration, or an initial covariance given")
ASSUMES = ["models with as many observables as shocks (others are refused by the package)",
           "histories whose covariance has condition number below 1e9"]
MIN = {"other data": 20, "as many variables as shocks": 3, "likelihoods": 60, "smoothed": 60, "filtered": 60, "initial covariance": 20, "refused": 5,
       "posterior": 60, "observation covariance": 20, "shocks between states": 20}


class Dense:
    """joint normal of x_1..x_T and z_1..z_T, x_0 ~ N(0, S0)"""

    def __init__(self, R, T, Rm, S0=None):
        P, Q, Sig = R.P, R.Q, R.sig()
        H, c = R.obs()
        n, self.T = R.n, T
        W = Q @ Sig @ Q.T
        S0 = R.stationary() if S0 is None else S0
        V = [P @ S0 @ P.T + W]
        for t in range(1, T):
            V.append(P @ V[-1] @ P.T + W)
        C = np.zeros((T * n, T * n))
        for s in range(T):
            M = V[s]
            for t in range(s, T):
                C[t * n:(t + 1) * n, s * n:(s + 1) * n] = M
                C[s * n:(s + 1) * n, t * n:(t + 1) * n] = M.T
                M = P @ M
        HH = np.kron(np.eye(T), H)
        self.Cxz = C @ HH.T
        self.Czz = HH @ self.Cxz + np.kron(np.eye(T), Rm)
        self.C, self.c, self.n, self.nz = C, c, n, len(c)
        self.V0, self.mats = V[0], (P, W, H, Rm)

    def cond(self):
        return np.linalg.cond(self.Czz)

    def slack(self):
        """loss of accuracy of a smoother that inverts the covariances of the predictions: the least relative size of
        a direction that is not exactly fixed"""
        P, W, H, Rm = self.mats
        V, gap = self.V0, 1.
        for t in range(self.T):
            w = np.abs(np.linalg.eigvalsh(V))
            w = w / w.max()
            gap = min(gap, w[w > 3e-15].min())
            V = V - V @ H.T @ np.linalg.solve(H @ V @ H.T + Rm, H @ V)
            V = P @ V @ P.T + W
            V = (V + V.T) / 2
        return np.inf if gap < 1e-10 else 1e-12 / gap

    def ll(self, Z):
        d = (Z - self.c).ravel()
        L = np.linalg.cholesky(self.Czz)
        u = np.linalg.solve(L, d)
        return -.5 * (u @ u) - np.log(np.diag(L)).sum() - .5 * len(d) * np.log(2 * np.pi)

    def smooth(self, Z):
        d = (Z - self.c).ravel()
        K = np.linalg.solve(self.Czz, self.Cxz.T).T
        m = (K @ d).reshape(self.T, self.n)
        V = self.C - K @ self.Cxz.T
        n = self.n
        return m, np.array([V[t * n:(t + 1) * n, t * n:(t + 1) * n] for t in range(self.T)])

    def filt(self, Z, t):
        """mean and covariance of x_t given z_1..z_t"""
        n, a = self.n, (t + 1) * self.nz
        d = (Z - self.c).ravel()[:a]
        Cx = self.Cxz[t * n:(t + 1) * n, :a]
        K = np.linalg.solve(self.Czz[:a, :a], Cx.T).T
        return K @ d, self.C[t * n:(t + 1) * n, t * n:(t + 1) * n] - K @ Cx.T


def draw_data(rng, c, T):
    d = simulate_obs(c, rng, T)
    k = rng.random()
    if k < .25:
        d = d + rng.standard_normal(d.shape) * d.std().to_numpy()
    elif k < .35:
        d = d * 0 + .3
    elif k < .5:
        d = d + rng.uniform(-2, 2)
    return d


def logprior(prior, x):
    """the prior written out again"""
    import scipy.stats as ss
    from scipy.special import gammaln
    out = 0.
    for (nm, d), v in zip(prior.items(), x):
        ty, a, b = list(d)[-3:]
        if ty == "uniform":
            out += np.log(1 / (b - a)) if a <= v <= b else -np.inf
        elif ty == "normal":
            out += ss.norm.logpdf(v, a, b)
        elif ty == "gamma":
            out += ss.gamma.logpdf(v, a * a / b ** 2, scale=b ** 2 / a)
        elif ty == "beta":
            q = (1 - a) * a ** 2 / b ** 2 - a
            out += ss.beta.logpdf(v, q, q * (1 / a - 1))
        elif ty == "inv_gamma_dynare":
            # std deviation with mean a and std b: square root of an inverted gamma
            import scipy.optimize as so

            def f(nu):
                return (np.log(2 * a * a) - np.log((b * b + a * a) * (nu - 2))
                        + 2 * (gammaln(nu / 2) - gammaln((nu - 1) / 2)))
            nu = so.brentq(f, 2 + 1e-9, 1e6, xtol=1e-13, rtol=1e-14)
            s = (b * b + a * a) * (nu - 2)
            if v <= 0:
                return -np.inf
            out += np.log(2) - gammaln(nu / 2) - nu / 2 * np.log(2 / s) - (nu + 1) * np.log(v) - .5 * s / v ** 2
        else:
            raise NotImplementedError(ty)
    return out


def case(mon, rng, i):
    c = square_case(mon, rng, features=({"all_priors"} if rng.random() < .5 else set()) | ({"bare"} if i % 7 == 3 else set()))
    if len(c.mod.vv) == len(c.tm.shocks):
        mon.saw("as many variables as shocks")
    m, tm = c.mod, c.tm
    T = int(rng.integers(3, 26))
    d = draw_data(rng, c, T)
    Z = d.to_numpy()
    # columns in any order, others in between
    dd = d.copy()
    dd.insert(int(rng.integers(len(d.columns))), "other", 7.)
    m.load_data(dd[[dd.columns[j] for j in rng.permutation(len(dd.columns))]])
    m.prep_estim(linear=True, ncores=0, verbose=False, seed=int(rng.integers(9)))
    sc = float(rng.choice([.05, .1, .3]))
    Rm = np.asarray(m.create_obs_cov(sc), float)
    mon.close_to(Rm, np.diag(np.var(Z, axis=0) * sc ** 2), "covariance of observation errors", tol=1e-12)
    mon.saw("observation covariance")
    if np.diag(Rm).min() <= 1e-6 or rng.random() < .3:
        A = rng.standard_normal((len(tm.obs), len(tm.obs))) * .1
        Rm = A @ A.T + .01 * np.eye(len(A))
    m.filter.R = Rm
    prior = {str(k): v for k, v in m.prior.items()}
    est = list(prior)

    def values(R0=None):
        for _ in range(10):
            v = gen.perturb(rng, tm)
            try:
                R = Reference(tm, v)
            except (Indeterminate, Unstable, IllConditioned):
                continue
            D = Dense(R, T, Rm)
            if D.cond() < 1e9:
                return v, R, D
        raise IllConditioned("no parameters")

    for rep in range(3):
        v, R, D = values()
        m.set_par(v)
        c.R = R
        c.sync()
        mi, ri = c.mi, c.ri
        want = D.ll(Z)
        S0 = None
        if rep == 2:
            # another distribution of the first state, in terms of the model's variables
            B = rng.standard_normal((len(m.vv), len(m.vv))) * .3
            S0m = B @ B.T
            full_map = len(mi) == R.n == len(m.vv)
            if full_map:
                S0 = np.zeros((R.n, R.n))
                S0[np.ix_(ri, ri)] = S0m[np.ix_(mi, mi)]
                # only what is carried over matters
                D = Dense(R, T, Rm, S0)
                if D.cond() > 1e9:
                    continue
                want = D.ll(Z)
                mon.saw("initial covariance")
                ll = m.run_filter(smoother=False, get_ll=True, init_cov=S0m)
                mine = S0m
            else:
                # any variable may carry information; start from the stationary one, given explicitly
                S = R.stationary()
                V0 = m.get_p_init_lyapunov(np.asarray(R.sig()))
                mon.close_to(V0[np.ix_(mi, mi)], S[np.ix_(ri, ri)], "stationary covariance", tol=1e-6, model=c.text)
                ll = m.run_filter(smoother=False, get_ll=True, init_cov=V0)
                mine = V0
                mon.saw("initial covariance")
            # given for one call it holds for one call
            mon.close_to(m.get_ll(), Dense(R, T, Rm).ll(Z), "a covariance that was given for one call stays",
                         tol=1e-6 * max(1, Dense(R, T, Rm).cond() * 1e-6), model=c.text)
            m.filter.init_cov = mine
        else:
            ll = m.get_ll()
        tol = 1e-6 * max(1, D.cond() * 1e-6)
        mon.close_to(ll, want, "the likelihood is not that of the model's normal distribution", tol=tol, par=v, T=T,
                     model=c.text)
        mon.saw("likelihoods")
        mon.case(sig=(c.text, rep), sample=dict(T=T, ll=float(ll)))
        mon.close_to(m.run_filter(smoother=False, get_ll=True), ll, "the likelihood changes when asked again", tol=1e-10)
        me, cv = m.run_filter(smoother=False)
        me = np.asarray(me).reshape(T, -1)
        t = int(rng.integers(T))
        w, W = D.filt(Z, t)
        tl = 1e-5 * max(1, D.cond() * 1e-6)
        mon.close_to(me[t][mi], w[ri], "filtered states are not the conditional expectation", tol=tl, period=t,
                     model=c.text, names=c.names)
        mon.close_to(cv[t][np.ix_(mi, mi)], W[np.ix_(ri, ri)], "covariance of filtered states", tol=tl, period=t)
        mon.saw("filtered")
        me, cv = m.run_filter(smoother=True)
        me = np.asarray(me).reshape(T, -1)
        w, W = D.smooth(Z)
        tl = max(tl, D.slack())
        mon.close_to(me[:, mi], w[:, ri], "smoothed states are not the conditional expectation", tol=tl, model=c.text,
                     names=c.names)
        mon.saw("smoothed")
        # the shocks between two states
        if len(R.sig()) and np.linalg.matrix_rank(R.Q, tol=1e-4 * np.abs(R.Q).max()) == R.Q.shape[1]:
            xp = rng.standard_normal(len(m.vv))
            e = rng.standard_normal(len(m.shocks))
            x = np.asarray(m.t_func(xp, e, linear=True)[0])
            mon.close_to(m.get_eps_lin(x, xp), e, "shocks between two states are not those that lead from one to the other",
                         tol=1e-6, model=c.text)
            mon.saw("shocks between states")
        mon.case(sig=(c.text, rep, "smooth"))
        m.filter.init_cov = None
    # the posterior at parameters of the prior
    m.filter.init_cov = None
    for rep in range(4):
        if rep == 2:                       # other data of the same size
            Z = draw_data(rng, c, T)
            m.load_data(Z)
            Z = Z.to_numpy()
            mon.saw("other data")
        v, R, D = values()
        cal = dict(zip(tm.parameters, tm.calib))
        x = [v[tm.parameters.index(p)] for p in est]
        cal.update(dict(zip(est, x)))
        try:
            R = Reference(tm, [cal[p] for p in tm.parameters])
        except (Indeterminate, Unstable, IllConditioned):
            continue
        D = Dense(R, T, Rm)
        if D.cond() > 1e9:
            continue
        got = m.lprob(np.array(x))
        lp = logprior(prior, x)
        want = lp + D.ll(Z) if np.isfinite(lp) else lp
        mon.close_to(got, want, "the posterior is not prior times likelihood", tol=1e-6 * max(1, D.cond() * 1e-6),
                     par=cal, model=c.text)
        mon.saw("posterior")
        mon.case(sig=(c.text, "posterior", rep))
    # what cannot be filtered is refused
    if i % 3 == 0:
        s = draw_case(mon, rng, {"cost_push"}, nobs=len(tm.shocks) + 1)
        if len(s.tm.observables) == len(s.tm.shocks):
            return
        s.mod.load_data(simulate_obs(s, rng, 8))
        try:
            s.mod.prep_estim(linear=True, ncores=0, verbose=False)
        except NotImplementedError:
            mon.saw("refused")
        else:
            mon.fail("a model with another number of observables than shocks is filtered")
