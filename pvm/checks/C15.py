"""The posterior density is a pure function of the parameters it is asked for."""
import warnings
import numpy as np
from ..harness import *
from .C12 import Dense, logprior

CASES = {"quick": 30, "thorough": 600}
RULE = ("a case is a history over two models prepared for estimation, one linear and one nonlinear: evaluations at "
        "known points in random order, tempered, in the sampler's space, at hostile points (outside the support, "
        "without solution, not finite), between sets, failing sets, impulse responses and draws; an evaluation is one "
        "call of the posterior; oracle: prior written out again plus dense normal likelihood (linear) or the value at "
        "a model that was just prepared (nonlinear); the random number generator, the warning filters and the "
        "arguments are compared before and after; non-trivial: evaluations after other operations")
MIN = {"evaluations": 200, "linear": 100, "nonlinear": 100, "tempered": 30, "sampler space": 30, "hostile": 35,
       "no solution": 15, "outside the support": 8, "between": 80, "history compared": 90, "prior only": 4}


class Sub:
    def __init__(self, mon, rng, linear):
        self.mon, self.linear = mon, linear
        c = square_case(mon, rng, features={"no_zeros"} | ({"all_priors"} if rng.random() < .5 else set()))
        self.c, tm = c, c.tm
        T = int(rng.integers(3, 10))
        self.d = simulate_obs(c, rng, T, scale=1.5, linear=linear)
        if not np.isfinite(self.d.to_numpy()).all() or self.d.abs().to_numpy().max() > 50:
            self.d = simulate_obs(c, rng, T)
        self.Rm = np.diag((self.d.std().to_numpy() + .05) ** 2 * .05)
        self.N = int(rng.integers(6, 16))
        self.m = self.make(c.path)
        self.prior = {str(a): b for a, b in self.m.prior.items()}
        self.est = list(self.prior)
        self.bank = []
        fresh = self.make(c.path, nocache=True) if not linear else None
        for _ in range(12):
            if len(self.bank) == 4:
                break
            v = gen.perturb(rng, tm)
            x = np.array([v[tm.parameters.index(p)] for p in self.est])
            cal = dict(zip(tm.parameters, tm.calib))
            cal.update(zip(self.est, x))
            lp = logprior(self.prior, x)
            try:
                R = Reference(tm, [cal[p] for p in tm.parameters])
            except (Indeterminate, Unstable, IllConditioned):
                continue
            if not np.isfinite(lp):
                continue
            if linear:
                D = Dense(R, T, self.Rm)
                if D.cond() > 1e8:
                    continue
                self.bank.append((x, lp, D.ll(self.d.to_numpy())))
            else:
                f = fresh.lprob(x)
                if np.isfinite(f):
                    self.bank.append((x, lp, f - lp))
        if not self.bank:
            raise IllConditioned("no points")
        # points without solution
        self.bad = []
        x = self.bank[0][0].copy()
        if "phi_pi" in self.est:
            y = x.copy()
            y[self.est.index("phi_pi")] = .2
            if "phi_y" in self.est:
                y[self.est.index("phi_y")] = 1e-3
            cal = dict(zip(tm.parameters, tm.calib))
            cal.update(zip(self.est, y))
            try:
                Reference(tm, [cal[p] for p in tm.parameters])
            except (Indeterminate, Unstable):
                self.bad.append(y)
            except IllConditioned:
                pass

    def make(self, path, **kw):
        m = read(path, **kw)
        m.set_par("calib")
        m.load_data(self.d)
        m.prep_estim(linear=self.linear, N=self.N, seed=3, ncores=0, verbose=False, dry_run=False)
        m.filter.R = self.Rm
        return m

    def call(self, x, **kw):
        """one evaluation under observation"""
        mon = self.mon
        s0 = np.random.get_state()
        f0 = list(warnings.filters)
        k = x.copy()
        got = self.m.lprob(x, **kw)
        s1 = np.random.get_state()
        mon.check(s0[0] == s1[0] and np.array_equal(s0[1], s1[1]) and s0[2:] == s1[2:],
                  "a likelihood moves the random number generator")
        mon.check(list(warnings.filters) == f0, "a likelihood leaves other warning filters")
        mon.check(np.array_equal(x, k, equal_nan=True), "a likelihood changes the parameters it is given")
        mon.check(np.ndim(got) == 0 and not np.isnan(got) and got < np.inf, "the posterior is not a number", got=got,
                  at=x)
        mon.saw("evaluations")
        mon.saw("linear" if self.linear else "nonlinear")
        return got


def inverse(prior, x):
    out = []
    for (p, d), v in zip(prior.items(), x):
        ty = list(d)[-3]
        out.append(np.log(v) if ty in ("gamma", "inv_gamma", "inv_gamma_dynare") else
                   np.log(v / (1 - v)) if ty == "beta" else v)
    return np.array(out)


def case(mon, rng, i):
    subs = [Sub(mon, rng, True), Sub(mon, rng, False)]
    for step in range(22):
        s = subs[int(rng.integers(2))]
        m, c = s.m, s.c
        np.random.seed(int(rng.integers(1e6)))
        k = str(rng.choice(["eval", "temp", "space", "hostile", "nosol", "between"], p=[.35, .1, .1, .12, .08, .25]))
        x, lp, ll = s.bank[int(rng.integers(len(s.bank)))]
        tol = 1e-6 if s.linear else 1e-9
        if k == "eval":
            mon.close_to(s.call(x.copy()), lp + ll, "the posterior at a point depends on what happened before",
                         tol=tol, step=step, model=c.text, linear=s.linear)
            mon.saw("history compared")
        elif k == "temp":
            t = float(rng.choice([.5, .1, .999, 0.]))
            mon.close_to(s.call(x.copy(), temp=t), lp + t * ll, "tempering does not scale the likelihood", tol=tol, temp=t)
            mon.saw("tempered")
            if t == 0:
                mon.saw("prior only")
        elif k == "space":
            y = inverse(s.prior, x)
            mon.close_to(s.call(y, use_prior_transform=True), lp + ll,
                         "the posterior in the sampler's space is another one", tol=max(tol, 1e-7), model=c.text)
            mon.saw("sampler space")
        elif k == "nosol":
            if s.bad:
                y = s.bad[0]
                got = s.call(y.copy())
                mon.check(got == -np.inf, "a point without solution has a density", got=got, model=c.text)
                mon.saw("no solution")
        elif k == "hostile":
            y = x.copy()
            j = int(rng.integers(len(y)))
            y[j] = float(rng.choice([np.inf, -np.inf, 1e9, -1e9, 1e-300, -3.]))
            lph = logprior(s.prior, y) if np.isfinite(y[j]) else np.nan
            got = s.call(y)
            if lph == -np.inf:
                mon.check(got == -np.inf, "a point outside the support has a density", got=got, at=y)
                mon.saw("outside the support")
            mon.saw("hostile")
        else:
            mon.saw("between")
            b = int(rng.integers(9))
            if b == 0:
                try:
                    m.set_par(gen.perturb(rng, c.tm), l_max=int(rng.integers(2, 5)), k_max=int(rng.integers(2, 9)))
                except Exception:
                    pass
            elif b == 1:
                v = list(c.tm.calib)
                for p, w in (("phi_pi", .2), ("phi_y", 0.)):
                    v[c.tm.parameters.index(p)] = w
                try:
                    m.set_par(v)
                except Exception:
                    pass
            elif b == 2:
                try:
                    m.set_par("calib")
                    m.irfs((c.tm.shocks[0], 1., 0), T=5, verbose=False)
                except ValueError:
                    pass
            elif b == 3:
                m.get_par("calib"), m.get_par("prior_mean"), m.get_par(asdict=True)
            elif b == 4:
                m.prior_sampler(2, try_parameter=False, verbose=0)
            elif b == 5:
                m.save(mon.path("x%d" % step), verbose=False)
            elif b == 6:
                q = s.make(c.path)                 # the same model prepared once more
                if rng.random() < .5:
                    q.lprob(x.copy())
            elif b == 7:
                # a filter that cannot say anything
                m.filter.R = np.full_like(s.Rm, np.nan)
                got = s.call(x.copy())
                try:
                    with warnings.catch_warnings(), np.errstate(all="ignore"):
                        warnings.simplefilter("ignore")
                        ll0 = m.get_ll()
                    mon.saw("undefined likelihood, asked directly")
                except Exception:
                    ll0 = -np.inf
                m.filter.R = s.Rm
                mon.check(ll0 == -np.inf, "a likelihood although the filter gives none", got=ll0, linear=s.linear)
                mon.check(got == -np.inf, "a density although the filter gives none", got=got, linear=s.linear)
                mon.saw("undefined likelihood")
            else:
                np.random.standard_normal(int(rng.integers(1, 99)))
        mon.case(sig=(i, step, k, s.linear) if step and k != "between" else None,
                 sample=dict(op=k, linear=s.linear, n=len(s.est)) if step == 4 else None)
