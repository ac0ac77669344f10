"""The linear law solves every written equation and is the unique stable one."""
import numpy as np
from ..harness import *

CASES = {"quick": 60, "thorough": 1500}
RULE = ("a case is one model file (the two shipped examples, then random New-Keynesian models with random dynamics, "
        "notation, order and parameters) with several parameter vectors; an evaluation is one model/parameter pair "
        "driven by shock histories through the transition function, irfs and simulate, judged by the residuals of the "
        "equation text and by an independent QZ solution; non-trivial: at least one lag or lead and all shocks hit")
ASSUMES = ["roots within 0.005 of the unit circle and ill-conditioned draws are not judged",
           "comparison tolerance 1e-6 relative to the size of the path"]
MIN = {"equation residuals": 5000, "states compared": 1000}


def text_residuals(mon, c, X, eps, what, tol=1e-7):
    """X: path by pydsge with shocks in the first period only"""
    p = Path(c.names, c.tm.shocks)
    for t in range(len(X)):
        e = eps if t == 0 else np.zeros(len(eps))
        p.push(dict(zip(c.names, X[t][c.mi])), dict(zip(c.tm.shocks, e)))
    ld = max_lead(c.tm)
    for t in range(len(X) - ld):
        r = residuals(c.tm, c.R.par, p, t)
        mon.saw("equation residuals", len(r))
        j = int(np.argmax(np.abs(r)))
        if not abs(r[j]) < tol:
            mon.fail("written equation violated in the linear solution", by=what, equation=c.tm.eqs[j].text, period=t,
                     residual=r[j], par=c.R.par, model=c.text)
        s = shadow_value(c.tm, c.R.par, p, t)
        r = p.get(t)(c.tm.const_var, 0)
        mon.saw("equation residuals")
        if not abs(r - s) < tol * 10 * (1 + abs(s)):
            mon.fail("constraint equation violated in the linear solution", by=what, period=t, got=r, want=s,
                     model=c.text)


def one(mon, c, rng):
    m, R = c.mod, c.R
    mon.check(len(c.names) == len(c.tm.variables), "a declared variable is not part of the solution",
              missing=[v for v in c.tm.variables if v not in c.names], model=c.text)
    mon.check(list(map(str, m.shocks)) == c.tm.shocks, "shocks differ from those declared", got=list(m.shocks),
              want=c.tm.shocks)
    sd = shock_std(c)
    ne = len(sd)
    # each shock on its own, through the transition function
    for j in range(ne):
        e = np.zeros(ne)
        e[j] = 1.0
        st, x, X = np.zeros(len(m.vv)), np.zeros(R.n), []
        for t in range(14):
            st = m.t_func(st, e if t == 0 else None, linear=True)[0]
            x = R.step(x, e if t == 0 else np.zeros(ne))
            X.append(st)
            mon.saw("states compared")
            mon.close_to(st[c.mi], x[c.ri], "linear response differs from the unique stable solution",
                         shock=c.tm.shocks[j], period=t, names=c.names, par=R.par, model=c.text)
        text_residuals(mon, c, X, e, "t_func")
    # irfs, long enough to see that the path dies out
    j = int(rng.integers(ne))
    T = 60
    X, lk, fl = m.irfs((c.tm.shocks[j], 1.0, 0), T=T, linear=True, verbose=False)
    e = np.zeros(ne)
    e[j] = 1.0
    x, W = np.zeros(R.n), []
    for t in range(T):
        x = R.step(x, e if t == 0 else np.zeros(ne))
        W.append(x)
    W = np.array(W)
    mon.close_to(X[c.names].to_numpy(), W[:, c.ri], "linear irfs differ from the unique stable solution",
                 shock=c.tm.shocks[j], par=R.par, model=c.text)
    mon.check(not np.any(fl) and not np.any(lk), "linear irfs report a binding constraint", lk=lk)
    text_residuals(mon, c, X[[str(v) for v in m.vv]].to_numpy(), e, "irfs")
    # a random history from a random state reached by the model, through simulate
    n = int(rng.integers(3, 15))
    E = sd * rng.standard_normal((n, ne)) * 3
    x, W = np.zeros(R.n), [np.zeros(R.n)]
    for t in range(n):
        x = R.step(x, E[t])
        W.append(x)
    W = np.array(W)
    X, (Ls, Ks), fl = m.simulate(pars=[m.get_par()], resid=[E], init=[np.zeros(len(m.vv))], linear=True)
    mon.saw("states compared", n)
    mon.close_to(X[0][:, c.mi], W[:, c.ri], "linear simulation differs from the unique stable solution", par=R.par,
                 model=c.text)
    # stability of the law that was returned
    st = X[0][-1]
    big = np.abs(st).max() + 1
    with np.errstate(all="ignore"):
        for t in range(400):
            st = m.t_func(st, linear=True)[0]
    slow = max(R.mod[R.mod < 1], default=0)
    mon.check(np.abs(st).max() < 1e3 * big * max(slow, .5) ** 400 + 1e-9, "the linear law does not die out",
              left=np.abs(st).max(), par=R.par, model=c.text)
    mon.case(sig=(c.text, tuple(R.par.values())), sample=dict(tags=sorted(c.spec.tags), variables=len(c.names),
                                                             shocks=ne, slowest_root=float(slow)))


def case(mon, rng, i):
    c = any_case(mon, rng, i)
    for t in c.spec.tags:
        mon.saw("feature " + t)
    one(mon, c, rng)
    done = 0
    for _ in range(6):
        v = gen.perturb(rng, c.tm)
        try:
            c.reparam(v)
        except (Indeterminate, Unstable, IllConditioned):
            mon.saw("draws rejected")
            continue
        c.mod.set_par(v)
        c.sync()
        one(mon, c, rng)
        done += 1
        if done == 2:
            break
