"""Flag-free states satisfy all equations and the bound along the whole expected path."""
import numpy as np
from ..harness import *

CASES = {"quick": 48, "thorough": 1200}
RULE = ("a case is one model (shipped examples, then random files) with random horizon limits, driven by random shock "
        "histories that push the constrained variable to its bound; an evaluation is one period: the path expected "
        "from there on is unrolled with the package's own transition function and judged by the text of the "
        "equations; non-trivial: the bound binds now or is expected to")
ASSUMES = ["periods in which the package flags that it found no equilibrium are excluded, as the property says",
           "expected paths are unrolled to 12 periods after the spell"]
MIN = {"binding now": 300, "binding later": 20, "slack": 300, "equation residuals": 20000}


def unroll(mon, c, hist, st, e, l, k, n):
    """expected path by pydsge from state st: list of states; (l, k) counts down"""
    m = c.mod
    out = []
    for s in range(n):
        st = m.t_func(st, e if s == 0 else None, set_k=(l, k) if k else (0, 0), return_flag=False)
        out.append(st)
        l, k = (l - 1, k) if l else (0, max(k - 1, 0))
    return out


def judge(mon, c, hist, st, e, l, k, st1):
    """hist: Path of what happened so far"""
    ld = max_lead(c.tm)
    n = l + k + 12 + ld
    X = unroll(mon, c, hist, st, e, l, k, n)
    mon.close_to(X[0], st1, "state differs from that under the reported (l,k)", tol=1e-9, lk=(l, k), model=c.text)
    t0 = len(hist)
    p = Path(c.names, c.tm.shocks)
    for nm in p.v:
        p.v[nm] = hist.v[nm][:]
    for nm in p.e:
        p.e[nm] = hist.e[nm][:]
    for s, x in enumerate(X):
        p.push(dict(zip(c.names, x[c.mi])), dict(zip(c.tm.shocks, e if s == 0 else np.zeros(len(e)))))
    bar = c.R.x_bar
    for s in range(l + k + 12):
        t = t0 + s
        if s < 3 or s >= l - 1:
            r = residuals(c.tm, c.R.par, p, t)
            mon.saw("equation residuals", len(r))
            j = int(np.argmax(np.abs(r)))
            if not abs(r[j]) < 1e-6:
                mon.fail("written equation violated on the expected path", equation=c.tm.eqs[j].text, ahead=s,
                         lk=(l, k), residual=r[j], par=c.R.par, model=c.text)
        sh = shadow_value(c.tm, c.R.par, p, t)
        v = p.get(t)(c.tm.const_var, 0)
        size = 1 + abs(sh) + sum(abs(a) for a in X[s][c.mi]) * .1
        tol = 1e-7 * size
        if l <= s < l + k:
            if not abs(v - bar) < tol:
                mon.fail("constrained variable not at its bound during the spell", ahead=s, lk=(l, k), got=v, bound=bar,
                         model=c.text)
        elif not abs(v - sh) < tol:
            mon.fail("constrained variable off its equation outside the spell", ahead=s, lk=(l, k), got=v, want=sh,
                     model=c.text)
        # r = max(shadow, bound) now, and at both ends of the expected spell
        if s in ((0, l - 1, l, l + k - 1, l + k) if k else range(min(c.lmax + 1, l + k + 12))):
            mon.saw("max() conditions")
            if not abs(v - max(sh, bar)) < tol:
                mon.fail("constrained variable is not the maximum of its equation and the bound", ahead=s, lk=(l, k),
                         got=v, shadow=sh, bound=bar, model=c.text)
        elif abs(v - max(sh, bar)) > tol:
            mon.saw("interior max() not met (outside the property)")


def run(mon, c, rng, nh, T):
    sd = shock_std(c)
    m = c.mod
    for h in range(nh):
        st = np.zeros(len(m.vv))
        hist = Path(c.names, c.tm.shocks)
        mood = rng.choice([1., 2., 4.])
        drift = rng.standard_normal(len(sd)) * rng.choice([0, 1])
        for t in range(T):
            e = sd * (rng.standard_normal(len(sd)) * mood + drift)
            if rng.random() < .3:
                e = e * 0
            st1, (l, k), fl = m.t_func(st, e, return_k=True)
            if fl:
                mon.saw("flagged periods")
                break
            mon.check(0 <= l <= c.lmax and 0 <= k <= c.kmax, "reported durations outside the limits", lk=(l, k),
                      limits=(c.lmax, c.kmax))
            mon.saw("slack" if not k else "binding later" if l else "binding now")
            if k or t % 3 == 0:
                judge(mon, c, hist, st, e, l, k, st1)
                mon.case(sig=(c.text, h, t) if k else None,
                         sample=dict(lk=(int(l), int(k)), period=t) if k else None)
            hist.push(dict(zip(c.names, st1[c.mi])), dict(zip(c.tm.shocks, e)))
            st = st1


def case(mon, rng, i):
    kw = dict(l_max=int(rng.integers(2, 6)), k_max=int(rng.integers(2, 35))) if rng.random() < .5 else {}
    c = any_case(mon, rng, i, values=i > 12, **kw)
    run(mon, c, rng, 10, 14)
