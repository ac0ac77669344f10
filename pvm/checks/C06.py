"""Leads, lags and lagged shocks of any length mean what they say."""
import copy
import re
import numpy as np
from ..harness import *

CASES = {"quick": 54, "thorough": 1200}
RULE = ("a case is one random model with long lags, long leads, gaps between them and lagged shocks; an evaluation is "
        "one shock history through it, judged by the text of the equations, by an independent solution, and by the "
        "same model rewritten by hand with one lag and one lead; non-trivial: a lag or lead of at least 2, or a "
        "lagged shock")
MIN = {"lead>=2": 10, "lead>=3": 5, "lag>=2": 20, "lag>=3": 10, "shock lag": 10, "shock lag>=2": 5,
       "hand-written": 15, "binding": 100, "equation residuals": 3000}


def first_order(spec):
    """the same model with auxiliary variables written out by hand"""
    s = copy.deepcopy(spec)
    rx = re.compile(r"(?<![\w.])([A-Za-z_]\w*)\s*\(\s*([+-]?\d+)\s*\)")
    vs, sh = set(spec.variables), set(spec.cov)
    need = {}

    def sub(m):
        n, d = m.group(1), int(m.group(2))
        if n in sh:
            need[("sh", n)] = max(need.get(("sh", n), 0), -d)
            return "hsh_%s_%d" % (n, -d)
        if n not in vs or abs(d) < 2:
            return m.group(0)
        key = ("lag" if d < 0 else "lead", n)
        need[key] = max(need.get(key, 0), abs(d))
        return "h%s_%s_%d" % (key[0], n, abs(d))
    s.eqs = [rx.sub(sub, e) for e in s.eqs]
    for (kind, n), m in need.items():
        for j in range(0 if kind == "sh" else 1, m + 1):
            v = "h%s_%s_%d" % (kind, n, j)
            s.variables.append(v)
            if kind == "sh":
                s.eqs.append("%s = %s" % (v, n) if j == 0 else "%s = hsh_%s_%d(-1)" % (v, n, j - 1))
            elif j == 1:
                s.eqs.append("%s = %s(%s1)" % (v, n, "-" if kind == "lag" else "+"))
            else:
                s.eqs.append("%s = h%s_%s_%d(%s1)" % (v, kind, n, j - 1, "-" if kind == "lag" else "+"))
    return s


def case(mon, rng, i):
    c = draw_case(mon, rng, [{"deep"}, {"deep", "long_lag", "long_lead"}, {"shock_lags", "deep"}, {"long_lead"},
                             {"long_lag", "shock_lags"}, {"many", "deep"}][i % 6])
    tm, R, m = c.tm, c.R, c.mod
    leads = [d for e in tm.eqs for n, d in e.atoms if d > 0]
    lags = [-d for e in tm.eqs for n, d in e.atoms if d < 0 and n not in tm.shocks]
    slags = [-d for e in tm.eqs for n, d in e.atoms if d < 0 and n in tm.shocks]
    if max(leads) >= 2:
        mon.saw("lead>=2")
    if max(leads) >= 3:
        mon.saw("lead>=3")
    if max(lags, default=0) >= 2:
        mon.saw("lag>=2")
    if max(lags, default=0) >= 3:
        mon.saw("lag>=3")
    if slags:
        mon.saw("shock lag")
    if max(slags, default=0) >= 2:
        mon.saw("shock lag>=2")
    nontriv = max(leads) > 1 or max(lags, default=0) > 1 or slags
    hand = None
    if i % 2 == 0:
        s = first_order(c.spec)
        hand = read(write_model(mon, s, name="hand"))
        hand.set_par(list(tm.calib))
        hv = [str(v) for v in hand.vv]
        hi = [hv.index(n) for n in c.names]
        mon.saw("hand-written")
    sd = shock_std(c)
    ld = max(leads)
    for h in range(4):
        linear = h % 2 == 0
        st, x = np.zeros(len(m.vv)), np.zeros(R.n)
        hs = np.zeros(len(hand.vv)) if hand is not None else None
        p = Path(c.names, tm.shocks)
        n0 = int(rng.integers(1, 8))          # periods with shocks
        T = n0 + (8 + ld if linear else 8)
        for t in range(T):
            e = sd * rng.standard_normal(len(sd)) * 3 if t < n0 else np.zeros(len(sd))
            l = k = 0
            if not linear:
                l, k, status = R.select(x, e, 3, 17)
                if status != "ok":
                    break
            st, lk, fl = m.t_func(st, e, linear=linear, return_k=True)
            x = R.step(x, e, l, k)
            mon.saw("binding" if k else "slack")
            mon.check(tuple(lk) == (l, k) and not fl, "durations differ from the independent solution", got=lk,
                      want=(l, k), model=c.text)
            mon.close_to(st[c.mi], x[c.ri], "long leads or lags: state differs from the independent solution",
                         period=t, names=c.names, model=c.text)
            if hand is not None:
                hs, hlk, hfl = hand.t_func(hs, e, linear=linear, return_k=True)
                mon.check(tuple(hlk) == tuple(lk), "durations differ from the hand-written first-order model",
                          got=lk, want=hlk, model=c.text)
                mon.close_to(st[c.mi], hs[hi], "state differs from the hand-written first-order model", period=t,
                             names=c.names, model=c.text)
            p.push(dict(zip(c.names, st[c.mi])), dict(zip(tm.shocks, e)))
        if linear:
            # from the last shock on the path is the expected one
            for t in range(n0 - 1, T - ld):
                r = residuals(tm, R.par, p, t)
                mon.saw("equation residuals", len(r))
                j = int(np.argmax(np.abs(r)))
                if not abs(r[j]) < 1e-7:
                    mon.fail("written equation violated", equation=tm.eqs[j].text, period=t, residual=r[j],
                             model=c.text)
        mon.case(sig=(c.text, h) if nontriv else None,
                 sample=dict(leads=sorted(set(leads)), lags=sorted(set(lags)), shock_lags=sorted(set(slags))))
