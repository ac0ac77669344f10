"""Which equilibrium is reported: the smallest one, a flag if there is none, or the one asked for."""
import numpy as np
from ..harness import *

CASES = {"quick": 60, "thorough": 1500}
RULE = ("a case is one model with random limits (l_max, k_max) driven by random shock histories; an evaluation is one "
        "period in which an independent search over all expected (wait, spell) pairs is compared with the reported "
        "durations, flag and state, or one forced-duration run; non-trivial: the bound is involved")
ASSUMES = ["comparisons closer than 1e-8 (relative) are ties and end the history unjudged"]
MIN = {"binding": 300, "no equilibrium": 5, "forced": 300, "refused durations": 30, "slack": 300,
       "restricted durations": 20}


def histories(mon, c, rng, nh, T):
    m, R = c.mod, c.R
    sd = shock_std(c)
    for h in range(nh):
        st, x = np.zeros(len(m.vv)), np.zeros(R.n)
        mood = rng.choice([.7, 2., 4., 8.])
        drift = rng.standard_normal(len(sd)) * rng.choice([0, 1, 3])
        for t in range(T):
            e = sd * (rng.standard_normal(len(sd)) * mood + drift)
            if rng.random() < .3:
                e = e * 0
            try:
                rl, rk, status = R.select(x, e, c.lmax, c.kmax)
            except IllConditioned:
                mon.saw("ill-conditioned")
                return
            if status == "tie":
                mon.saw("ties")
                break
            st1, (l, k), fl = m.t_func(st, e, return_k=True)
            st2, fl2 = m.t_func(st, e)
            st3 = m.t_func(st, e, return_flag=False)
            mon.check(fl == fl2 and np.array_equal(st1, st2) and np.array_equal(st1, st3),
                      "the same transition differs with what else is returned")
            mon.case(sig=(c.text, h, t) if rk or status == "none" else None,
                     sample=dict(lk=(int(l), int(k)), flag=int(fl), want=(rl, rk, status)) if rk else None)
            if status == "none":
                mon.saw("no equilibrium")
                mon.check(fl != 0, "no equilibrium exists within the limits but none is flagged", lk=(l, k),
                          limits=(c.lmax, c.kmax), par=R.par, model=c.text)
                mon.check(l == 0 and min(1, c.kmax) <= k <= c.kmax, "durations reported with a flag are outside the limits",
                          lk=(l, k), limits=(c.lmax, c.kmax))
                x1 = R.step(x, e, l, k)
                mon.close_to(st1[c.mi], x1[c.ri], "flagged state differs from the law for the reported durations",
                             scale=1 + np.abs(x1).max(), lk=(l, k), par=R.par, model=c.text)
                break
            mon.check(fl == 0, "flagged although an equilibrium exists", flag=fl, want=(rl, rk),
                      limits=(c.lmax, c.kmax), par=R.par, model=c.text)
            mon.check((l, k) == (rl, rk), "reported durations are not the smallest equilibrium", got=(l, k),
                      want=(rl, rk), limits=(c.lmax, c.kmax), par=R.par, model=c.text)
            mon.saw("binding" if k else "slack")
            if l:
                mon.saw("binding later")
            x = R.step(x, e, rl, rk)
            mon.close_to(st1[c.mi], x[c.ri], "state differs from the equilibrium law", lk=(l, k), names=c.names,
                         par=R.par, model=c.text)
            st = st1


def forced(mon, c, rng):
    """durations handed in are the ones used, and only those that were prepared are accepted"""
    m, R = c.mod, c.R
    sd = shock_std(c)
    for _ in range(8):
        st, x = np.zeros(len(m.vv)), np.zeros(R.n)
        for t in range(3):
            e = sd * rng.standard_normal(len(sd)) * 2
            l, k = int(rng.integers(0, c.lmax + 1)), int(rng.integers(0, c.kmax + 1))
            if t == 0 and rng.random() < .3:
                l, k = [(c.lmax, c.kmax), (0, c.kmax), (c.lmax, 0), (0, 0)][int(rng.integers(4))]
            if rng.random() < .15:
                st, g, fl = m.t_func(st, e, linear=True, return_k=True)
                l = k = 0
            else:
                arg = (l, k)
                if l == 0 and k and rng.random() < .5:
                    arg = k
                st, g, fl = m.t_func(st, e, set_k=arg, return_k=True)
            try:
                x = R.step(x, e, l, k)
            except IllConditioned:
                return
            mon.saw("forced")
            mon.check(tuple(g) == (l, k) and fl == 0, "forced durations are not the ones reported", got=g, want=(l, k))
            big = np.abs(x).max()
            if big > 1e6:
                break
            mon.close_to(st[c.mi], x[c.ri], "state under forced durations differs from the law for them", tol=1e-5,
                         lk=(l, k), par=R.par, model=c.text)
            mon.case(sig=(c.text, "f", l, k, t))
    # not prepared
    z = np.zeros(len(m.vv))
    for bad in ((c.lmax + 1, c.kmax), (0, c.kmax + 1), (c.lmax + 7, 1), (0, c.kmax + 60), c.kmax + 1):
        mon.saw("refused durations")
        try:
            out = m.t_func(z, sd, set_k=bad, return_flag=False)
        except Exception:
            continue
        mon.fail("durations beyond the limits are accepted", set_k=bad, limits=(c.lmax, c.kmax), out=out)
    # irfs: the durations count down
    for _ in range(3 if c.kmax else 0):
        l, k = int(rng.integers(0, c.lmax + 1)), int(rng.integers(1, c.kmax + 1))
        arg = (l, k)
        if rng.random() < .4:
            l, arg = 0, k
        j = int(rng.integers(len(sd)))
        T = l + k + 3
        t1 = int(rng.integers(0, 3))
        shocks = [(c.tm.shocks[j], float(sd[j]), 0), (c.tm.shocks[-1], float(-sd[-1]), t1)]
        X, LK, fl = m.irfs(shocks, T=T, set_k=arg, verbose=False)
        x, ll, kk = np.zeros(R.n), l, k
        for t in range(T):
            e = np.zeros(len(sd))
            if t == 0:
                e[j] = sd[j]
            if t == t1:
                e[-1] = -sd[-1]
            mon.check(kk == 0 or (int(LK[0][t]), int(LK[1][t])) == (ll, kk), "forced durations do not count down",
                      set_k=arg, period=t, got=(LK[0][t], LK[1][t]), want=(ll, kk))
            mon.check(kk or int(LK[1][t]) == 0, "bound still binds after the forced spell", set_k=arg, period=t)
            try:
                x = R.step(x, e, ll if kk else 0, kk)
            except IllConditioned:
                return
            mon.saw("forced")
            if np.abs(x).max() > 1e6:
                break
            mon.close_to(X[c.names].to_numpy()[t], x[c.ri], "irfs under forced durations differ from the law", tol=1e-5,
                         set_k=arg, period=t, par=R.par, model=c.text)
            ll, kk = (ll - 1, kk) if ll else (0, max(kk - 1, 0))
        mon.case(sig=(c.text, "irf", arg))


def case(mon, rng, i):
    if i % 3:
        kw = dict(l_max=int(rng.integers(2, 7)), k_max=int(rng.choice([0, 1, 2, 3, 5, 10, 20, 40])))
        if not kw["k_max"]:
            mon.saw("no spell prepared")
        mon.saw("restricted durations")
    else:
        kw = {}
    c = any_case(mon, rng, i, values=rng.random() < .5, **kw)
    histories(mon, c, rng, 8, 12)
    forced(mon, c, rng)
    # the limits stay in force when only the parameters change
    v = gen.perturb(rng, c.tm)
    try:
        c.reparam(v)
    except (Indeterminate, Unstable, IllConditioned):
        return
    c.mod.set_par(v)
    c.sync()
    histories(mon, c, rng, 3, 10)
