"""Impulse responses are the transition applied to the listed shocks, period by period."""
import copy
import numpy as np
from ..harness import *

CASES = {"quick": 48, "thorough": 1000}
RULE = ("a case is one model; an evaluation is one call of irfs with a random list of shocks (names, pairs, triples, "
        "several per period, late ones, from a given state, at other parameters, batches), judged by an independent "
        "step-by-step replay and by relations between calls (shifted, scaled, added, continued); non-trivial: at "
        "least two shocks, or the bound binds")
ASSUMES = ["histories in which a deciding comparison is a tie are not judged"]
MIN = {"replayed periods": 3000, "binding": 100, "shifted": 60, "added": 60, "continued": 60, "batches": 30,
       "other parameters": 30, "recalculated": 60}


def shock_matrix(c, lst, T):
    E = np.zeros((T, len(c.tm.shocks)))
    for s in lst:
        s = (s, 1, 0) if isinstance(s, str) else tuple(s) + (0,) * (3 - len(s))
        if s[2] < T:
            E[s[2], c.tm.shocks.index(s[0])] = s[1]
    return E


def replay(mon, c, X, LK, fl, E, x0, linear, recalc, what):
    """the reported path against the reference; x0: reference state"""
    R = c.R
    W, (L, K) = X[c.names].to_numpy(), LK
    mon.check(W.shape[0] == len(E) and len(L) == len(E) == len(K), "irfs do not have the requested length",
              got=W.shape, want=len(E))
    x, l, k = x0, 0, 0
    for t in range(len(E)):
        prev = R.dec(l, k)
        l, k = int(L[t]), int(K[t])
        if linear:
            mon.check((l, k) == (0, 0), "linear irfs report durations", lk=(l, k))
        else:
            el, ek, status = R.select(x, E[t], c.lmax, c.kmax)
            if status == "tie":
                mon.saw("ties")
                return None
            if status == "none":
                mon.saw("no equilibrium")
                mon.check(np.any(fl) or not E[t].any(), "no equilibrium but irfs do not flag it", period=t,
                          model=c.text)
                return None
            ok = [(el, ek)]
            if not recalc and not E[t].any():
                ok.append(prev)                  # the spell expected before simply goes on
            mon.check((l, k) in ok, "durations in irfs are not those of the equilibrium", got=(l, k), want=ok,
                      period=t, by=what, model=c.text)
        x = R.step(x, E[t], l, k)
        mon.saw("replayed periods")
        mon.saw("binding" if k else "slack")
        mon.close_to(W[t], x[c.ri], "irfs differ from the step-by-step replay", period=t, by=what, shocks=E[t],
                     names=c.names, par=R.par, model=c.text)
    mon.check(not np.any(fl), "irfs flag an error although every period has an equilibrium", flag=fl, by=what,
              model=c.text)
    return x


def draw_list(rng, c, sd, T, size=3., late=True):
    lst, seen = [], set()
    for _ in range(int(rng.integers(1, 5))):
        j = int(rng.integers(len(sd)))
        t = int(rng.integers(0, T + 3)) if late and rng.random() < .6 else 0
        if (j, t) in seen:
            continue
        seen.add((j, t))
        form = rng.random()
        if t == 0 and form < .15:
            lst.append(c.tm.shocks[j])
        elif t == 0 and form < .4:
            lst.append((c.tm.shocks[j], float(sd[j] * rng.standard_normal() * size)))
        else:
            lst.append((c.tm.shocks[j], float(sd[j] * rng.standard_normal() * size), t))
    return lst


def same(mon, A, B, what, tol=1e-8, **kw):
    mon.close_to(np.asarray(A, float), np.asarray(B, float), what, tol=tol, **kw)


def case(mon, rng, i):
    kw = dict(l_max=int(rng.integers(2, 5)), k_max=int(rng.integers(4, 30))) if rng.random() < .4 else {}
    c = any_case(mon, rng, i, values=rng.random() < .5, **kw)
    m, R = c.mod, c.R
    sd = shock_std(c)
    z = np.zeros(R.n)
    here = np.array(m.get_par(), float)
    for rep in range(6):
        T = int(rng.integers(1, 45))
        lst = draw_list(rng, c, sd, T, size=float(rng.choice([1., 3., 6.])))
        arg = copy.deepcopy(lst)
        if len(arg) == 1 and rng.random() < .5:
            arg = arg[0]
        linear = bool(rng.random() < .3)
        recalc = bool(rng.random() < .4)
        ex = dict(force_init_equil=False) if recalc else {}
        if recalc:
            mon.saw("recalculated")
        keep = copy.deepcopy(arg)
        X, LK, fl = m.irfs(arg, T=T, linear=linear, verbose=False, **ex)
        mon.check(arg == keep, "irfs change the list of shocks they are given", got=arg, want=keep)
        mon.check([str(v) for v in X.columns] == [str(v) for v in m.vv], "columns of irfs are not the variables")
        E = shock_matrix(c, lst, T)
        x = replay(mon, c, X, LK, fl, E, z, linear, recalc, repr((arg, T, linear, recalc)))
        mon.case(sig=(c.text, rep) if len(lst) > 1 or np.any(LK[1]) else None,
                 sample=dict(shocks=[list(s) if not isinstance(s, str) else s for s in lst], T=T, linear=linear))
        if x is None:
            continue
        # the default horizon is long enough to see both
        if rep == 0:
            Y = m.irfs(copy.deepcopy(lst), linear=linear, verbose=False, **ex)[0]
            n = min(len(Y), T)
            same(mon, Y.to_numpy()[:n], X.to_numpy()[:n], "irfs depend on the horizon")
        # continued from a state on the way
        if T > 3:
            s = int(rng.integers(1, T - 1))
            rest = []
            for sh in lst:
                sh = (sh, 1, 0) if isinstance(sh, str) else tuple(sh) + (0,) * (3 - len(sh))
                if sh[2] >= s:
                    rest.append((sh[0], sh[1], sh[2] - s))
            st = X.to_numpy()[s - 1].copy()
            st0 = st.copy()
            Y, LKy, fy = m.irfs(rest or [(c.tm.shocks[0], 0., 0)], T=T - s, state=st, linear=linear,
                                force_init_equil=False, verbose=False)
            mon.check(np.array_equal(st, st0), "irfs change the state they are given")
            if not np.any(fy) and np.array_equal(LKy, np.array(LK)[:, s:]):
                same(mon, Y, X.to_numpy()[s:], "irfs continued from a state on the path leave the path", at=s,
                     shocks=rest, model=c.text)
                mon.saw("continued")
            elif linear:
                mon.fail("linear irfs continued from a state report durations", lk=LKy)
    # moving a shock in time moves the response
    for rep in range(2):
        j, s = int(rng.integers(len(sd))), int(rng.integers(1, 9))
        size = float(sd[j] * rng.choice([-4, -2, 2, 4]))
        linear = rep == 1
        A, la, fa = m.irfs((c.tm.shocks[j], size, 0), T=20, linear=linear, force_init_equil=False, verbose=False)
        B, lb, fb = m.irfs((c.tm.shocks[j], size, s), T=20 + s, linear=linear, force_init_equil=False, verbose=False)
        same(mon, B.to_numpy()[s:], A.to_numpy(), "a later shock has another effect", shock=c.tm.shocks[j], size=size,
             by=s, model=c.text)
        mon.check(not B.to_numpy()[:s].any(), "a shock has effects before it happens", by=s)
        mon.check(np.array_equal(np.array(lb)[:, s:], np.array(la)) and bool(fa) == bool(fb),
                  "a later shock leads to other durations")
        mon.saw("shifted")
    # the linear model is linear
    for rep in range(2):
        T = int(rng.integers(5, 30))
        a, b = draw_list(rng, c, sd, T), draw_list(rng, c, sd, T)
        Ea, Eb = shock_matrix(c, a, T), shock_matrix(c, b, T)
        w1, w2 = rng.uniform(-3, 3, 2)
        Ec = w1 * Ea + w2 * Eb
        comb = [(c.tm.shocks[j], float(Ec[t, j]), t) for t in range(T) for j in range(len(sd)) if Ec[t, j]]
        if not comb:
            continue
        XA, XB, XC = (m.irfs(copy.deepcopy(q), T=T, linear=True, verbose=False)[0].to_numpy() for q in (a, b, comb))
        same(mon, XC, w1 * XA + w2 * XB, "linear irfs do not add up", model=c.text)
        mon.saw("added")
    # at other parameters; the model stays what it was
    pars, refs = [], []
    for _ in range(4):
        v = gen.perturb(rng, c.tm)
        try:
            refs.append(Reference(c.tm, v))
            pars.append(v)
        except (Indeterminate, Unstable, IllConditioned):
            continue
    probe = read(c.path)
    probe.set_par(list(here), **kw)
    good = []
    for v, r in zip(pars, refs):
        probe.set_par(v)
        if list(probe.vv) == list(m.vv):
            good.append((v, r))
    base = m.irfs((c.tm.shocks[0], 2., 0), T=6, verbose=False)[0].to_numpy()
    lst = draw_list(rng, c, sd, 8, late=False)
    alone = []
    for v, r in good:
        X, LK, fl = m.irfs(copy.deepcopy(lst), pars=np.array(v), T=8, verbose=False)
        c2 = copy.copy(c)
        c2.R = r
        replay(mon, c2, X, LK, fl, shock_matrix(c, lst, 8), np.zeros(r.n), False, True, "pars")
        alone.append((X, LK, fl))
        mon.saw("other parameters")
        mon.case(sig=(c.text, tuple(v)))
    if len(good) > 1:
        X, LK, fl = m.irfs(copy.deepcopy(lst), pars=np.array([v for v, _ in good]), T=8, verbose=False)
        mon.check(X.shape == (len(good), 8, len(m.vv)), "batch irfs have another shape", got=X.shape)
        LK = np.array(LK)
        n = len(good)
        for j, (XA, LA, fa) in enumerate(alone):
            same(mon, X[j], XA.to_numpy(), "batch irfs differ from one parameter vector at a time", at=j)
            same(mon, np.vstack((LK[j], LK[n + j])), LA, "durations of batch irfs differ", at=j)
            mon.check(bool(fl[j]) == bool(fa), "flags of batch irfs differ", at=j)
        mon.saw("batches")
        mon.case(sig=(c.text, "batch"))
    mon.check(np.array_equal(here, m.get_par()), "irfs change the parameters of the model")
    same(mon, m.irfs((c.tm.shocks[0], 2., 0), T=6, verbose=False)[0], base, "irfs change the model")
