"""Simulations are the transition applied to the given innovations, sample by sample."""
import copy
import numpy as np
from ..harness import *

CASES = {"quick": 42, "thorough": 900}
RULE = ("a case is one model; an evaluation is one call of simulate over 1-4 samples (parameters, innovations, initial "
        "states reached on the way), judged by an independent replay of every period and by relations between calls "
        "(masked, cut, continued, permuted, one at a time, in a pool); non-trivial: several samples, a mask, or the "
        "bound binds")
ASSUMES = ["histories in which a deciding comparison is a tie are judged up to the tie only"]
MIN = {"replayed periods": 3000, "binding": 100, "masked": 60, "continued": 30, "permuted": 30, "pooled": 2,
       "several parameter vectors": 20}


def replay(mon, c, R, x, X, L, K, fl, E, linear, what):
    """x: reference state belonging to X[0]; returns the reference states, up to a tie"""
    T = len(E)
    mon.check(X.shape[0] == T + 1 and len(L) == T and len(K) == T, "simulation has another length", got=X.shape, want=T)
    out = [x]
    for t in range(T):
        l, k = int(L[t]), int(K[t])
        if linear:
            mon.check((l, k) == (0, 0), "linear simulation reports durations", lk=(l, k))
        else:
            el, ek, status = R.select(x, E[t], c.lmax, c.kmax)
            if status == "tie":
                mon.saw("ties")
                return out
            if status == "none":
                mon.saw("no equilibrium")
                mon.check(bool(fl), "no equilibrium but simulate does not flag it", period=t, model=c.text, by=what)
                return out
            mon.check((l, k) == (el, ek), "durations in simulate are not those of the equilibrium", got=(l, k),
                      want=(el, ek), period=t, by=what, model=c.text)
        x = R.step(x, E[t], l, k)
        out.append(x)
        mon.saw("replayed periods")
        mon.saw("binding" if k else "slack")
        mon.close_to(X[t + 1][c.mi], x[c.ri], "simulate differs from the step-by-step replay", period=t, by=what,
                     names=c.names, model=c.text)
    mon.check(not bool(fl), "simulate flags an error although every period has an equilibrium", model=c.text, by=what)
    return out


def same(mon, a, b, what, **kw):
    Xa, (La, Ka), fa = a
    Xb, (Lb, Kb), fb = b
    mon.close_to(Xa, Xb, what, tol=1e-9, **kw)
    mon.check(np.array_equal(La, Lb) and np.array_equal(Ka, Kb), what + " (durations)", **kw)
    mon.check(np.array_equal(np.asarray(fa, bool), np.asarray(fb, bool)), what + " (flags)", **kw)


def case(mon, rng, i):
    kw = dict(l_max=int(rng.integers(2, 5)), k_max=int(rng.integers(4, 30))) if rng.random() < .4 else {}
    c = any_case(mon, rng, i, values=rng.random() < .5, **kw)
    m = c.mod
    here = np.array(m.get_par(), float)
    vv = [str(v) for v in m.vv]
    sd = shock_std(c)
    ne, nx = len(sd), len(vv)
    # parameter vectors with the same ordering of variables
    probe = read(c.path)
    probe.set_par(list(here), **kw)
    pool_p = [(here, c.R)]
    for _ in range(6):
        v = gen.perturb(rng, c.tm)
        try:
            r = Reference(c.tm, v)
        except (Indeterminate, Unstable, IllConditioned):
            continue
        probe.set_par(v)
        if [str(x) for x in probe.vv] == vv:
            pool_p.append((np.array(v), r))
    for rep in range(4):
        n, T = int(rng.integers(1, 5)), int(rng.integers(1, 30))
        linear = bool(rng.random() < .3)
        pick = [pool_p[int(j)] for j in rng.integers(0, len(pool_p), n)]
        if len({id(r) for _, r in pick}) > 1:
            mon.saw("several parameter vectors")
        P = np.array([p for p, _ in pick])
        size = float(rng.choice([.5, 1., 2., 3.]))
        E = rng.standard_normal((n, T, ne)) * sd * size
        if rng.random() < .3:
            E[rng.random(E.shape) < .5] = 0
        I0 = np.zeros((n, nx))
        refs0 = [np.zeros(r.n) for _, r in pick]
        if rep % 2:
            # start from states that were reached
            B = rng.standard_normal((n, 4, ne)) * sd * 1.5
            X, (L, K), fl = m.simulate(dict(pars=P, resid=B, init=I0), linear=linear)
            for j, (p, r) in enumerate(pick):
                path = replay(mon, c, r, refs0[j], X[j], L[j], K[j], fl[j], B[j], linear, "burn-in")
                # the last state both agree on
                refs0[j] = path[-1]
                I0[j] = X[j][len(path) - 1]
        src = dict(pars=P, resid=E, init=I0)
        keep = copy.deepcopy(src)
        res = m.simulate(src, linear=linear)
        X, (L, K), fl = res
        for k_ in src:
            mon.check(np.array_equal(src[k_], keep[k_]), "simulate changes what it is given", which=k_)
        mon.check(X.shape == (n, T + 1, nx), "simulation has another shape", got=X.shape, want=(n, T + 1, nx))
        for j, (p, r) in enumerate(pick):
            mon.check(np.array_equal(X[j, 0], I0[j]), "the simulation does not start at the initial state")
            replay(mon, c, r, refs0[j], X[j], L[j], K[j], fl[j], E[j], linear, "sample %d of %d" % (j, n))
        mon.case(sig=(c.text, rep) if n > 1 or np.any(K) else None, sample=dict(samples=n, T=T, linear=linear))
        # arguments on their own
        if rep == 0:
            same(mon, m.simulate(pars=P, resid=E, init=I0, linear=linear), res, "simulate without a dict differs")
            o = dict(pars=P[::-1] * 0 + here, resid=E * 0, init=I0)
            same(mon, m.simulate(o, pars=P, resid=E, linear=linear), res, "arguments do not overrule the dict")
        # masks
        for q in range(2):
            M = np.full((T, ne), np.nan)
            hit = rng.random(M.shape) < .4
            if q == 0:
                M[hit] = rng.choice([0., 1., .5, -1.], hit.sum())
                op, want, nm = {}, np.where(hit, np.where(hit, M, 0) * E, E), "multiply"
            elif rng.random() < .5:
                M[hit] = rng.standard_normal(hit.sum()) * .3
                op, want, nm = dict(operation=np.add), np.where(hit, np.where(hit, M, 0) + E, E), "add"
            else:
                M[hit] = rng.standard_normal(hit.sum()) * .3
                op, want, nm = dict(operation=lambda a, b: a), np.where(hit, np.broadcast_to(M, E.shape), E), "replace"
            Mk = M.copy()
            a = m.simulate(src, mask=M, linear=linear, **op)
            mon.check(np.array_equal(M, Mk, equal_nan=True), "simulate changes the mask")
            b = m.simulate(dict(src, resid=want), linear=linear)
            same(mon, a, b, "a masked simulation is not that of the masked innovations", operation=nm)
            for j, (p, r) in enumerate(pick[:1]):
                replay(mon, c, r, refs0[j], a[0][j], a[1][0][j], a[1][1][j], a[2][j], want[j], linear, "mask " + nm)
            mon.saw("masked")
            mon.case(sig=(c.text, rep, nm))
        # cut and continued
        if T > 2:
            s = int(rng.integers(1, T))
            a = m.simulate(dict(src, resid=E[:, :s]), linear=linear)
            mon.close_to(a[0], X[:, :s + 1], "the past depends on innovations to come", tol=1e-9)
            mon.check(np.array_equal(a[1][1], K[:, :s]), "past durations depend on innovations to come")
            b = m.simulate(dict(src, resid=E[:, s:], init=a[0][:, -1]), linear=linear)
            mon.close_to(b[0], X[:, s:], "a continued simulation leaves the path", tol=1e-9, at=s)
            mon.check(np.array_equal(b[1][0], L[:, s:]) and np.array_equal(b[1][1], K[:, s:]),
                      "durations of a continued simulation differ")
            mon.saw("continued")
        # samples do not know of one another
        if n > 1:
            o = rng.permutation(n)
            a = m.simulate(dict(pars=P[o], resid=E[o], init=I0[o]), linear=linear)
            same(mon, a, (X[o], (L[o], K[o]), np.asarray(fl)[o]), "the order of the samples matters", order=o.tolist())
            j = int(rng.integers(n))
            a = m.simulate(dict(pars=P[j:j + 1], resid=E[j:j + 1], init=I0[j:j + 1]), linear=linear)
            same(mon, a, (X[j:j + 1], (L[j:j + 1], K[j:j + 1]), np.asarray(fl)[j:j + 1]),
                 "a sample on its own differs from the same in company")
            mon.saw("permuted")
    if i % 12 == 2:
        m.create_pool(2)
        try:
            a = m.simulate(src, linear=linear)
        finally:
            m.pool.close()
            m.pool = None
        same(mon, a, res, "in a pool simulate gives other results")
        mon.saw("pooled")
    mon.check(np.array_equal(here, m.get_par()), "simulate changes the parameters of the model")
    z = np.zeros(ne)
    z[0] = sd[0]
    mon.close_to(m.t_func(np.zeros(nx), z, linear=True)[0][c.mi], c.R.step(np.zeros(c.R.n), z)[c.ri],
                 "simulate changes the model")
