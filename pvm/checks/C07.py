"""Observables are the written measurement equations at the reported state."""
import numpy as np
from ..harness import *

CASES = {"quick": 48, "thorough": 1000}
RULE = ("a case is one model with random measurement equations (loadings on several variables, constants that are "
        "functions of parameters) and parameters that change along the way; an evaluation is one call for a vector, "
        "a series, a batch of series, a batch of parameter vectors, intervals, or the observables of a transition; "
        "judged by evaluating the text of the measurement equations at the state, by name")
MIN = {"vector": 100, "series": 100, "batch": 40, "per-parameter batch": 30, "intervals": 40, "transition": 300,
       "mixed-sign loadings": 10}


def measured(c, X, par=None):
    """text of the measurement equations at states X (T, n) in the order of c.mod.vv"""
    par = c.R.par if par is None else par
    ix = dict(zip(c.names, c.mi))
    out = np.empty((len(X), len(c.tm.obs)))
    for j, e in enumerate(c.tm.obs.values()):
        for t, x in enumerate(X):
            out[t, j] = e.residual(par, lambda n, l: x[ix[n]])
    return out


def one(mon, c, rng):
    m, R = c.mod, c.R
    sd = shock_std(c)
    H, cst = R.obs()
    if np.any((H > 0).any(1) & (H < 0).any(1)):
        mon.saw("mixed-sign loadings")
    mon.check(list(map(str, m.observables)) == c.tm.observables, "observables are not those declared, in order",
              got=list(m.observables), want=c.tm.observables)
    st, S, O = np.zeros(len(m.vv)), [], []
    for t in range(10):
        e = sd * rng.standard_normal(len(sd)) * 3
        (q, ob), lk, fl = m.t_func(st, e, get_obs=True, return_k=True)
        st1, lk1, fl1 = m.t_func(st, e, return_k=True)
        mon.check(tuple(lk) == tuple(lk1) and fl == fl1, "asking for observables changes the transition")
        mon.close_to(ob, measured(c, [st1])[0], "observables of a transition differ from the measurement equations",
                     names=c.tm.observables, par=R.par, model=c.text)
        mon.close_to(q, st1[len(st1) - len(q):], "states of a transition change with observables")
        lin = rng.random() < .3
        if lin:
            (q, ob), _ = m.t_func(st, e, get_obs=True, linear=True)
            st2, _ = m.t_func(st, e, linear=True)
            mon.close_to(ob, measured(c, [st2])[0], "observables of a linear transition differ from the measurement "
                         "equations", model=c.text)
        mon.saw("transition")
        st = st1
        S.append(st)
    S = np.array(S)
    W = measured(c, S)
    mon.close_to(np.asarray(m.obs(S)), W, "observables of a series differ from the measurement equations",
                 names=c.tm.observables, par=R.par, model=c.text)
    mon.close_to(np.asarray(m.o_func(S)), W, "observables of a series differ from the measurement equations",
                 model=c.text)
    mon.saw("series")
    j = int(rng.integers(len(S)))
    ob = m.obs(S[j])
    mon.close_to(np.asarray(ob).ravel(), W[j], "observables of a state differ from the measurement equations",
                 names=c.tm.observables, model=c.text)
    mon.saw("vector")
    B = S + rng.standard_normal((3,) + S.shape)
    mon.close_to(np.asarray(m.obs(B)), np.array([measured(c, b) for b in B]),
                 "observables of a batch of series differ from the measurement equations", model=c.text)
    mon.saw("batch")
    # intervals of a state distribution
    A = rng.standard_normal((len(S), len(m.vv), len(m.vv)))
    if rng.random() < .3:
        A[:, :, 1:] = 0
    P = A @ A.transpose(0, 2, 1) * rng.uniform(.01, .3)
    io, ist = m.obs(S, covs=P)
    Hm = np.zeros((len(c.tm.obs), len(m.vv)))
    Hm[:, c.mi] = H[:, c.ri]
    so = np.sqrt(np.array([np.diag(Hm @ p @ Hm.T) for p in P]))
    ss = np.sqrt(np.array([np.diag(p) for p in P]))
    for a, b, what in ((io, (W, so), "observables"), (ist, (S, ss), "states")):
        mon.close_to(np.asarray(a[1]), b[0], "centre of the interval of %s is not the point estimate" % what)
        mon.close_to(np.asarray(a[0]), b[0] - 1.96 * b[1], "lower end of the 95%% interval of %s" % what,
                     model=c.text)
        mon.close_to(np.asarray(a[2]), b[0] + 1.96 * b[1], "upper end of the 95%% interval of %s" % what,
                     model=c.text)
    mon.saw("intervals")
    mon.case(sig=(c.text, tuple(R.par.values())), sample=dict(obs=c.spec.obs))
    # names to positions
    v = [str(x) for x in rng.choice(c.names, 2)]
    mon.check([str(m.vv[k]) for k in m.vix(v)] == v and [str(m.observables[k]) for k in m.oix(c.tm.observables[-1])]
              == [c.tm.observables[-1]], "index of a name points elsewhere")


def several(mon, c, rng):
    """a batch with one parameter vector each; the model is left alone"""
    m, tm = c.mod, c.tm
    here = np.array(m.get_par(), float)
    vv = list(m.vv)
    e = shock_std(c) * 2
    before = m.t_func(np.zeros(len(vv)), e, get_obs=True)[0]
    pars, refs = [], []
    for _ in range(4):
        v = gen.perturb(rng, tm)
        pars.append(v)
        refs.append(tm.full_par(v))
    keep = []
    probe = read(c.path)
    for v, r in zip(pars, refs):
        try:
            probe.set_par(v)
        except ValueError:
            continue
        if list(probe.vv) == vv:
            keep.append((v, r))
    if not keep:
        return
    S = rng.standard_normal((len(keep), 5, len(vv)))
    ob = np.asarray(m.obs(S, pars=[np.array(v) for v, _ in keep]))
    want = np.array([measured(c, s, r) for s, (_, r) in zip(S, keep)])
    mon.close_to(ob, want, "observables of a batch of parameter vectors differ from the measurement equations",
                 model=c.text)
    mon.saw("per-parameter batch")
    after = m.t_func(np.zeros(len(vv)), e, get_obs=True)[0]
    mon.check(np.array_equal(here, m.get_par()) and list(m.vv) == vv and np.array_equal(before[1], after[1]),
              "asking for observables changes the model")
    one(mon, c, rng)
    mon.case(sig=(c.text, "pars", len(keep)))


def case(mon, rng, i):
    c = any_case(mon, rng, i, nobs=int(rng.integers(1, 7)))
    one(mon, c, rng)
    for _ in range(2):
        v = gen.perturb(rng, c.tm)
        try:
            c.reparam(v)
        except (Indeterminate, Unstable, IllConditioned):
            continue
        c.mod.set_par(v)
        c.sync()
        one(mon, c, rng)
        break
    several(mon, c, rng)
