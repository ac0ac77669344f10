"""A stored chain is a record of the posterior: every draw with its density, the mode, files, resumed runs."""
import os
import numpy as np
from ..harness import *
from .C12 import logprior

CASES = {"quick": 30, "thorough": 400}
WARM = True
RULE = ("a case is one model with data and short ensemble chains (linear or nonlinear filter, in the parameters or in "
        "the sampler's space, tempered, from given, default or drawn initial states, in memory or in files, resumed, "
        "appended, repeated, in a pool); an evaluation is one run; every stored draw is recomputed with a model that "
        "was prepared separately; non-trivial: some walker has moved")
MIN = {"runs": 40, "draws recomputed": 300, "moved": 200, "stayed": 50, "resumed": 6, "repeated": 6, "transformed": 7,
       "tempered": 8, "from file": 10, "mode": 20, "given initial states": 15, "default initial states": 1,
       "pooled": 1, "nonlinear": 3, "from file after loading": 2}


def prepare(path, d, linear, trans, N, ncores=0, lm=None, Rm=None, **kw):
    m = read(path, **kw)
    m.set_par("calib")
    m.load_data(d)
    m.prep_estim(linear=linear, N=N, seed=5, ncores=ncores, use_prior_transform=trans, verbose=False, dry_run=False)
    m.filter.R = Rm
    return m


def go(mon, m, *a, **kw):
    """a run; the proposals of the sampler (a dependency) are undefined if the first step moves no walker"""
    try:
        return m.mcmc(*a, **kw)
    except np.linalg.LinAlgError as ex:
        tb, files = ex.__traceback__, []
        while tb:
            files.append(tb.tb_frame.f_code.co_filename)
            tb = tb.tb_next
        if any("dime_sampler" in f for f in files) and "SVD" in str(ex):
            mon.saw("first step without a move")
            raise IllConditioned("sampler") from None
        raise


def inverse(prior, X):
    out = np.array(X, float)
    for j, d in enumerate(prior.values()):
        ty = list(d)[-3]
        x = out[..., j]
        out[..., j] = (np.log(x) if ty in ("gamma", "inv_gamma", "inv_gamma_dynare") else
                       np.log(x / (1 - x)) if ty == "beta" else x)
    return out


def judge(mon, m, ref, prior, lo, n, nw, p0, temp, rng, tune, what, old=None):
    """the chain of a run: lo steps before it, n in it"""
    C, L = np.asarray(m.get_chain()), np.asarray(m.get_log_prob())
    nd = len(prior)
    mon.check(C.shape == (lo + n, nw, nd) and L.shape == (lo + n, nw), "chain has another shape", got=C.shape,
              want=(lo + n, nw, nd), run=what)
    mon.check(np.isfinite(C).all() and not np.isnan(L).any(), "chain is not finite", run=what)
    if old is not None:
        mon.check(np.array_equal(C[:lo], old[0]) and np.array_equal(L[:lo], old[1]),
                  "resuming changes what was stored", run=what)
    # moves
    for t in range(lo, lo + n):
        prev = C[t - 1] if t else p0
        if prev is None:
            continue
        same = np.isclose(C[t], prev, rtol=1e-9, atol=1e-12).all(1)
        if t:
            mon.check(np.array_equal(same, L[t] == L[t - 1]) or np.array_equal(same | (L[t] == L[t - 1]), same),
                      "a walker that stays changes its density", run=what, step=t)
            mon.check(np.all(L[t][same] == L[t - 1][same]), "a walker that stays changes its density", run=what, step=t)
        mon.saw("stayed", same.sum())
        mon.saw("moved", (~same).sum())
    # densities
    todo = [(t, w) for t in range(lo, lo + n) for w in range(nw)]
    for j in rng.permutation(len(todo))[:14]:
        t, w = todo[j]
        x = C[t, w]
        want = ref.lprob(x, temp=temp, use_prior_transform=False)
        mon.close_to(L[t, w], want, "stored density is not the posterior at the stored draw", tol=1e-7, run=what,
                     at=x, step=int(t), walker=int(w))
        if np.isfinite(L[t, w]):
            mon.check(np.isfinite(logprior(prior, x)), "a draw outside the prior", at=x, run=what)
        mon.saw("draws recomputed")
    # the mode
    if temp == 1:
        k = tune if tune is not None else int(n / 5)
        Lt, Ct = L[-k:], C[-k:]
        i = np.unravel_index(np.argmax(Lt), Lt.shape)
        fx = np.asarray(m.get_par("mode", full=False), float)
        mon.close_to(fx, Ct[i], "the mode is not the best draw", tol=1e-9, run=what, tune=k)
        mon.close_to(m.fdict["mode_f"], Lt[i], "density of the mode", tol=1e-9, run=what)
        full = np.asarray(m.get_par("mode"), float)
        ix = [list(map(str, m.parameters)).index(p) for p in prior]
        mon.close_to(full[ix], Ct[i], "the mode in all parameters", tol=1e-9)
        mon.close_to(m.get_par("best", full=False), Ct[i], "the best known parameters are not the mode", tol=1e-9)
        mon.saw("mode")
        if k:
            mon.check(int(m.get_tune) == k, "number of periods kept", got=m.get_tune, want=k)
    mon.saw("runs")
    return C, L


def case(mon, rng, i):
    c = square_case(mon, rng, features={"no_zeros", "all_priors"} if i % 2 else {"no_zeros"})
    tm = c.tm
    linear = bool(i % 6 != 4)
    trans = bool(rng.random() < .5)
    pool = i % 15 == 7
    T = int(rng.integers(4, 9))
    d = simulate_obs(c, rng, T)
    Rm = np.diag((d.std().to_numpy() + .05) ** 2 * .05)
    N = int(rng.integers(8, 14))
    ref = prepare(c.path, d, linear, False, N, nocache=True, Rm=Rm)
    m = prepare(c.path, d, linear, trans, N, ncores=2 if pool else 0, Rm=Rm)
    prior = {str(a): b for a, b in m.prior.items()}
    nd = len(prior)
    nw = 2 * nd + 2 + 2 * int(rng.integers(3))
    n = int(rng.integers(4, 9))
    # initial states near known good points
    ix = [tm.parameters.index(p) for p in prior]
    P0 = []
    for _ in range(40 * nw):
        if len(P0) == nw:
            break
        x = np.array(gen.perturb(rng, tm))[ix]
        if np.isfinite(ref.lprob(x)):
            P0.append(x)
    if len(P0) < nw:
        raise IllConditioned("no initial states")
    P0 = np.array(P0)
    keep = P0.copy()
    temp = 1
    kw = {}
    start = str(rng.choice(["given", "given", "given", "default"]))
    if i % 5 == 3:
        start = "given"
        temp = 0 if i % 10 == 3 else float(rng.choice([.3, .05]))
        kw["temp"] = temp
        mon.saw("tempered")
        if not temp:
            mon.saw("prior only")
    tune = int(rng.integers(1, n + 1)) if rng.random() < .7 else None
    where = str(rng.choice(["memory", "default", "file"]))
    if where == "memory":
        backend = False
    elif where == "default":
        backend = True
    else:
        backend = mon.path("c%d.h5" % i)
    if start == "given":
        kw["p0"] = P0
        mon.saw("given initial states")
    else:
        kw["nwalks"] = nw
        mon.saw("default initial states")
    if trans:
        mon.saw("transformed")
    if not linear:
        mon.saw("nonlinear")
    if pool:
        mon.saw("pooled")
    seed = int(rng.integers(1000))
    what = dict(start=start, where=where, trans=trans, linear=linear, temp=temp, tune=tune, pool=bool(pool))
    np.random.seed(1)
    p_start = P0 if start == "given" else None
    try:
        go(mon, m, nsteps=n, tune=tune, seed=seed, backend=backend, verbose=False, **kw)
    except ValueError as ex:
        # the initial values of the file need not be admissible
        if start == "default" and ("Probability function returned" in str(ex) or "Initial state" in str(ex)):
            mon.saw("default initial states refused")
            return
        raise
    mon.check(np.array_equal(P0, keep), "mcmc changes the initial states it is given")
    C, L = judge(mon, m, ref, prior, 0, n, nw, p_start, temp, rng, tune, what)
    mon.case(sig=(i, "run"), sample=dict(what, walkers=nw, steps=n, dims=nd))
    if start == "default":
        # all start close to the initial values
        init = np.array([float(v[0]) if len(v) == 6 else tm.calib[tm.parameters.index(p)] for p, v in prior.items()])
        mon.check(len(np.unique(C[0][:, 0])) > 1, "all walkers start from one point")
        near = np.abs(C[0] / init - 1).max(1)
        mon.check(np.median(near) < .5, "walkers do not start near the initial values", got=near)
    # again: the same
    if rng.random() < .6:
        np.random.seed(99)
        np.random.standard_normal(7)
        q = prepare(c.path, d, linear, trans, N, Rm=Rm)
        q.lprob(inverse(prior, P0[0]) if trans else P0[0])
        b2 = False
        go(mon, q, nsteps=n, tune=tune, seed=seed, backend=b2, verbose=False, **kw)
        mon.close_to(np.asarray(q.get_chain()), C, "the same run with the same seed gives another chain", tol=1e-9,
                     run=what)
        mon.close_to(np.asarray(q.get_log_prob()), L, "the same run with the same seed gives other densities", tol=1e-9,
                     run=what)
        mon.saw("repeated")
        mon.case(sig=(i, "again"))
    # a tempered run is about another density: the mode stays
    if temp == 1 and i % 3 == 0:
        fx, ff = np.array(m.get_par("mode", full=False), float), float(m.fdict["mode_f"])
        go(mon, m, p0=P0, nsteps=3, tune=2, seed=seed, backend=False, verbose=False, temp=float(rng.choice([.2, .7])))
        mon.check(np.array_equal(m.get_par("mode", full=False), fx) and m.fdict["mode_f"] == ff,
                  "a tempered run replaces the mode", run=what)
        mon.saw("tempered")
        go(mon, m, nsteps=n, tune=tune, seed=seed, backend=backend, verbose=False, **kw)
        if start == "given":
            mon.close_to(np.asarray(m.get_chain()), C, "a run after a tempered one gives another chain", tol=1e-9,
                         run=what)
        else:
            C, L = judge(mon, m, ref, prior, 0, n, nw, None, temp, rng, tune, what)
    # files
    # files
    if where != "memory":
        f = backend if where == "file" else os.path.join(os.path.dirname(c.path), "%s_sampler.h5" % tm.name)
        mon.check(os.path.exists(f), "no file with the chain", want=f, run=what)
        q = prepare(c.path, d, linear, trans, N, Rm=Rm)
        k2 = {} if where == "default" else dict(backend_file=f)
        mon.close_to(np.asarray(q.get_chain(**k2)), C, "the chain in the file is another one", tol=1e-12, run=what)
        mon.close_to(np.asarray(q.get_log_prob(**k2)), L, "the densities in the file are others", tol=1e-12, run=what)
        af = np.asarray(q.get_chain(get_acceptance_fraction=True, **k2), float)
        mon.check(af.shape == (nw,) and (af >= 0).all() and (af <= 1).all(), "acceptance fractions", got=af)
        if start == "given":
            prev = np.concatenate((P0[None], C[:-1]))
            mv = (~np.isclose(C, prev, rtol=1e-9, atol=1e-12).all(2)).mean(0)
            mon.close_to(af, mv, "acceptance fractions are not those of the chain", tol=1e-9, run=what)
        mon.saw("from file")
        if where == "file":
            # a saved model knows where its chain is
            from pydsge import DSGE
            g = mon.path("s%d" % i)
            m.save(g, verbose=False)
            z = DSGE.load(g + ".npz", verbose=False)
            mon.close_to(np.asarray(z.get_chain()), C, "a loaded model has another chain", tol=1e-12, run=what)
            mon.close_to(np.asarray(z.get_log_prob()), L, "a loaded model has other densities", tol=1e-12, run=what)
            mon.check(z.get_tune == m.get_tune, "a loaded model keeps another part of the chain", run=what)
            mon.saw("from file after loading")
        if temp == 1 and rng.random() < .75:
            n2 = int(rng.integers(2, 6))
            t2 = int(rng.integers(1, n2 + 2))
            np.random.seed(4)
            go(mon, m, nsteps=n2, tune=t2, seed=seed + 1, resume=True, backend=True if where == "default" else f,
                   verbose=False)
            C2, L2 = judge(mon, m, ref, prior, n, n2, nw, None, temp, rng, t2, dict(what, resumed=True), old=(C, L))
            mon.saw("resumed")
            mon.case(sig=(i, "resumed"))
            if rng.random() < .5:
                n3 = 3
                go(mon, m, p0=P0, nsteps=n3, tune=3, seed=3, append=True, backend=True if where == "default" else f,
                       verbose=False)
                C3 = np.asarray(m.get_chain())
                mon.check(np.array_equal(C3[:n + n2], C2), "appending changes what was stored")
                judge(mon, m, ref, prior, n + n2, n3, nw, None, temp, rng, 3, dict(what, appended=True), old=(C2, L2))
                mon.saw("appended")
                mon.case(sig=(i, "appended"))
        # started over: nothing of the old chain is left
        if rng.random() < .4:
            go(mon, m, p0=P0, nsteps=2, tune=2, seed=8, backend=True if where == "default" else f, verbose=False)
            judge(mon, m, ref, prior, 0, 2, nw, P0, 1, rng, 2, dict(what, over=True))
            mon.saw("started over")
            mon.case(sig=(i, "over"))
