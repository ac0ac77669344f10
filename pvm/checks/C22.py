"""How the work is spread over threads and processes, and what was done before, does not show in results."""
import numpy as np
from ..harness import *
from .C14 import vectors

CASES = {"quick": 24, "thorough": 400}
WORKERS = 3
RULE = ("a case is a random sequence of operations (responses, simulations, extractions, prior draws, likelihoods, "
        "parameter changes, new pools, failing calls) carried out side by side by a model that spreads its work over "
        "processes and one that does not, and the preprocessing of the model in threads and without; an evaluation is "
        "one operation whose results are compared; the bounds of all arrays in compiled code are checked throughout; "
        "non-trivial: the operation was spread over several processes or threads")
MIN = {"operations": 50, "responses": 10, "simulations": 10, "extractions": 5, "prior draws": 5, "likelihoods": 5,
       "failures": 5, "new pools": 5, "threads": 20, "repeated": 40, "after a failure": 8}


def outcome(f):
    try:
        return "ok", f()
    except Exception as e:
        return "failed", type(e).__name__


def agree(mon, a, b, what, **kw):
    mon.check(a[0] == b[0], what + ": works in one way only", spread=str(a[1])[:300] if a[0] != "ok" else "ok",
              alone=str(b[1])[:300] if b[0] != "ok" else "ok", **kw)
    if a[0] != "ok":
        mon.saw("failures")
        return False

    def rec(x, y, at):
        if isinstance(x, dict):
            mon.check(set(x) == set(y), what + ": other entries", **kw)
            for k in x:
                rec(x[k], y[k], at + "/" + str(k))
        elif isinstance(x, (tuple, list)):
            mon.check(len(x) == len(y), what + ": other number of results", **kw)
            for j, (p, q) in enumerate(zip(x, y)):
                rec(p, q, at + "/%d" % j)
        else:
            mon.close_to(np.asarray(x, float), np.asarray(y, float), what + " depends on how the work is spread",
                         tol=1e-9, result=at, **kw)
    rec(a[1], b[1], "")
    return True


def threads(mon, rng):
    c = draw_case(mon, rng, values=rng.random() < .5)
    m, tm = c.mod, c.tm
    here = np.array(m.get_par(), float)
    l, k = int(rng.integers(2, 6)), int(rng.integers(0, 30))
    q = read(c.path, nocache=True)
    q.set_par(here, l_max=l, k_max=k)
    sd = shock_std(c)
    first = None
    E = rng.standard_normal((8, len(sd))) * sd * 2
    for rep in range(4):
        m.set_par(here, l_max=l, k_max=k, parallel=True)
        mon.check([str(v) for v in m.vv] == [str(v) for v in q.vv], "order of variables")
        st = np.zeros(len(m.vv))
        out = []
        for e in E:
            a, b = m.t_func(st, e, return_k=True), q.t_func(st, e, return_k=True)
            mon.close_to(a[0], b[0], "preprocessing in threads gives another transition", tol=1e-9, model=c.text,
                         horizons=(l, k))
            mon.check(tuple(a[1]) == tuple(b[1]) and a[2] == b[2], "preprocessing in threads gives other durations",
                      got=(a[1], a[2]), want=(b[1], b[2]), model=c.text, horizons=(l, k))
            # all laws, not only those on the path
            gl, gk = int(rng.integers(0, l + 2)), int(rng.integers(0, k + 1))
            a, b = m.t_func(st, e, set_k=(gl, gk)), q.t_func(st, e, set_k=(gl, gk))
            sz = np.abs(b[0]).max()
            if np.isfinite(sz) and sz < 1e6:
                mon.close_to(a[0], b[0], "preprocessing in threads gives another transition", tol=1e-8, scale=1 + sz,
                             durations=(gl, gk), model=c.text)
            st = q.t_func(st, e)[0]
            out.append(st)
        s = np.hstack((st[len(st) - m.dimq + m.dimeps:], E[0]))
        tr = m.traj(s, verbose=False)
        mon.close_to(tr, q.traj(s, verbose=False), "expected path of the constraint depends on threads", tol=1e-8,
                     scale=1 + np.abs(tr).max())
        if first is not None:
            mon.check(np.array_equal(first, tr), "repeating gives another expected path")
        first = tr
        mon.saw("threads")
        mon.saw("repeated", len(E))
        mon.case(sig=(c.text, l, k), sample=dict(l_max=l, k_max=k))
        l, k = l, k


def case(mon, rng, i):
    if i % 3 == 2:
        for _ in range(3):
            threads(mon, rng)
        return
    c = square_case(mon, rng)
    tm = c.tm
    linear = bool(i % 2)
    T = int(rng.integers(5, 9))
    d = simulate_obs(c, rng, T)
    Rm = np.diag((d.std().to_numpy() + .05) ** 2 * .05)
    seed = int(rng.integers(100))
    pair = []
    for nc in (2, 0):
        q = read(c.path, nocache=True)
        q.set_par("calib")
        q.load_data(d)
        q.prep_estim(linear=linear, N=20, seed=seed, ncores=nc, verbose=False, dry_run=False)
        q.filter.R = Rm
        q.set_par("calib")
        pair.append(q)
    m, s = pair
    mon.check(m.pool is not None and s.pool is None, "no pool although one was requested, or one that was not")
    c.sync()
    cal = np.array(tm.calib)
    vs = [np.array(v) for v, _ in vectors(rng, c, 4)] + [cal]
    sd = shock_std(c)
    ne, nx = len(sd), len(m.vv)
    # parameters without a solution
    bad = None
    for _ in range(20):
        v = np.array(gen.perturb(rng, tm)) * rng.choice([1., 3., -2.], len(cal))
        q = read(c.path)
        if outcome(lambda: q.set_par(v))[0] == "failed":
            bad = v
            break
    ops = ["irfs", "simulate", "prior", "lprob", "fail", "set_par", "pool", "irfs", "simulate", "extract"]
    if i % 6 == 0:
        ops.append("extract")
    ops = [ops[j] for j in rng.permutation(len(ops))][:8]
    if "extract" in ops:                    # afterwards the pool has to be opened again
        ops.insert(ops.index("extract") + 1, str(rng.choice(["irfs", "irfs", "simulate", "prior"])))
    failed = False
    names = [str(v) for v in m.prior]
    try:
        for op in ops:
            n = int(rng.integers(2, 6))
            P = np.array([vs[int(j)] for j in rng.integers(0, len(vs), n)])
            kw = dict(operation=op, sequence=ops, linear=linear, model=c.text)
            fc = failed
            if op == "irfs":
                sh = (str(rng.choice(tm.shocks)), float(2 * sd.max()), int(rng.integers(2)))
                Q = P
                if bad is not None and rng.random() < .3:
                    Q = P.copy()
                    Q[int(rng.integers(n))] = bad
                f = [lambda q=q: q.irfs(sh, pars=Q, T=6, linear=linear, verbose=False) for q in pair]
                mon.saw("responses")
            elif op == "simulate":
                E = rng.standard_normal((n, 6, ne)) * sd * 1.5
                f = [lambda q=q: q.simulate(dict(pars=P, resid=E, init=np.zeros((n, nx))), linear=linear) for q in pair]
                mon.saw("simulations")
            elif op == "extract":
                Pn = P[:2] if not linear else P
                f = [lambda q=q: q.extract(Pn, seed=seed, verbose=False) for q in pair]
                mon.saw("extractions")
            elif op == "prior":
                sd_ = int(rng.integers(1000))
                f = [lambda q=q: q.prior_sampler(n, seed=sd_, max_attempts=1000, verbose=False) for q in pair]
                mon.saw("prior draws")
            elif op == "lprob":
                x = P[0][[tm.parameters.index(p) for p in names]]
                f = [lambda q=q: q.lprob(x) for q in pair]
                mon.saw("likelihoods")
            elif op == "fail":
                # innovations of another length
                E = rng.standard_normal((n, 4, ne + 1))
                f = [lambda q=q: q.simulate(dict(pars=P, resid=E, init=np.zeros((n, nx)))) for q in pair]
                failed = True
            elif op == "pool":
                k = int(rng.choice([1, 2, 3]))
                m.create_pool(k)
                mon.saw("new pools")
                continue
            else:
                f = [lambda q=q: q.set_par(P[0]) for q in pair]
            a, b = [outcome(g) for g in f]
            if op == "extract" and not linear and a[0] == b[0] == "ok":
                fa, fb = a[1].pop("flags"), b[1].pop("flags")
            agree(mon, a, b, op, **kw)
            mon.saw("operations")
            if fc and op != "fail":
                mon.saw("after a failure")
            mon.case(sig=(c.text, op, linear), sample=dict(sequence=ops, linear=linear))
            # extraction and likelihood leave their parameters behind
            if op in ("extract", "lprob"):
                for q in pair:
                    q.set_par(cal)
    finally:
        for q in pair:
            if getattr(q, "pool", None):
                q.pool.close()
                q.pool.terminate()
                q.pool = None
