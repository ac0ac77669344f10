"""Answers follow from the values of the inputs: not from memory, compilation, hashing, layout or type."""
import json
import os
import subprocess
import sys
import numpy as np
import pandas as pd
from ..harness import *

CASES = {"quick": 4, "thorough": 200}
RULE = ("a case is two models whose answers to one list of questions are computed in processes that differ in what must "
        "not matter (contents of fresh memory, bounds checks, compiled or interpreted, hash seeds, threads, working "
        "directory), and one model that is asked with the same values in arrays of other layout or type; an evaluation is one "
        "answer compared; non-trivial: it has numbers")
ASSUMES = ["fresh memory is poisoned by glibc (MALLOC_PERTURB_ with PYTHONMALLOC=malloc); small blocks that numpy keeps "
           "for itself hold what was there before",
           "another container or type may be refused with an error, but must not give another answer"]
MIN = {"answers": 1000, "interpreted": 300, "poisoned": 300, "layouts": 500, "refused": 10, "binding": 6,
       "nonlinear": 20, "extractions": 10, "chains": 4, "unaligned": 10}
TOL = {"poisoned": 1e-9, "interpreted": 1e-6}
SURR = {"base": dict(MALLOC_PERTURB_="165", PYTHONMALLOC="malloc", PYTHONHASHSEED="1"),
        "poisoned": dict(MALLOC_PERTURB_="128", PYTHONMALLOC="malloc", PYTHONHASHSEED="4711", NUMBA_NUM_THREADS="2"),
        "interpreted": dict(NUMBA_DISABLE_JIT="1", MALLOC_PERTURB_="37", PYTHONHASHSEED="99")}


def job(mon, rng, i):
    sq = i % 2 == 0
    c = square_case(mon, rng, features={"no_zeros"}) if sq else any_case(mon, rng, 9 if i else 0)
    m, tm = c.mod, c.tm
    lk = [int(rng.integers(2, 5)), int(rng.integers(2, 14))]
    sd = shock_std(c)
    ne = len(tm.shocks)
    states = [{str(v): float(x) for v, x in zip(m.vv, rng.standard_normal(len(m.vv)) * .3)} for _ in range(4)]
    P = [list(map(float, tm.calib))]
    v = gen.perturb(rng, tm)
    try:
        Reference(tm, v)
        P.append(list(map(float, v)))
    except (Indeterminate, Unstable, IllConditioned):
        pass
    irfs = []
    for _ in range(2):
        j = int(rng.integers(ne))
        irfs.append([[tm.shocks[j], float(sd[j] * rng.choice([-6, -4, 4])), 0]])
    out = dict(path=c.path, lk=lk, states=states, shocks=(rng.standard_normal((4, ne)) * sd * 3).tolist(), irfs=irfs,
               pars=P, resid=(rng.standard_normal((len(P), 6, ne)) * sd * 2.5).tolist())
    if sq:
        d = simulate_obs(c, rng, 6, scale=1.5, linear=False)
        if np.isfinite(d.to_numpy()).all() and d.std().min() > 1e-3:
            est = [str(p) for p in m.prior]
            pts = []
            for _ in range(2 * len(est) + 4):
                w = dict(zip(tm.parameters, gen.perturb(rng, tm)))
                pts.append([float(w[p]) for p in est])
            out.update(data=d.to_numpy().tolist(), obs=list(tm.observables), points=pts[:3], p0=pts[:2 * len(est) + 2])
    return out


def surroundings(mon, rng, i):
    jobs = [job(mon, rng, 2 * i), job(mon, rng, 2 * i + 1)]
    f = mon.path("jobs%d.json" % i)
    with open(f, "w") as h:
        json.dump(jobs, h)
    procs = {}
    for k, e in SURR.items():
        env = dict(os.environ, **e)
        cwd = mon.path("cwd_%d_%s" % (i, k))
        os.mkdir(cwd)
        procs[k] = subprocess.Popen([sys.executable, "-m", "pvm.child26", f, f + "." + k], env=env, cwd=cwd,
                                    stdout=subprocess.DEVNULL, stderr=open(f + ".err" + k, "w"))
    for k, p in procs.items():
        try:
            p.wait(400)
        except subprocess.TimeoutExpired:
            p.kill()
            raise
        err = open(f + ".err" + k).read()[-1500:]
        mon.check(p.returncode == 0, "a process died", surroundings=k, exit=p.returncode, err=err)
    res = {k: json.load(open(f + "." + k)) for k in SURR}
    for n, jb in enumerate(jobs):
        a = res["base"][n]
        mon.check("failed" not in a, "failed", trace=a.get("failed"))
        for k in ("poisoned", "interpreted"):
            b = res[k][n]
            mon.check("failed" not in b, "failed in other surroundings", by=k, trace=b.get("failed"))
            mon.check(set(a) == set(b), "other answers in other surroundings", by=k, differ=sorted(set(a) ^ set(b)))
            for q in a:
                if isinstance(a[q], str) or isinstance(b[q], str):
                    mon.check(a[q] == b[q], "other answer in other surroundings", by=k, question=q, got=b[q], want=a[q])
                    continue
                x, y = (np.array(z[q][1]).reshape(z[q][0]) for z in (a, b))
                mon.close_to(y, x, "other answer in other surroundings", tol=TOL[k], by=k, question=q,
                             model=open(jb["path"]).read(), lk=jb["lk"])
                mon.saw("answers")
                mon.saw(k)
                mon.saw("binding", int(q.startswith("step") and q.endswith("/1/1") and float(x) > 0))
                mon.saw("nonlinear", int(q.startswith("non")))
                mon.saw("extractions", int(q.endswith("extract/resid")))
                mon.saw("chains", int(q == "chain/0"))
                mon.case(sig=(i, n, k, q))


def variants(rng, a):
    a = np.asarray(a, float)
    yield "fortran", np.asfortranarray(a.copy()), True
    big = np.full(tuple(2 * s for s in a.shape), np.nan)
    big[tuple(slice(None, None, 2) for _ in a.shape)] = a
    yield "strided", big[tuple(slice(None, None, 2) for _ in a.shape)], True
    yield "reversed", a[::-1].copy()[::-1], True
    r = a.copy()
    r.flags.writeable = False
    yield "read-only", r, True
    b = np.empty(a.size * 8 + 3, np.uint8)[3:].view(float).reshape(a.shape)
    b[...] = a
    yield "unaligned", b, True
    yield "list", a.tolist(), False
    yield "tuple", tuple(a.tolist()), False
    if a.ndim == 1:
        yield "series", pd.Series(a), False
        yield "series by name", pd.Series(a, index=["x%d" % j for j in range(len(a))][::-1]), False
    yield "single", a.astype(np.float32), False
    yield "integer", a.astype(int), False
    yield "object", a.astype(object), False
    yield "big-endian", a.astype(">f8"), False


def layout(mon, rng, i):
    c = square_case(mon, rng, features={"no_zeros"})
    m, tm = c.mod, c.tm
    d = simulate_obs(c, rng, 6)
    if not np.isfinite(d.to_numpy()).all() or d.std().min() < 1e-3:
        raise IllConditioned("data")
    m.load_data(d)
    nx, ne = len(m.vv), len(tm.shocks)
    sd = shock_std(c)
    from ..run import importlib          # noqa
    from ..child26 import flat

    def vec(*s, scale=1.):
        # exact in single precision; whole numbers now and then
        x = np.round(rng.standard_normal(s) * scale * 64) / 64
        return np.round(x) if rng.random() < .3 else x
    P = np.array(tm.calib, float)
    P2 = np.array([P, P])
    w = vec(m.dimq - m.dimeps + ne)
    st, e, X = vec(nx), vec(ne, scale=2), vec(4, nx)
    E = vec(2, 5, ne)
    I = vec(2, nx)
    mk = np.full((5, ne), np.nan)
    mk[:, 0] = 0
    s0 = [(tm.shocks[0], float(-4 * sd[0]))]
    m.prep_estim(linear=True, seed=0, ncores=0, verbose=False, dry_run=False)
    R0 = np.diag((d.std().to_numpy() + .05) ** 2 * .1)
    m.filter.R = R0
    x = np.array([tm.calib[tm.parameters.index(str(p))] for p in m.prior], float)
    A = vec(nx, nx)

    def with_R(v):
        m.filter.R = v
        try:
            return m.lprob(x)
        finally:
            m.filter.R = R0

    def setp(v):
        m.set_par(v)
        return m.get_par(), m.t_func(st, e)
    ops = [("state", lambda v: m.t_func(v, e, return_k=True), st), ("shock", lambda v: m.t_func(st, v, return_k=True), e),
           ("linear", lambda v: m.t_func(v, e, linear=True), st), ("with observables", lambda v: m.t_func(v, e, get_obs=True), st),
           ("obs", m.obs, st), ("obs of many", m.obs, X),
           ("initial state", lambda v: m.irfs(s0, T=4, state=v, verbose=False), st),
           ("irfs at", lambda v: m.irfs(s0, v, T=4, verbose=False), P), ("irfs at two", lambda v: m.irfs(s0, v, T=4, verbose=False), P2),
           ("set_par", setp, P), ("resid", lambda v: m.simulate(pars=P2, resid=v, init=I), E),
           ("init", lambda v: m.simulate(pars=P2, resid=E, init=v), I), ("pars", lambda v: m.simulate(pars=v, resid=E, init=I), P2),
           ("mask", lambda v: m.simulate(pars=P2, resid=E, init=I, mask=v), mk),
           ("traj", lambda v: m.traj(v, verbose=False), w), ("k_map", lambda v: m.k_map(v, verbose=False), w),
           ("get_par", lambda v: m.get_par(npar=v), P), ("get_cov", lambda v: m.get_cov(npar=v), P),
           ("lprob", m.lprob, x), ("lprior", m.lprior, x), ("par_fix", lambda v: m.lprob(x, par_fix=v), P),
           ("noise", with_R, R0 * 0 + np.eye(ne) * .5),
           ("extract", lambda v: m.extract(v, verbose=False), P), ("extract two", lambda v: m.extract(v, verbose=False), P2),
           ("initial covariance", lambda v: m.run_filter(init_cov=v), A @ A.T)]
    for name, f, a in ops:
        a = np.asarray(a, float)
        m.filter.init_cov = None
        m.set_par("calib")
        want = {}
        flat(f(a.copy()), "", want)
        for kind, v, must in variants(rng, a):
            if kind in ("integer", "single") and not np.array_equal(np.asarray(v, float), a, equal_nan=True):
                continue
            m.filter.init_cov = None
            m.set_par("calib")
            got = {}
            try:
                r = f(v)
            except Exception as ex:
                mon.check(not must, "an array of another layout is refused", question=name, layout=kind, err=str(ex))
                mon.saw("refused")
                continue
            flat(r, "", got)
            if not must and name in ("lprob", "par_fix", "noise") and got[""] == -np.inf:
                mon.saw("refused")          # how a posterior says no
                continue
            mon.check(set(got) == set(want), "another kind of answer to the same values", question=name, layout=kind)
            for q in want:
                if isinstance(want[q], str):
                    mon.check(got[q] == want[q], "another answer to the same values", question=name, layout=kind)
                else:
                    mon.close_to(got[q], want[q], "another answer to the same values", tol=1e-9, question=name, layout=kind)
            mon.saw("layouts")
            mon.saw(kind)
            mon.case(sig=(i, name, kind))
    m.filter.init_cov = None


def case(mon, rng, i):
    surroundings(mon, rng, i)
    if i % 3 == 0:
        layout(mon, rng, i)
