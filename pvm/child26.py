"""Works through a list of models and stores what they answer (started by C26 in different surroundings)."""
import json
import sys
import traceback
import warnings

import numpy as np
import pandas as pd


def flat(x, pre, out):
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            flat(x[k], pre + "/" + str(k), out)
    elif isinstance(x, pd.DataFrame):
        for k in sorted(x.columns, key=str):
            flat(x[k].to_numpy(), pre + "/" + str(k), out)
    elif isinstance(x, pd.Series):
        flat({str(k): v for k, v in x.items()}, pre, out)
    elif isinstance(x, (list, tuple)):
        for k, y in enumerate(x):
            flat(y, pre + "/%d" % k, out)
    elif isinstance(x, np.ndarray) and x.dtype == object:
        try:
            out[pre] = np.array(x, float)
        except (TypeError, ValueError):
            flat(list(x.ravel()), pre, out)
    elif isinstance(x, (np.ndarray, float, int, np.floating, np.integer, np.bool_)) and not isinstance(x, str):
        a = np.asarray(x)
        if a.dtype.kind in "fciub":
            out[pre] = np.array(a, float)
    elif isinstance(x, str):
        out[pre] = x


def work(m, job, out):
    """all kinds of questions with inputs by name"""
    def put(name, f):
        try:
            flat(f(), name, out)
        except Exception as e:
            out[name] = "refused: " + type(e).__name__
    m.set_par("calib", l_max=job["lk"][0], k_max=job["lk"][1])
    vv = [str(v) for v in m.vv]
    sh = [str(s) for s in m.shocks]
    out["names"] = json.dumps([vv, sh, [str(o) for o in m.observables], [str(p) for p in m.parameters]])

    def st(d):
        return np.array([d.get(v, 0.) for v in vv])
    X0 = np.array([st(d) for d in job["states"]])
    E = np.array(job["shocks"])
    put("cov", lambda: m.get_cov())
    for i in range(len(X0)):
        put("step%d" % i, lambda: m.t_func(X0[i].copy(), E[i].copy(), return_k=True))
        put("linear%d" % i, lambda: m.t_func(X0[i].copy(), E[i].copy(), linear=True))
        put("forced%d" % i, lambda: m.t_func(X0[i].copy(), E[i].copy(), set_k=(i % 2, 1 + i % 2), return_k=True))
        put("obs%d" % i, lambda: m.obs(X0[i].copy()))
        w = np.hstack((X0[i][len(vv) - m.dimq + m.dimeps:], E[i]))
        put("traj%d" % i, lambda: m.traj(w.copy(), verbose=False))
        put("map%d" % i, lambda: m.k_map(w.copy(), verbose=False))
    for i, l in enumerate(job["irfs"]):
        put("irfs%d" % i, lambda: m.irfs([tuple(s) for s in l], T=8, verbose=False))
    P = np.array(job["pars"])
    R = np.array(job["resid"])
    for lin in (False, True):
        put("simulate%d" % lin, lambda: m.simulate(pars=P, resid=R, init=X0[:len(P)].copy(), linear=lin))
    put("prior", lambda: m.prior_sampler(3, seed=4, verbose=False, filterwarnings="ignore"))
    if not job.get("data"):
        return
    d = pd.DataFrame(job["data"], columns=job["obs"], index=pd.date_range("1990-03-31", periods=len(job["data"]), freq="QE"))
    m.load_data(d)
    for lin in (True, False):
        k = "lin" if lin else "non"
        m.prep_estim(linear=lin, N=10, seed=3, ncores=0, verbose=False, dry_run=False)
        m.filter.R = np.diag((d.std().to_numpy() + .05) ** 2 * .1)
        for i, x in enumerate(job["points"]):
            put(k + "lprob%d" % i, lambda: m.lprob(x))
            put(k + "lprior%d" % i, lambda: m.lprior(x))
        m.set_par("calib")
        if lin:
            put(k + "filter", lambda: [q for q in m.run_filter(smoother=True)])
        put(k + "ll", lambda: m.get_ll())
        e = {}

        def ex():
            e.update(m.extract(seed=2, verbose=False))
            return e
        put(k + "extract", ex)
        if e:
            put(k + "nhd", lambda: m.nhd(dict(e), linear=lin))
            put(k + "gfevd", lambda: m.gfevd(dict(e), horizon=2, nsamples=3, seed=1, linear=lin, verbose=False))
        if lin:
            def chain():
                m.mcmc(p0=np.array(job["p0"]), nsteps=3, tune=2, seed=1, backend=False, verbose=False)
                return [np.array(m.get_chain()), np.array(m.get_log_prob()), m.get_par("mode", full=False)]
            m.prep_estim(linear=True, seed=3, ncores=0, verbose=False, dry_run=False)
            m.filter.R = np.diag((d.std().to_numpy() + .05) ** 2 * .1)
            if job.get("p0"):
                put("chain", chain)


def main():
    import contextlib
    import io
    jobs = json.load(open(sys.argv[1]))
    from pydsge import DSGE
    res = []
    for job in jobs:
        out = {}
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                np.random.seed(1)
                m = DSGE.read(job["path"])
                work(m, job, out)
        except Exception:
            out["failed"] = traceback.format_exc()[-1500:]
        res.append({k: (v if isinstance(v, str) else [list(v.shape), v.ravel().tolist()]) for k, v in out.items()})
    json.dump(res, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    import os
    os._exit(0)
