"""What is saved is what is loaded; what is read is what is in the file now."""
import json
import os
import shutil
import subprocess
import sys
import numpy as np
import pandas as pd
from ..harness import *
from .C08 import replay, shock_matrix

CASES = {"quick": 24, "thorough": 400}
RULE = ("a case is one model saved at some point of its life (just read, solved, with data, prepared for estimation, "
        "with a mode) and loaded again in this process (parsed again or not) and in another one, with its files gone; "
        "results stored and fetched along all kinds of paths; and files that change between two reads; an evaluation "
        "is one load, fetch or re-read, judged by the independent solution of the text that was saved or is in the "
        "file now, and by the likelihood before; non-trivial: something was changed or removed in between")
MIN = {"loaded here": 20, "loaded elsewhere": 4, "likelihood": 8, "nonlinear likelihood": 2, "results": 20,
       "changed files": 40, "functions changed": 5, "mode": 2, "without files": 5, "saved before": 8}

PROBE = r'''
import sys, json, io, contextlib, warnings
warnings.simplefilter("ignore")
a = json.loads(sys.argv[1])
with contextlib.redirect_stdout(io.StringIO()):
    import numpy as np
    from pydsge import DSGE
    m = DSGE.load(a["path"], force_parse=a["force"])
    out = dict(name=m.name, description=str(m.description), par=[str(p) for p in m.parameters],
               shocks=list(map(str, m.shocks)), obs=list(map(str, m.observables)))
    m.set_par("calib")
    out["calib"] = list(map(float, m.get_par()))
    X, LK, fl = m.irfs([tuple(s) for s in a["shocks"]], T=a["T"], verbose=False)
    out["vv"] = list(map(str, m.vv))
    out["X"], out["LK"], out["fl"] = X.to_numpy().tolist(), np.array(LK).tolist(), int(fl)
    if a["x"] is not None:
        m.prep_estim(load_R=True, ncores=0, verbose=False)
        out["lprob"] = float(m.lprob(a["x"]))
        out["data"] = m.data.to_numpy().tolist()
        out["index"] = [str(t) for t in m.data.index]
json.dump(out, sys.stdout)
'''


def look(mon, c, out, X, shocks, T, what, funcs=None):
    """a loaded model by what it says of itself and by its responses"""
    tm = c.tm
    mon.check(out["par"] == list(tm.parameters) and out["shocks"] == list(tm.shocks)
              and out["obs"] == list(tm.observables), "a loaded model has other names", by=what, got=out)
    mon.check(out["name"] == tm.name, "a loaded model has another name", by=what, got=out["name"])
    mon.close_to(out["calib"], tm.calib, "a loaded model has another calibration", tol=1e-12, by=what)
    cc = type("C", (), {})()
    cc.__dict__.update(c.__dict__)
    cc.names = [v for v in tm.variables if v in out["vv"]]
    cc.ri = np.array([c.R.ix[v] for v in cc.names])
    cc.lmax, cc.kmax = 3, 17
    replay(mon, cc, pd.DataFrame(np.array(out["X"]), columns=out["vv"]), np.array(out["LK"]), out["fl"],
           shock_matrix(c, shocks, T), np.zeros(c.R.n), False, True, what)


def saved(mon, rng, i):
    from pydsge import DSGE
    sq = i % 3 != 2
    c = square_case(mon, rng, features={"no_zeros"} | ({"funcs_file"} if i % 4 == 1 else set())) if sq else \
        draw_case(mon, rng, features={"funcs_file"} if i % 2 else None)
    tm = c.tm
    stage = ["estim", "read", "solved", "data", "estim", "mode"][int(rng.integers(6)) if i % 6 else 5] if sq else \
        str(rng.choice(["read", "solved"]))
    m = read(c.path)
    if rng.random() < .5:
        m.description = "run %d: it's" % i
    if stage != "read":
        m.set_par("calib")
        m.set_par(tm.parameters[0], tm.calib[0])
    d, x, before, linear = None, None, None, None
    if stage in ("data", "estim", "mode"):
        T = int(rng.integers(4, 12))
        d = simulate_obs(c, rng, T)
        if rng.random() < .3:
            d.index = np.arange(T) + 5
        m.load_data(d)
    if stage in ("estim", "mode"):
        linear = bool(rng.random() < .6)
        m.prep_estim(linear=linear, N=int(rng.integers(8, 20)), seed=int(rng.integers(1, 99)), ncores=0, verbose=False,
                     dry_run=False)
        m.filter.R = np.diag((d.std().to_numpy() + .05) ** 2 * rng.uniform(.02, .2))
        est = [str(p) for p in m.prior]
        for _ in range(10):
            v = dict(zip(tm.parameters, gen.perturb(rng, tm)))
            x = [v[p] for p in est]
            before = m.lprob(x)
            if np.isfinite(before):
                break
        else:
            raise IllConditioned("no point")
    mode = None
    if stage == "mode":
        nd = len(est)
        P0 = np.array(x) * (1 + .001 * rng.standard_normal((2 * nd + 2, nd)))
        m.mcmc(p0=P0, nsteps=3, tune=2, seed=1, backend=False, verbose=False)
        mode = np.array(m.get_par("mode", full=False), float)
    # save, perhaps not for the first time
    if i % 2:
        desc, tune, noise = m.description, getattr(m, "tune", None), None
        m.description = "as it was before"
        if stage in ("estim", "mode"):
            noise = m.filter.R
            m.filter.R = noise * 3
            m.tune = 71
        if d is not None and rng.random() < .5:
            m.load_data(d * 2)
        m.save(mon.path("first%d" % i), verbose=False)
        m.description = desc
        if stage in ("estim", "mode"):
            m.filter.R = noise
            m.tune = 13 + i if tune is None else tune
        if d is not None:
            m.load_data(d)
        mon.saw("saved before")
    kept = getattr(m, "tune", None)
    gone = rng.random() < .6
    if rng.random() < .5:
        f = mon.path("saved %d" % i if rng.random() < .3 else "saved%d" % i)
        m.save(f, verbose=False)
        f += ".npz"
    else:
        m.save(verbose=False)
        f = os.path.join(os.path.dirname(c.path), tm.name + "_meta.npz")
    mon.check(os.path.exists(f), "the saved file is elsewhere", want=f)
    if gone:
        g = mon.path("moved%d.npz" % i)
        shutil.move(f, g)
        f = g
        shutil.rmtree(os.path.dirname(c.path))
        mon.saw("without files")
    T = 9
    j = int(rng.integers(len(tm.shocks)))
    sd = shock_std(c)
    shocks = [(tm.shocks[j], float(-5 * sd[j]), 0), (tm.shocks[0], float(3 * sd[0]), 2)]
    what = dict(stage=stage, gone=bool(gone), funcs=bool(c.spec.funcs), linear=linear)
    for force in (False, True):
        q = DSGE.load(f, force_parse=force)
        out = dict(name=q.name, par=[str(p) for p in q.parameters], shocks=list(map(str, q.shocks)),
                   obs=list(map(str, q.observables)))
        mon.check(str(q.description) == str(m.description), "a loaded model has another description",
                  got=q.description, want=m.description)
        if d is not None:
            mon.check(isinstance(q.data, pd.DataFrame) and q.data.equals(m.data), "loaded data differ", **what)
        if kept is not None:
            mon.check(int(q.get_tune) == kept, "the number of periods kept of a loaded model", got=q.get_tune, want=kept)
        if mode is not None:
            mon.close_to(q.get_par("mode", full=False), mode, "the mode of a loaded model", tol=1e-12)
            mon.check(int(q.get_tune) == 2, "the number of periods kept of a loaded model", got=q.get_tune)
            mon.saw("mode")
        q.set_par("calib")
        out["calib"] = q.get_par()
        X, LK, fl = q.irfs(list(shocks), T=T, verbose=False)
        out.update(vv=list(map(str, q.vv)), X=X.to_numpy(), LK=LK, fl=fl)
        look(mon, c, out, X, shocks, T, dict(what, force=force))
        pr = {str(a): list(b) for a, b in (q.prior or {}).items()}
        mon.check(pr == {str(a): list(b) for a, b in (m.prior or {}).items()}, "loaded priors differ", got=pr)
        if x is not None:
            q.prep_estim(load_R=True, ncores=0, verbose=False, dry_run=bool(rng.random() < .5))
            mon.close_to(q.lprob(x), before, "the likelihood of a loaded model is another one", tol=1e-8, **what)
            mon.saw("likelihood")
            # without preparation a loaded model is prepared as it was
            z = DSGE.load(f, force_parse=force)
            if rng.random() < .5:
                np.random.seed(3)
                got = z.prior_sampler(2, seed=4, check_likelihood=True, verbose=False)
                np.random.seed(3)
                mon.close_to(got, q.prior_sampler(2, seed=4, check_likelihood=True, verbose=False),
                             "draws with a likelihood of a loaded model that is not prepared", tol=1e-9, **what)
            else:
                nw = max(2 * len(x) + 2, 6)
                p0 = np.array([np.array(x) * (1 + 1e-3 * rng.standard_normal(len(x))) for _ in range(nw)])
                try:
                    z.mcmc(p0=p0.copy(), nsteps=2, tune=1, seed=1, backend=False, verbose=False)
                except ValueError as err:
                    if "Probability function returned" not in str(err) and "Initial state" not in str(err):
                        raise
                else:
                    L, C = np.asarray(z.get_log_prob()), np.asarray(z.get_chain())
                    for w in range(0, nw, 3):
                        mon.close_to(L[-1, w], q.lprob(C[-1, w]), "a chain of a loaded model that is not prepared",
                                     tol=1e-8, **what)
            mon.saw("not prepared")
            if not linear:
                mon.saw("nonlinear likelihood")
        mon.saw("loaded here")
        mon.case(sig=(i, force), sample=dict(what, force=force))
    if i % 3 == 0:
        a = dict(path=f, force=bool(rng.random() < .5), shocks=shocks, T=T, x=x)
        r = subprocess.run([sys.executable, "-c", PROBE, json.dumps(a)], capture_output=True, text=True, timeout=300)
        mon.check(r.returncode == 0, "a saved model cannot be loaded elsewhere", err=r.stderr[-1500:], **what)
        out = json.loads(r.stdout[r.stdout.index("{"):])
        look(mon, c, out, None, shocks, T, dict(what, elsewhere=True))
        if x is not None:
            mon.close_to(out["lprob"], before, "the likelihood of a model loaded elsewhere", tol=1e-8, **what)
            mon.close_to(out["data"], m.data.to_numpy(), "data of a model loaded elsewhere", tol=1e-12)
            mon.check(out["index"] == [str(t) for t in m.data.index], "dates of data loaded elsewhere")
        mon.saw("loaded elsewhere")
        mon.case(sig=(i, "elsewhere"))
    return c


def results(mon, rng, i):
    c = draw_case(mon, rng)
    m = read(c.path)
    d = os.path.dirname(c.path)
    n = int(rng.integers(1, 5))
    for t in range(2):
        R = dict(pars=rng.standard_normal((n, 4)), resid=rng.standard_normal((n, 5, 3)), flags=rng.integers(0, 2, n),
                 names=np.array(["a", "bc"]))
        if rng.random() < .4:
            R["none"] = None
            R["d"] = {"x": 1.5}
        k = int(rng.integers(5))
        suffix = str(rng.choice(["", "_v2", "_1.5"]))
        p = [None, "res%d" % t, "res%d.npz" % t, mon.path("abs%d_%d" % (i, t)), mon.path("abs%d_%d.npz" % (i, t))][k]
        kw = dict(suffix=suffix) if suffix else {}
        if p is not None:
            kw["path"] = p
        m.save_rdict(R, verbose=False, **kw)
        # nothing else is touched
        if p and p.endswith(".npz") and suffix:
            kw = dict(path=p[:-4], suffix=suffix)
        G = m.load_rdict(**kw)
        mon.check(set(G) == set(R), "stored results have other entries", got=sorted(G), want=sorted(R), **kw)
        for a, b in R.items():
            g = G[a]
            if isinstance(b, np.ndarray):
                mon.check(np.array_equal(g, b) and g.dtype == b.dtype, "a stored result is another one", entry=a, **kw)
            else:
                mon.check(g.item() == b, "a stored result is another one", entry=a, **kw)
        where = p if p is not None else tm_name(c) + "_res"
        where = where[:-4] if where.endswith(".npz") else where
        full = (where if os.path.isabs(where) else os.path.join(d, where)) + suffix + ".npz"
        mon.check(os.path.exists(full), "results are stored elsewhere", want=full)
        # the last one counts
        S = dict(R, pars=R["pars"] + 1)
        m.save_rdict(S, verbose=False, **kw)
        mon.check(np.array_equal(m.load_rdict(**kw)["pars"], S["pars"]), "stored again, but the old result is loaded")
        mon.saw("results")
        mon.case(sig=(i, "results", t))


def tm_name(c):
    return c.tm.name


def changed(mon, rng, i):
    """a file that changes between two reads"""
    c = draw_case(mon, rng, features={"funcs_file"} if rng.random() < .6 else None)
    spec, path = c.spec, c.path
    for k in range(4):
        kind = ["value", "equation", "func", "space"][int(rng.integers(4))]
        old = (dict(spec.par), spec.const, spec.funcs)
        if kind == "value":
            v = gen.perturb(rng, c.tm)
            for p, w in zip(c.tm.parameters, v):
                if rng.random() < .3:
                    spec.par[p] = round(w, 4)
        elif kind == "equation":
            spec.const = spec.const.replace("phi_pi*Pi", "%.2f*Pi" % rng.uniform(1.5, 2.2)) if "phi_pi*Pi" in spec.const \
                else spec.const
            i0 = [j for j, e in enumerate(spec.eqs) if "phi_pi*Pi" in e]
            if i0:
                spec.eqs[i0[0]] = spec.eqs[i0[0]].replace("phi_pi*Pi", "(phi_pi + %.2f)*Pi" % rng.uniform(.05, .4))
        elif kind == "func":
            if not spec.funcs:
                continue
            spec.funcs = spec.funcs.replace("0.1 * a", "%.3f * a" % rng.uniform(.2, .9)) if k % 2 == 0 or \
                "x / (1 - x)" not in spec.funcs else spec.funcs.replace("x / (1 - x)", "x / (1.%d - x)" % rng.integers(2, 9))
            mon.saw("functions changed")
        try:
            tm = TextModel(spec.render(), spec.func_dict())
            R = Reference(tm)
            R._table(3, 17)
        except (Indeterminate, Unstable, IllConditioned):
            spec.par, spec.const, spec.funcs = old
            return
        with open(path, "w") as f:
            f.write(spec.render() + (" " if False else "\n" * int(kind == "space")))
        if spec.funcs:
            with open(path[:-5] + "_funcs.py", "w") as f:
                f.write(spec.funcs)
        nc = bool(rng.random() < .3)
        m = read(path, nocache=nc)
        c.tm, c.R, c.mod = tm, R, m
        m.set_par("calib")
        c.lmax, c.kmax = 3, 17
        c.sync()
        c.text = spec.render()
        sd = tm.stds(R.par)
        j = int(rng.integers(len(sd)))
        lst = [(tm.shocks[j], float(-5 * sd[j]), 0)]
        X, LK, fl = m.irfs(list(lst), T=8, verbose=False)
        mon.close_to(m.get_par(), tm.calib, "parameters are not those now in the file", tol=1e-12, change=kind)
        for f in tm.parafunc:
            mon.close_to(m.get_par(f), R.par[f], "a derived parameter is not that of the file", tol=1e-9, name=f,
                         change=kind)
        replay(mon, c, X, LK, fl, shock_matrix(c, lst, 8), np.zeros(R.n), False, True, "after a change: " + kind)
        mon.saw("changed files")
        mon.case(sig=(i, "changed", k))


def case(mon, rng, i):
    saved(mon, rng, i)
    results(mon, rng, i)
    changed(mon, rng, i)
