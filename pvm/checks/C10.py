"""Parameters are what was last set: by name, by vector, by named set; everything else keeps its value."""
import copy
import numpy as np
import pandas as pd
from ..harness import *

CASES = {"quick": 42, "thorough": 1000}
RULE = ("a case is one model; an evaluation is one operation in a random sequence of sets and gets, judged against a "
        "shadow copy of the parameters and, after every set, the solution at those parameters computed independently; "
        "non-trivial: operations after at least one change")
MIN = {"set by name": 200, "set vector": 60, "set estimated": 50, "set named set": 50, "refused": 50,
       "solution compared": 300, "derived parameters": 300, "on the side": 40, "draws": 5, "completed": 8, "prepared": 8,
       "prior without initial value": 4}


def named(c, spec_prior, which):
    tm = c.tm
    out = dict(zip(tm.parameters, tm.calib))
    if which == "calib":
        return out
    for p, d in spec_prior.items():
        d = list(d)
        if which == "init":
            if len(d) == 6:
                out[p] = float(d[0])
        elif "uniform" in d:
            out[p] = .5 * d[-2] + .5 * d[-1]
        elif which == "adj_prior_mean" and d[-3] == "inv_gamma_dynare":
            out[p] = 10 * d[-2]
        else:
            out[p] = d[-2]
    return out


def full(c, cur):
    return [cur[p] for p in c.tm.parameters]


def admissible(c, cur):
    try:
        return Reference(c.tm, full(c, cur))
    except (Indeterminate, Unstable, IllConditioned):
        return None


def look(mon, c, m, cur, R, rng, sets=True):
    tm = c.tm
    got = m.get_par()
    mon.close_to(got, full(c, cur), "the parameter vector is not what was set", tol=1e-12)
    p = str(rng.choice(tm.parameters))
    mon.close_to(m.get_par(p), cur[p], "a parameter is not what was set", tol=1e-12, name=p)
    for f in tm.parafunc:
        mon.close_to(m.get_par(f), R.par[f], "a derived parameter is not its function of the parameters", tol=1e-9,
                     name=f, model=c.text)
        mon.saw("derived parameters")
    mon.close_to(np.diag(np.asarray(m.get_cov(), float)), tm.stds(R.par),
                 "standard deviations of the shocks are not those of the parameters", tol=1e-10)
    # the model that is solved
    c.R = R
    c.sync()
    sd = tm.stds(R.par)
    x, st = np.zeros(R.n), np.zeros(len(m.vv))
    for t in range(4):
        e = rng.standard_normal(len(sd)) * sd
        x = R.step(x, e)
        st = m.t_func(st, e, linear=True, return_flag=False)
        mon.close_to(st[c.mi], x[c.ri], "the model solved is not that of the parameters", model=c.text, par=cur)
    s = float(R.x_bar)
    # the level of the bound: a forced spell puts the constrained variable there
    st = m.t_func(np.zeros(len(m.vv)), np.zeros(len(sd)), set_k=(0, 1), return_flag=False)
    mon.close_to(st[[str(v) for v in m.vv].index(tm.const_var)], s, "the bound is not that of the parameters")
    mon.saw("solution compared")


def case(mon, rng, i):
    c = any_case(mon, rng, i)
    tm, m = c.tm, read(c.path)
    c.mod = m
    prior = {str(k): v for k, v in yaml_prior(c).items()}
    est = list(prior)
    sets = ["calib", "prior_mean", "adj_prior_mean"]
    cur = dict(zip(tm.parameters, tm.calib))
    first = rng.random() < .5
    if first:
        m.set_par("calib")
    else:
        m.set_par(full(c, cur))
    nops = 26
    if est and len(tm.observables) == len(tm.shocks) and i % 2:
        # prepared: the initial values of the priors are a set as well
        m.load_data(pd.DataFrame(rng.standard_normal((6, len(tm.observables))), columns=tm.observables))
        m.prep_estim(linear=True, ncores=0, verbose=False, dry_run=False)
        m.set_par(full(c, cur), l_max=3, k_max=17)
        sets = sets + ["init"]
        mon.saw("prepared")
        if any(len(list(v)) == 3 for v in prior.values()):
            mon.saw("prior without initial value")
    for op in range(nops):
        kind = rng.choice(["name", "name", "name", "vector", "estimated", "set", "refuse", "side", "get", "draw"],
                          p=[.14, .14, .12, .11, .11, .11, .1, .08, .06, .03])
        new = dict(cur)
        if kind == "name":
            p = str(rng.choice(tm.parameters))
            pert = dict(zip(tm.parameters, gen.perturb(rng, tm)))
            new[p] = pert[p]
            R = admissible(c, new)
            if R is None:
                continue
            v = new[p]
            ret = m.set_par(p, v)
            cur = new
            mon.saw("set by name")
            mon.close_to(ret, full(c, cur), "set_par returns other parameters", tol=1e-12)
        elif kind == "vector":
            new = dict(zip(tm.parameters, gen.perturb(rng, tm)))
            R = admissible(c, new)
            if R is None:
                continue
            v = full(c, new)
            v = [v, np.array(v), tuple(v)][int(rng.integers(3))]
            kp = copy.deepcopy(v)
            ret = m.set_par(v)
            mon.check(np.array_equal(v, kp), "set_par changes the vector it is given")
            if isinstance(v, (list, np.ndarray)):
                v[0] = 17.                       # the caller's vector is the caller's
            cur = new
            mon.saw("set vector")
            mon.close_to(ret, full(c, cur), "set_par returns other parameters", tol=1e-12)
        elif kind == "estimated":
            if len(est) == len(tm.parameters):
                continue
            pert = dict(zip(tm.parameters, gen.perturb(rng, tm)))
            for p in est:
                new[p] = pert[p]
            R = admissible(c, new)
            if R is None:
                continue
            v = [new[p] for p in est]
            m.set_par(np.array(v) if rng.random() < .5 else v)
            cur = new
            mon.saw("set estimated")
        elif kind == "set":
            w = str(rng.choice(sets))
            new = named(c, prior, w)
            R = admissible(c, new)
            if R is None:
                continue
            m.set_par(w)
            cur = new
            mon.saw("set named set")
        elif kind == "refuse":
            bad = [("no_such_parameter", .5), ("no_such_set", None)]
            if tm.parafunc:
                bad.append((str(rng.choice(list(tm.parafunc))), .5))
            name, v = bad[int(rng.integers(len(bad)))]
            try:
                m.set_par(name, v)
            except (SyntaxError, KeyError):
                pass
            else:
                mon.fail("set_par accepts what cannot be set", name=name)
            mon.saw("refused")
        elif kind == "side":
            # working on a vector of the caller's leaves the model alone
            p = str(rng.choice(tm.parameters))
            v = np.array(gen.perturb(rng, tm))
            kp = v.copy()
            w = m.set_par(p, .123, npar=v)
            want = v.copy()
            want[tm.parameters.index(p)] = .123
            mon.close_to(w, want, "setting a parameter in a given vector gives another vector", tol=1e-12, name=p)
            if p in est and len(est) != len(tm.parameters):
                v2 = np.array([kp[tm.parameters.index(q)] for q in est])
                w = m.set_par(p, .123, npar=v2)
                want = v2.copy()
                want[est.index(p)] = .123
                mon.close_to(w, want, "setting a parameter in a vector of estimated parameters gives another vector",
                             tol=1e-12, name=p)
                w = cur.copy()
                w.update(zip(est, v2))
                q = str(rng.choice(tm.parameters))
                mon.close_to(m.get_par(q, npar=v2), w[q], "value with given estimated parameters", tol=1e-12, name=q)
                mon.close_to(m.get_par(npar=v2), full(c, w), "vector with given estimated parameters", tol=1e-12)
                mon.close_to(m.get_par(v2), full(c, w), "vector completed from estimated parameters", tol=1e-12)
                mon.close_to(m.get_par(v2, full=False), v2, "estimated parameters of given ones", tol=1e-12)
                mon.saw("completed")
            if est:
                mon.close_to(m.get_par(kp.copy(), full=False), [kp[tm.parameters.index(q)] for q in est],
                             "estimated parameters of a given vector", tol=1e-12)
            mon.close_to(m.get_par(p, npar=kp), kp[tm.parameters.index(p)], "value in a given vector", tol=1e-12)
            for f in tm.parafunc:
                try:
                    rp = tm.full_par(list(kp))
                except Exception:
                    break
                mon.close_to(m.get_par(f, npar=kp), rp[f], "derived parameter of a given vector", tol=1e-9, name=f)
            try:
                rp = tm.full_par(list(kp))
            except Exception:
                rp = None
            if rp is not None:
                mon.close_to(np.diag(np.asarray(m.get_cov(npar=kp), float)), tm.stds(rp),
                             "standard deviations of the shocks at given parameters", tol=1e-10)
                d, fd = m.get_par(npar=kp, asdict=True)
                mon.close_to(list(d.values()), kp, "dict of given parameters", tol=6e-6)
                mon.close_to([fd[f] for f in tm.parafunc], [rp[f] for f in tm.parafunc],
                             "dict of derived parameters at given parameters", tol=6e-6)
            mon.saw("on the side")
        elif kind == "get":
            for w in sets:
                d, fd = m.get_par(w, asdict=True)
                mon.close_to(list(d.values()), full(c, named(c, prior, w)), "dict of a named set", tol=6e-6, name=w)
                try:
                    rp = tm.full_par(full(c, named(c, prior, w)))
                except Exception:
                    rp = None
                if rp is not None:
                    mon.close_to([fd[f] for f in tm.parafunc], [rp[f] for f in tm.parafunc],
                                 "derived parameters of a named set", tol=6e-6, name=w)
                mon.close_to(m.get_par(w), full(c, named(c, prior, w)), "a named set of parameters is another one",
                             tol=1e-12, name=w)
                e = m.get_par(w, full=False)
                mon.close_to(e, [named(c, prior, w)[p] for p in est], "the estimated part of a named set is another",
                             tol=1e-12, name=w)
            if "init" in sets:
                mon.close_to(m.get_par("best", full=False), [named(c, prior, "init")[p] for p in est],
                             "the best parameters are not the initial ones while there are no others", tol=1e-12)
            d, fd = m.get_par(asdict=True)
            mon.check(list(d) == list(tm.parameters), "names of the parameters")
            mon.close_to(list(d.values()), full(c, cur), "dict of parameters", tol=6e-6)
            mon.close_to([fd[f] for f in tm.parafunc],
                         [Reference(c.tm, full(c, cur), solve=False).par[f] for f in tm.parafunc],
                         "dict of derived parameters", tol=6e-6)
            d = m.get_par(asdict=True, full=False)
            mon.check(list(map(str, d)) == est, "names of the estimated parameters", got=list(map(str, d)), want=est)
            mon.close_to(list(d.values()), [cur[p] for p in est], "dict of estimated parameters", tol=6e-6)
            v = m.get_par()
            v[:] = 0                              # a copy
        else:
            n = int(rng.integers(1, 4))
            try:
                D = np.asarray(m.get_par("prior", nsamples=n, verbose=False), float)
            except Exception:
                mon.saw("no draw from the prior")  # the prior may not support the model
                continue
            mon.check(D.shape == (n, len(tm.parameters)), "draws have another shape", got=D.shape)
            for j, p in enumerate(tm.parameters):
                if p not in est:
                    mon.check(np.all(D[:, j] == tm.calib[j]), "draws move parameters without a prior", name=p)
            mon.check(n == 1 or np.ptp(D[:, [tm.parameters.index(p) for p in est]], axis=0).min() > 0,
                      "several draws are the same draw", got=D)
            for d in D:
                read(c.path).set_par(list(d))     # has a solution
            mon.saw("draws")
        R = admissible(c, cur)
        if R is None:
            raise IllConditioned("now")
        look(mon, c, m, cur, R, rng)
        mon.case(sig=(c.text, op, str(kind)) if op else None, sample=dict(op=str(kind), par=cur) if op == 5 else None)


def yaml_prior(c):
    import yaml
    t = c.text if "example" not in str(c.spec.tags) else open(c.path).read().replace("~", "-").replace("@", "")
    if "estimation:" not in t:
        return {}
    return yaml.safe_load(t[t.index("estimation:"):])["estimation"].get("prior") or {}
