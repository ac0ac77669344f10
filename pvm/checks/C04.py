"""Parametrisations without a unique stable solution are never passed off as solved."""
import numpy as np
from ..harness import *
from .C12 import logprior

CASES = {"quick": 24, "thorough": 600}
RULE = ("a case is one model with parameter vectors drawn inside and outside its determinacy region; an independent "
        "root count decides which is which; an evaluation is one vector put through set_par, irfs with a batch of "
        "vectors, lprob or prior sampling; non-trivial: a vector that must be refused, or a batch mixing both kinds")
ASSUMES = ["roots within 0.005 of the unit circle are not judged"]
MIN = {"indeterminate": 60, "unstable": 20, "determinate": 100, "batches": 20, "lprob": 40, "prior draws": 200}


def wild(rng, tm):
    v = gen.perturb(rng, tm, scale=.3)
    ix = tm.parameters.index
    kind = rng.choice(["pi", "pi", "rho", "both", "none", "none", "none", "y"])
    if kind in ("pi", "both"):
        v[ix("phi_pi")] = float(rng.uniform(0, .95))
        v[ix("phi_y")] = float(rng.uniform(0, .03))
    if kind == "y":
        v[ix("phi_pi")] = float(rng.uniform(-1, .9))
    rhos = [p for p in tm.parameters if p.startswith("rho_")]
    if kind in ("rho", "both") and rhos:
        v[ix(rhos[int(rng.integers(len(rhos)))])] = float(rng.uniform(1.02, 1.6))
    return v


def classify(tm, v):
    try:
        R = Reference(tm, v)
        # also the spell laws must exist for the solution to be usable
        R.law(0, 17)
        return "determinate", R
    except Indeterminate:
        return "indeterminate", None
    except Unstable:
        return "unstable", None
    except IllConditioned:
        return None, None


def case(mon, rng, i):
    feats = {"all_priors"}
    c = square_case(mon, rng, feats)
    pr = list(c.spec.prior["phi_pi"])
    c.spec.prior["phi_pi"] = (1.5, .3, 4, "uniform", .6, 2.4)
    c = Case(mon, c.spec)
    m, tm = c.mod, c.tm
    good, bad = [], []
    sd = shock_std(c)
    fresh = read(c.path, nocache=True)
    for _ in range(24):
        v = wild(rng, tm)
        kind, R = classify(tm, v)
        if kind is None:
            mon.saw("draws rejected")
            continue
        mon.saw(kind)
        mon.case(sig=(c.text, tuple(v)) if kind != "determinate" else None,
                 sample=dict(kind=kind, par=dict(zip(tm.parameters, v))) if kind != "determinate" else None)
        if kind == "determinate":
            good.append(v)
            m.set_par(v)                      # an exception here is a violation
            c.R = R
            c.sync()
            e = sd * rng.standard_normal(len(sd))
            st = m.t_func(np.zeros(len(m.vv)), e, linear=True)[0]
            mon.close_to(st[c.mi], R.step(np.zeros(R.n), e)[c.ri],
                         "a determinate parametrisation is not solved by its unique stable law", par=R.par,
                         model=c.text)
        else:
            bad.append(v)
            try:
                m.set_par(v)
            except ValueError:
                pass
            else:
                mon.fail("set_par accepts a parametrisation that is " + kind, par=dict(zip(tm.parameters, v)),
                         model=c.text)
            # single irfs report it too
            if rng.random() < .3:
                m.set_par(tm.calib)
                X, LK, fl = m.irfs((tm.shocks[0], 1., 0), pars=np.array(v), T=4, verbose=False)
                mon.check(np.any(fl) and np.all(np.isnan(np.asarray(X, float))),
                          "irfs at a parametrisation that is %s are neither flagged nor missing" % kind, flag=fl)
    # batches
    m.set_par(tm.calib)
    ref_vv = list(m.vv)
    for _ in range(2):
        pick = [("g", v) for v in good[:4]] + [("b", v) for v in bad[:4]]
        if len(pick) < 2:
            break
        order = rng.permutation(len(pick))
        pick = [pick[j] for j in order]
        # only vectors which keep the variables where they are
        keep = []
        for kind, v in pick:
            if kind == "g":
                fresh.set_par(v)
                if list(fresh.vv) != ref_vv:
                    continue
            keep.append((kind, v))
        shock = (tm.shocks[int(rng.integers(len(sd)))], 2., 0)
        X, LK, fl = m.irfs(shock, pars=np.array([v for _, v in keep]), T=6, verbose=False)
        mon.saw("batches")
        mon.check(len(X) == len(keep) == len(fl), "batch irfs lose parameter vectors", got=len(X), want=len(keep))
        for (kind, v), x, f in zip(keep, X, fl):
            if kind == "b":
                mon.check(f != 0 and np.isnan(x).all(), "batch irfs hide a parametrisation without solution", flag=f,
                          par=dict(zip(tm.parameters, v)), model=c.text)
            else:
                fresh.set_par(v)
                w, _, ff = fresh.irfs(shock, T=6, verbose=False)
                mon.close_to(x, w.to_numpy(), "batch irfs differ from those of each parameter vector alone", tol=1e-9)
                mon.check(f == ff, "batch irfs flag a good parameter vector", flag=f, alone=ff)
        mon.case(sig=(c.text, "batch", len(keep)))
    # estimation: the likelihood is zero there
    data = simulate_obs(c, rng, 25)
    m.set_par(tm.calib)
    m.load_data(data)
    m.prep_estim(linear=True, dry_run=False, verbose=False, ncores=0, load_R=False)
    m.filter.R = np.eye(len(tm.observables)) * 1e-2
    names = list(tm.prior)
    base = dict(zip(tm.parameters, tm.calib))
    for _ in range(10):
        par = {n: base[n] for n in names}
        par["phi_pi"] = float(rng.uniform(.65, 2.35))
        par["theta"] = float(rng.uniform(.5, .9))
        full = [par.get(p, base[p]) for p in tm.parameters]
        kind, R = classify(tm, full)
        if kind is None:
            continue
        lp = m.lprob(np.array([par[n] for n in names]))
        mon.saw("lprob")
        mon.case(sig=(c.text, "lprob", par["phi_pi"]) if kind != "determinate" else None)
        if kind == "determinate" and np.isfinite(logprior({n: tm.prior[n] for n in names}, [par[n] for n in names])):
            mon.check(np.isfinite(lp), "posterior density is zero at an ordinary determinate parametrisation", lp=lp,
                      par=par, model=c.text)
        elif kind != "determinate":
            mon.check(lp == -np.inf, "posterior density is positive where the model is " + kind, lp=lp, par=par,
                      model=c.text)
    # prior draws are all solvable
    m.set_par(tm.calib)
    draws = m.prior_sampler(12, verbose=False)
    more = m.get_par("prior", nsamples=6, full=True)
    for v in [[dict(zip(names, d)).get(p, base[p]) for p in tm.parameters] for d in draws] + [list(v) for v in more]:
        kind, R = classify(tm, v)
        mon.saw("prior draws")
        if kind in ("indeterminate", "unstable"):
            mon.fail("a prior draw has no unique stable solution", kind=kind, par=dict(zip(tm.parameters, v)),
                     model=c.text)
        mon.case(sig=(c.text, "prior", tuple(v)))


def warm(mon):
    case(mon, np.random.default_rng(0), 0)
