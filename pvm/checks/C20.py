"""A model given by its matrices is the model: same laws, same spells, whatever was processed before."""
import copy
import numpy as np
from ..harness import *

CASES = {"quick": 48, "thorough": 900}
RULE = ("a case is one model handed over as matrices of its equations (from the text, in a random order of equations, "
        "variables and scale), processed again and again with other horizons, bounds, matrices, in parallel or not, "
        "with or without observables and solution; an evaluation is one processed model driven along a path that an "
        "independent solution and search for spells judges; non-trivial: the bound binds on the path")
ASSUMES = ["paths are judged up to a tie in a deciding comparison"]
MIN = {"processed": 100, "periods": 700, "binding": 80, "from the cache": 20, "changed in place": 50, "serial": 20,
       "given solution": 15, "without observables": 4, "observed": 100, "responses": 20, "trajectories": 25, "maps": 6,
       "against the file": 15, "bound left out": 3, "horizons": 10}


def matrices(R, rng, observables=True, l_shock=True):
    """the dictionary of a model, equations and variables in random order and scale"""
    n = R.n
    o = rng.permutation(n)
    rows = [j for j in rng.permutation(n) if j != R.ci]
    sc = rng.choice([1., -1., .5, 3.], len(rows))[:, None]
    g = float(rng.choice([1., -1., 2.]))
    d = dict(AA=(R.A[rows] * sc)[:, o], BB=(R.B[rows] * sc)[:, o], CC=(R.C[rows] * sc)[:, o], DD=R.D[rows] * sc,
             fb=g * R.B[R.ci][o], fc=g * R.C[R.ci][o], vars=np.array([R.names[j] for j in o]),
             shocks=list(R.tm.shocks), const_var=R.tm.const_var, x_bar=R.x_bar)
    if R.D[R.ci].any() or rng.random() < .5:
        d["fd"] = g * R.D[R.ci]
    if observables:
        H, c = R.obs()
        d.update(observables=list(R.tm.observables), ZZ0=H[:, o], ZZ1=c)
    return d


def horizons(rng):
    if rng.random() < .5:
        return {}, 3, 17
    l, k = int(rng.integers(2, 6)), int(rng.integers(1, 25))
    return dict(l_max=l, k_max=k), l + 1, k


def drive(mon, rng, m, R, lmax, kmax, what, T=12, observables=True):
    """along a random path"""
    vv = [str(v) for v in m.vv]
    names = [v for v in R.names if v in vv]
    mon.check(set(R.tm.variables) <= set(vv), "variables are missing", got=vv, by=what)
    mi, ri = [vv.index(v) for v in names], [R.ix[v] for v in names]
    sd = R.tm.stds(R.par)
    size = float(rng.choice([1., 2., 3.]))
    st, x = np.zeros(len(vv)), np.zeros(R.n)
    H, cst = R.obs()
    bound = False
    path = []
    for t in range(T):
        e = sd * rng.standard_normal(len(sd)) * size * (rng.random() < .7)
        el, ek, status = R.select(x, e, lmax, kmax)
        ns, (l, k), flag = m.t_func(st, e, return_k=True)
        if status == "tie":
            break
        if status == "none":
            mon.check(bool(flag), "no equilibrium but no flag", by=what, model=R.tm.text)
            break
        mon.check((int(l), int(k)) == (el, ek) and not flag, "durations are not those of the equilibrium",
                  got=(int(l), int(k), int(flag)), want=(el, ek), by=what, model=R.tm.text, period=t)
        x = R.step(x, e, el, ek)
        mon.close_to(ns[mi], x[ri], "the transition of the matrices is another one", by=what, names=names, period=t,
                     model=R.tm.text)
        if observables:
            mon.close_to(np.asarray(m.obs(ns), float), H @ x + cst, "observables of the matrices", by=what)
            q, ob = m.t_func(st, e, get_obs=True)[0]
            mon.close_to(ob, H @ x + cst, "observables of the matrices", by=what)
            mon.saw("observed")
        y = m.t_func(st, e, linear=True)[0]
        mon.saw("periods")
        mon.saw("binding", int(ek > 0))
        bound |= ek > 0
        path.append((st, e, ns, (l, k)))
        st = ns
    mon.saw("processed")
    mon.case(sig=(R.tm.text, str(what)) if bound else None, sample=dict(what=str(what), lmax=lmax, kmax=kmax))
    return path


def again(mon, path, m, what):
    """the same path"""
    for st, e, ns, lk in path:
        a, b, _ = m.t_func(st, e, return_k=True)
        mon.close_to(a, ns, what, tol=1e-9)
        mon.check(tuple(b) == tuple(lk), what + " (durations)")


def case(mon, rng, i):
    from pydsge import gen_sys_from_dict
    c = any_case(mon, rng, i, values=rng.random() < .5)
    R = c.R
    obs = bool(rng.random() < .75)
    if not obs:
        mon.saw("without observables")
    d = matrices(R, rng, obs)
    keep = copy.deepcopy(d)
    kw, lm, km = horizons(rng)
    if kw:
        mon.saw("horizons")
    m = gen_sys_from_dict(d, verbose=False, **kw)
    for k in keep:
        same = np.array_equal(d[k], keep[k]) if not isinstance(d[k], (str, list)) else d[k] == keep[k]
        mon.check(same, "the dictionary is changed", which=k)
    path = drive(mon, rng, m, R, lm, km, "first", observables=obs)
    # once more, and in another way
    m2 = gen_sys_from_dict(d, verbose=False, **kw)
    again(mon, path, m2, "the same matrices give another model")
    mon.saw("from the cache")
    m3 = gen_sys_from_dict(copy.deepcopy(keep), verbose=False, parallel=False, force_processing=True, **kw)
    mon.check([str(v) for v in m3.vv] == [str(v) for v in m.vv], "order of variables")
    again(mon, path, m3, "processed serially the model differs")
    mon.saw("serial")
    # without a bound it is -1
    if rng.random() < .4:
        da, db = copy.deepcopy(keep), copy.deepcopy(keep)
        da.pop("x_bar")
        db["x_bar"] = -1
        ma, mb = (gen_sys_from_dict(q, verbose=False, **kw) for q in (da, db))
        st = np.zeros(len(ma.vv))
        for t in range(8):
            e = rng.standard_normal(len(R.tm.shocks)) * R.tm.stds(R.par) * 2
            a, b = ma.t_func(st, e, return_k=True), mb.t_func(st, e, return_k=True)
            mon.check(tuple(a[1]) == tuple(b[1]) and a[2] == b[2], "without a bound in the dictionary it is not -1",
                      got=a[1:], want=b[1:])
            mon.close_to(a[0], b[0], "without a bound in the dictionary it is not -1", tol=1e-10)
            mon.saw("bound left out", int(a[1][1] > 0))
            st = a[0]
    # against the file
    if not kw:
        vv, fv = [str(v) for v in m.vv], [str(v) for v in c.mod.vv]
        both = [v for v in c.tm.variables if v in vv and v in fv]
        sd = shock_std(c)
        a, b = np.zeros(len(vv)), np.zeros(len(fv))
        for t in range(6):
            e = rng.standard_normal(len(sd)) * sd * 2
            a, ka, fa = m.t_func(a, e, return_k=True)
            b, kb, fb = c.mod.t_func(b, e, return_k=True)
            if ka != kb or fa or fb:
                break          # ties and periods without equilibrium are judged above
            mon.close_to(a[[vv.index(v) for v in both]], b[[fv.index(v) for v in both]],
                         "the model of the file is another one", model=c.text)
        mon.saw("against the file")
    # responses
    sd = shock_std(c)
    j = int(rng.integers(len(sd)))
    sh = R.tm.shocks[j]
    lin = bool(rng.random() < .4)
    X, LK, fl = m.irfs((sh, 2 * sd[j], 0), T=8, linear=lin, verbose=False)
    st = np.zeros(len(m.vv))
    for t in range(8):
        e = np.zeros(len(sd))
        e[j] = 2 * sd[j] * (t == 0)
        st, lk, f = m.t_func(st, e, return_k=True, linear=lin)
        mon.close_to(X.to_numpy()[t], st, "responses differ from the transition", tol=1e-9, period=t)
        mon.check(tuple(LK[:, t]) == tuple(lk), "durations of responses")
    mon.saw("responses")
    # expected path of the constraint
    e = np.zeros(len(sd))
    e[j] = sd[j] * float(rng.choice([-2., 2., 4.]))
    s = m.shock2state((sh, e[j]))
    el, ek, status = R.select(np.zeros(R.n), e, lm, km)
    if status == "ok":
        tr = m.traj(s, verbose=False)
        mon.close_to(tr, R.expected(np.zeros(R.n), e, el, ek, len(tr))[1], "expected path of the constraint",
                     model=c.text, shock=(sh, e[j]))
        mon.saw("trajectories")
    gl, gk = int(rng.integers(0, min(lm, 3) + 1)), int(rng.integers(0, min(km, 6) + 1))
    tr = m.traj(s, l=gl, k=gk, verbose=False)
    try:
        want = R.expected(np.zeros(R.n), e, gl if gk else 0, gk, len(tr))[1]
    except IllConditioned:
        want = None
    if want is not None and np.abs(want).max() < 1e4:
        mon.close_to(tr, want, "expected path of the constraint for given durations", durations=(gl, gk), model=c.text)
        mon.saw("trajectories")
    if gk and status == "ok":
        try:
            LS, KS = m.k_map(s, l=gl, k=gk, verbose=False)
            al = range(len(LS))
            wl = [R.expected(np.zeros(R.n), e, int(a), gk, int(a) + gk + 1)[1][-1] - R.x_bar for a in al]
            wk = [R.expected(np.zeros(R.n), e, gl if b else 0, b, gl + b + 1)[1][-1] - R.x_bar for b in range(len(KS))]
        except IllConditioned:
            wl = None
        if wl is not None and max(np.abs(wl).max(), np.abs(wk).max()) < 1e4:
            mon.close_to(LS, wl, "distance to the bound after spells of given length", durations=(gl, gk), model=c.text)
            mon.close_to(KS, wk, "distance to the bound after spells that start at a given time", durations=(gl, gk),
                         model=c.text)
            mon.saw("maps")
    # the solution is given
    d2 = copy.deepcopy(keep)
    d2["gx"], d2["hx"] = np.array(m.sys[0]), np.array(m.sys[1])
    m4 = gen_sys_from_dict(d2, verbose=False, **kw)
    again(mon, path, m4, "with its solution given the model differs")
    mon.saw("given solution")
    # changes in place
    for rep in range(3):
        how = str(rng.choice(["bound", "horizons", "parameters", "order"]))
        R2 = R
        if how == "bound":
            R2 = copy.copy(R)
            R2._build()
            R2.x_bar = float(-rng.uniform(.05, .8))
            R2._build()
            R2._lk, R2._tab = {}, {}
            d["x_bar"] = R2.x_bar
        elif how == "horizons":
            kw, lm, km = horizons(rng)
        else:
            if how == "parameters":
                try:
                    R2 = Reference(c.tm, gen.perturb(rng, c.tm))
                except (Indeterminate, Unstable, IllConditioned):
                    continue
            n = matrices(R2, rng, obs)
            if R2.names != R.names:
                continue
            if how == "parameters" and rng.random() < .5 and list(n["vars"]) == list(d["vars"]):
                for k in ("AA", "BB", "CC"):
                    d[k][:] = n[k]
            d.clear()
            d.update(n)
        R = R2
        m5 = gen_sys_from_dict(d, verbose=False, **kw)
        drive(mon, rng, m5, R, lm, km, "changed " + how, T=6, observables=obs)
        mon.saw("changed in place")
    # the first one is still what it was
    again(mon, path, m, "a model changes when others are processed")
    m6 = gen_sys_from_dict(copy.deepcopy(keep), verbose=False, **(kw or {}))
    drive(mon, rng, m6, c.R, lm, km, "first again", T=5, observables=obs)
