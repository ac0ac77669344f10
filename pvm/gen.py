"""Random model files: New-Keynesian cores with a bounded policy rate, random dynamics,
long lags and leads, moving-average shocks, derived parameters, random names and order."""
import numpy as np


class Spec:
    """structured model; `render` turns it into yaml text in one of several notations"""

    def __init__(self):
        self.name = "gen"
        self.variables, self.eqs, self.const = [], [], None
        self.obs, self.par, self.parafunc, self.cov, self.prior = {}, {}, {}, {}, {}
        self.funcs = None                  # text of the *_funcs.py file
        self.tags = set()

    def render(self, style=None):
        st = dict(mark="-", comments=False, power="**", cont=False, semicolon=False, indent=4, tail="")
        st.update(style or {})
        mk = st["mark"]
        ind = " " * st["indent"]

        def ex(t):
            t = t.replace("**", st["power"])
            if st["semicolon"]:
                t += ";"
            if st["cont"] and " + " in t:
                i = t.index(" + ")
                t = t[:i] + " @" + st["tail"] + "\n         " + t[i + 1:]
            return t

        o = ["declarations:", "  name: '%s'" % self.name,
             "  variables: [%s]" % ", ".join(self.variables), "", "equations:", "  model:"]
        for e in self.eqs:
            if st["comments"]:
                o.append("    # an equation: x = y(+1)")
            o.append("%s%s %s%s" % (ind, mk, ex(e), "    # trailing remark" if st["comments"] and not st["cont"] else ""))
            if st["comments"]:
                o.append("")
        o += ["  constraint:", "%s%s %s" % (ind, mk, ex(self.const))]
        if self.obs:
            o.append("  observables:")
            o += ["    %s : %s" % kv for kv in self.obs.items()]
        o += ["calibration:", "  parameters:"]
        o += ["    %s: %r" % kv for kv in self.par.items()]
        if self.parafunc:
            o.append("  parafunc:")
            o += ["    %s: %s" % (k, v.replace("**", st["power"])) for k, v in self.parafunc.items()]
        o.append("  covariances:")
        o += ["    %s: %s" % kv for kv in self.cov.items()]
        if self.prior:
            o += ["estimation:", "  prior:"]
            o += ["    %s: [%s]" % (k, ", ".join(str(x) for x in v)) for k, v in self.prior.items()]
        return "\n".join(o) + "\n"

    def func_dict(self):
        if not self.funcs:
            return {}
        d = {}
        exec(self.funcs, d)
        return {k: v for k, v in d.items() if callable(v) and not k.startswith("__")}


def r3(x):
    return float(np.round(x, 3))


def draw(rng, features=None, nobs=None):
    """a random Spec. `features`: set of feature names to force (see code); others random"""
    F = set(features or ())

    def on(f, p):
        hit = f in F or (("no_" + f) not in F and rng.random() < p)
        if hit:
            s.tags.add(f)
        return hit

    s = Spec()
    if not F and rng.random() < .05:      # nothing carries over from one period to the next
        F = {"memoryless", "policy_static"} | {"no_" + f for f in (
            "indexation", "habit", "many", "growth", "long_lag", "long_lead", "capital", "deep", "functions")}
        s.tags.add("memoryless")
    if "bare" in F:                       # as many variables as shocks
        F |= {"memoryless", "policy_rule", "direct", "cost_push"} | {"no_" + f for f in (
            "indexation", "habit", "many", "growth", "long_lag", "long_lead", "capital", "deep", "functions",
            "const_lagged_other", "asset", "static", "funcs_file")}
        s.tags.add("bare")
    P = s.par
    P["beta"] = .99
    P["sigma"] = r3(rng.uniform(1, 2.5))
    P["theta"] = r3(rng.uniform(.6, .85))
    P["phi_pi"] = r3(rng.uniform(1.4, 2.3))
    P["phi_y"] = r3(rng.uniform(.05, .3))
    V = ["Pi", "y", "r"]
    E = []
    s.parafunc["kappa"] = "(1-theta)*(1-beta*theta)/theta"

    # phillips curve
    rhs = "kappa*y"
    shocks = []
    if on("indexation", .3):
        P["iota"] = r3(rng.uniform(.1, .5))
        s.parafunc["bpi"] = "beta/(1+beta*iota)"
        s.parafunc["ipi"] = "iota/(1+beta*iota)"
        pc = "Pi = bpi*Pi(+1) + ipi*Pi(-1) + " + rhs
    else:
        pc = "Pi = beta*Pi(+1) + " + rhs
    # euler
    if on("habit", .35):
        P["h"] = r3(rng.uniform(.2, .7))
        is_ = "y = 1/(1+h)*y(+1) + h/(1+h)*y(-1) - (1-h)/(sigma*(1+h))*(r - Pi(+1) + u)"
    else:
        is_ = "y = y(+1) - 1/sigma*(r - Pi(+1) + u)"

    # exogenous processes
    def proc(v, e, sd):
        V.append(v)
        shocks.append(e)
        P["sig_" + v] = r3(sd)
        s.cov[e] = "sig_" + v
        kind = rng.choice(["ar1", "ar1", "ar1", "ar2", "ar4", "ma1", "ma2", "ma4", "iid"])
        if "memoryless" in F:
            kind = "iid"
        if "plain_shocks" in F:
            kind = "ar1"
        if "shock_lags" in F and v == "u":
            kind = rng.choice(["ma1", "ma2", "ma4"])
        P["rho_" + v] = r3(rng.uniform(.3, .85))
        ar = "%s = rho_%s*%s(-1)" % (v, v, v)
        if kind == "ar1":
            E.append("%s + %s" % (ar, e))
        elif kind == "iid":
            E.append("%s = %s" % (v, e))
            del P["rho_" + v]
        elif kind in ("ar2", "ar4"):
            s.tags.add("long_lag")
            P["rho2_" + v] = r3(rng.uniform(-.3, .1))
            E.append("%s + rho2_%s*%s(-%s) + %s" % (ar, v, v, kind[2], e))
        else:
            s.tags.add("shock_lag")
            P["ma_" + v] = r3(rng.uniform(-.6, .6))
            if kind == "ma1":
                E.append("%s + %s + ma_%s*%s(-1)" % (ar, e, v, e))
            elif kind == "ma2":
                E.append("%s + %s + ma_%s*%s(-1) + 0.25*%s(-2)" % (ar, e, v, e, e))
            else:
                m = int(rng.integers(2, 5))
                E.append("%s + %s + ma_%s*%s(-%d)" % (ar, e, v, e, m))

    proc("u", "e_u", rng.uniform(.3, .8))
    if on("cost_push", .8):
        proc("z", "e_z", rng.uniform(.1, .3))
        pc += " - z"
    for j in range(int(rng.integers(1, 5)) if on("many", .2) else 0):
        v = "w%d" % j
        proc(v, "eps%d" % j, rng.uniform(.05, .2))
        P["ld%d" % j] = r3(rng.uniform(-.4, .4))
        if rng.random() < .5:
            pc += " + ld%d*%s" % (j, v)
        else:
            is_ += " + ld%d*%s" % (j, v)
    pol = rng.choice(["notional", "rule", "static"])
    for p in ("notional", "rule", "static"):
        if "policy_" + p in F:
            pol = p
    s.tags.add("policy_" + pol)
    if pol == "notional":
        V.append("rn")
        P["rho"] = r3(rng.uniform(.3, .85))
        if on("mp_shock", .8):
            proc("vr", "e_r", rng.uniform(.1, .3))
            E.append("rn = rho*rn(-1) + (1-rho)*(phi_pi*Pi + phi_y*y) + vr")
        else:
            E.append("rn = rho*rn(-1) + (1-rho)*(phi_pi*Pi + phi_y*y)")
        s.const = "r = rn"
    elif pol == "rule":
        P["rho"] = r3(rng.uniform(.3, .85))
        shocks.append("e_r")
        P["sig_r"] = r3(rng.uniform(.1, .3))
        s.cov["e_r"] = "sig_r"
        s.const = "r = rho*r(-1) + (1-rho)*(phi_pi*Pi + phi_y*y) + e_r"
        if on("const_lagged_other", .4):
            s.const = "r = rho*r(-1) + (1-rho)*(phi_pi*Pi + phi_y*(y - y(-1))) + 0.5*e_r"
    else:
        if on("mp_shock", .7):
            proc("vr", "e_r", rng.uniform(.1, .3))
            s.const = "r = phi_pi*Pi + phi_y*y + vr"
        else:
            s.const = "r = phi_pi*Pi + phi_y*y"
    E += [pc, is_]

    # satellite variables
    if on("growth", .5):
        V.append("dy")
        E.append("dy = y - y(-1)")
    if on("long_lag", .35):
        V.append("ya")
        n = int(rng.integers(2, 5))
        P["w_a"] = r3(rng.uniform(.1, .4))
        E.append("ya = w_a*(y + %s)" % " + ".join("y(-%d)" % j for j in range(1, n)))
    if on("long_lead", .35):
        V.append("lr")
        n = int(rng.integers(2, 6))
        E.append("lr = 0.25*(r + %s)" % " + ".join("r(+%d)" % j for j in range(1, n)))
    if on("asset", .4):
        V.append("s")
        E.append("s = (1-beta)*y(+1) + beta*s(+1) - (r - Pi(+1) + u)")
    if on("capital", .4):
        V.append("kk")
        P["dlt"] = r3(rng.uniform(.05, .4))
        E.append("kk = (1-dlt)*kk(-1) + dlt*y")
        if on("feedback", .5):
            P["fb"] = r3(rng.uniform(-.1, .1))
            i = E.index(pc)
            pc += " + fb*kk(-1)"
            E[i] = pc
    if on("static", .4):
        V += ["wa", "wb"]
        E.append("wa = 2*wb - y/sigma")
        E.append("wb + 0.5*wa = Pi + r")

    if on("deep", 0):
        for j in range(int(rng.integers(1, 4))):
            v = "dp%d" % j
            V.append(v)
            terms = []
            for _ in range(int(rng.integers(1, 4))):
                src = str(rng.choice(["y", "Pi", "r", "u", v, "y"]))
                d = int(rng.integers(-6, 7))
                if src == v and d >= 0:
                    d = -int(rng.integers(1, 5))
                terms.append("%s*%s%s" % (r3(rng.uniform(-.35, .35)), src, "(%+d)" % d if d else ""))
            if rng.random() < .5:
                terms.append("%s*%s(-%d)" % (r3(rng.uniform(-.5, .5)), str(rng.choice(shocks)), rng.integers(1, 6)))
            E.append("%s = %s" % (v, " + ".join(terms)))
            if rng.random() < .4:
                i = E.index(pc)
                pc += " + %s*%s(-%d)" % (r3(rng.uniform(-.08, .08)), v, rng.integers(1, 4))
                E[i] = pc
    # derived parameters
    if on("chain", .5):
        P["elb_level"] = r3(rng.uniform(.05, .3))
        s.parafunc["rstar"] = "1/beta"
        s.parafunc["x_bar"] = "-rstar + elb_level"
    elif on("xbar_par", .5):
        P["x_bar"] = r3(-rng.uniform(.3, 1.5))
    else:
        P["elb_level"] = r3(rng.uniform(.05, .3))
        s.parafunc["x_bar"] = "-1/beta + elb_level"
    if on("functions", .35):
        P["aux_p"] = r3(rng.uniform(.2, .9))
        fn = rng.choice(["exp(-aux_p)", "sqrt(aux_p)", "-log(aux_p)", "normcdf(aux_p)", "normpdf(aux_p)"])
        s.parafunc["aux_f"] = str(fn)
        V.append("wf")
        E.append("wf = aux_f*wf(-1) * 0.5 + Pi**1")
    if on("funcs_file", .25):
        P["nub"] = r3(rng.uniform(.1, .5))
        s.funcs = "def calc_nu(x):\n    return x / (1 - x)\n\n\ndef two_args(a, b):\n    return 0.1 * a + b\n"
        s.parafunc["nu"] = "calc_nu(nub)"
        s.parafunc["nu2"] = "two_args(nu, nub)"
        V.append("wn")
        E.append("wn = nu2*y - nu*Pi")

    # shocks that enter where they hit
    if on("direct", .08):
        import re
        for v in list(V):
            e = next((t for t in shocks if "%s = %s" % (v, t) in E), None)
            if e is None or any(re.search(r"\b%s\([+-]" % v, t) for t in E + [s.const]):
                continue
            E.remove("%s = %s" % (v, e))
            V.remove(v)
            E[:] = [re.sub(r"\b%s\b" % v, e, t) for t in E]
            s.const = re.sub(r"\b%s\b" % v, e, s.const)

    # observables
    P["y_mean"] = r3(rng.uniform(.1, .6))
    P["pi_mean"] = r3(rng.uniform(.1, .6))
    pool = [("GDP", "%s + y_mean" % ("dy" if "dy" in V else "y")), ("Infl", "Pi + pi_mean"),
            ("FFR", "r - x_bar + 0.1"), ("Mix", "w_obs*y - 0.25*Pi + w_obs*y_mean"), ("Rly", "2*(r - Pi)")]
    P["w_obs"] = r3(rng.uniform(.3, .8))
    for j in range(8):
        a, b = rng.choice(V, 2)
        pool.append(("Ob%d" % j, "%s*%s + %s*%s - %s" % (["w_obs", r3(rng.uniform(.2, 1)), "w_obs/(1+theta)"][j % 3], a, r3(rng.uniform(-1, 1)), b,
                                                          r3(rng.uniform(.1, .9)))))
    k = nobs or len(shocks)
    idx = rng.permutation(5)
    idx = np.hstack((idx, 5 + rng.permutation(len(pool) - 5)))[:k]
    for i in idx:
        s.obs[pool[i][0]] = pool[i][1]

    # priors
    pr = {"theta": (P["theta"], .3, .95, "beta", .7, .08), "sigma": (P["sigma"], .5, 4, "normal", 1.5, .3),
          "phi_pi": (P["phi_pi"], 1.1, 4, "normal", 1.8, .2),
          "sig_u": (.5, .025, 5, "inv_gamma_dynare", .3, 2), "y_mean": (.3, 0, 1, "uniform", 0.0, 1.0),
          "phi_y": (.1, .01, 1, "gamma", .15, .05), "w_obs": (.5, .1, 1, "normal", .5, .1)}
    if "rho_u" in P:
        pr["rho_u"] = (max(P["rho_u"], .05), .01, .99, "beta", .5, .15)
    keys = [k for k in pr if rng.random() < .6] or ["sigma"]
    if "all_priors" in F:
        keys = list(pr)
    rng.shuffle(keys)
    for k in keys:
        s.prior[str(k)] = pr[k]
        if rng.random() < .2:
            s.prior[str(k)] = pr[k][3:]

    # ways of writing an equation down
    if on("forms", .4):
        for i, e in enumerate(E):
            lhs, rhs = e.split(" = ")
            E[i] = [e, e, "%s = %s" % (rhs, lhs), "%s - (%s)" % (lhs, rhs), "0 = %s - (%s)" % (lhs, rhs),
                    "2*(%s) = 2*(%s)" % (lhs, rhs), "%s - (%s) = 0" % (lhs, rhs)][int(rng.integers(7))]
    # exact zeros
    if on("zeros", .1):
        for p in list(P):
            if p.startswith(("rho_", "rho2_", "ma_", "ld")) and rng.random() < .4:
                P[p] = 0.0
    # random order everywhere
    if "keep_order" not in F:
        V = [V[i] for i in rng.permutation(len(V))]
        E = [E[i] for i in rng.permutation(len(E))]
        ks = list(P)
        s.par = {ks[i]: P[ks[i]] for i in rng.permutation(len(ks))}
        ks = list(s.parafunc)
        s.parafunc = {ks[i]: s.parafunc[ks[i]] for i in rng.permutation(len(ks))}
        ks = list(s.cov)
        s.cov = {ks[i]: s.cov[ks[i]] for i in rng.permutation(len(ks))}
    s.variables, s.eqs = V, E
    return s


def rename(spec, mp):
    """the same model with other names"""
    import copy
    import re
    rx = re.compile(r"(?<![\w.])([A-Za-z_]\w*)")

    def f(t):
        return rx.sub(lambda m: mp.get(m.group(1), m.group(1)), t)
    s = copy.deepcopy(spec)
    s.variables = [f(v) for v in spec.variables]
    s.eqs = [f(e) for e in spec.eqs]
    s.const = f(spec.const)
    s.obs = {k: f(v) for k, v in spec.obs.items()}
    s.par = {f(k): v for k, v in spec.par.items()}
    s.parafunc = {f(k): f(v) for k, v in spec.parafunc.items()}
    s.cov = {f(k): f(v) for k, v in spec.cov.items()}
    s.prior = {f(k): v for k, v in spec.prior.items()}
    return s


def shuffle(rng, spec):
    """the same model with everything in another order"""
    import copy
    s = copy.deepcopy(spec)
    for a in ("variables", "eqs"):
        v = getattr(s, a)
        setattr(s, a, [v[i] for i in rng.permutation(len(v))])
    for a in ("par", "parafunc", "cov", "obs", "prior"):
        d = getattr(s, a)
        ks = list(d)
        setattr(s, a, {ks[i]: d[ks[i]] for i in rng.permutation(len(ks))})
    return s


def perturb(rng, tm, scale=.15, keep=("beta",)):
    """a parameter vector near the calibration"""
    v = []
    for p, c in zip(tm.parameters, tm.calib):
        if p in keep:
            v.append(c)
        elif c == 0:
            v.append(c)
        elif p.startswith("rho_") or p in ("theta", "rho", "h", "iota"):
            v.append(float(np.clip(c + .1 * rng.standard_normal(), .05, .93)))
        else:
            v.append(float(c * (1 + scale * rng.uniform(-1, 1))))
    return v
