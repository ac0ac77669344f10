"""The meaning of a model file does not depend on how it is written down."""
import copy
import os
import signal
import numpy as np
from ..harness import *

CASES = {"quick": 27, "thorough": 700}
RULE = ("a case is one random model written in several ways (list markers, comments, line continuation, powers, "
        "equation forms, order of everything, names, inlined or derived parameters); each version is read by the "
        "package and driven by the same shocks; an evaluation is one version compared, by name, with the independent "
        "solution of the original; or one malformed file, which has to be refused")
MIN = {"versions": 100, "malformed": 130, "binding": 50, "bound left out": 5}


def variants(rng, spec):
    yield "as is", spec, {}, None
    st = dict(mark=str(rng.choice(["-", "~"])), comments=bool(rng.random() < .7), power=str(rng.choice(["**", "^"])),
              cont=bool(rng.random() < .5), semicolon=bool(rng.random() < .5), indent=int(rng.choice([2, 3, 4, 6])), tail=str(rng.choice(["", " "])))
    yield "notation", spec, {}, st
    yield "notation ~", spec, {}, dict(mark="~", indent=int(rng.choice([2, 3, 4])), comments=True)
    yield "order", gen.shuffle(rng, spec), {}, None
    keep = {"x_bar", "beta_"}
    ids = spec.variables + [p for p in list(spec.par) + list(spec.parafunc) if p not in keep] + list(spec.cov)
    style = int(rng.integers(4))
    mp = {}
    for j, n in enumerate(ids):
        mp[n] = ["%s_%s" % (n, n), "v%d" % j, "Q" + n[::-1].replace("_", "u") + "%d" % j, n + "a"][style]
    yield "names", gen.rename(spec, mp), mp, None
    mp2 = dict(mp)
    yield "names, order, notation", gen.shuffle(rng, gen.rename(spec, mp2)), mp2, st
    # other forms of the equations
    s = copy.deepcopy(spec)
    for i, e in enumerate(s.eqs):
        if "=" in e:
            lhs, rhs = [x.strip() for x in e.split("=")]
        else:
            lhs, rhs = e, "0"
        s.eqs[i] = ["%s = %s" % (rhs, lhs), "%s - (%s)" % (lhs, rhs), "0 = %s - (%s)" % (lhs, rhs),
                    "(%s)/4 = (%s)/4" % (lhs, rhs), "%s - (%s) = 0" % (lhs, rhs), "-(%s) = -(%s)" % (lhs, rhs)][
                        int(rng.integers(6))]
    yield "forms", s, {}, None
    # a parameter defined as a function of another one
    s = copy.deepcopy(spec)
    p = "sigma"
    s.par["half_" + p] = s.par.pop(p) / 2
    s.prior.pop(p, None)
    s.parafunc[p] = "2*half_" + p
    yield "derived", s, {}, None


def drive(mon, c, rng, m, R, mp, what, text):
    vv = [str(v) for v in m.vv]
    names = c.tm.variables
    f = lambda n: mp.get(n, n)
    mon.check(all(f(n) in vv for n in names), "a declared variable is missing", version=what, text=text)
    mi = [vv.index(f(n)) for n in names]
    ri = [R.ix[n] for n in names]
    sh = [str(s) for s in m.shocks]
    mon.check(sorted(sh) == sorted(f(s) for s in c.tm.shocks), "the shocks are not those declared", version=what,
              got=sh, text=text)
    si = [sh.index(f(s)) for s in c.tm.shocks]
    H, cst = R.obs()
    oi = [list(m.observables).index(o) for o in c.tm.observables]
    sd = c.tm.stds(R.par)
    st, x = np.zeros(len(vv)), np.zeros(R.n)
    n = 0
    for t in range(12):
        e = sd * rng.standard_normal(len(sd)) * 3
        em = np.zeros(len(sd))
        em[si] = e
        l, k, status = R.select(x, e, 3, 17)
        if status != "ok":
            break
        st, lk, fl = m.t_func(st, em, return_k=True)
        x = R.step(x, e, l, k)
        mon.check(tuple(lk) == (l, k) and not fl, "durations depend on how the model is written", version=what,
                  got=tuple(lk), want=(l, k), text=text)
        mon.close_to(st[mi], x[ri], "the same model written differently behaves differently", version=what, period=t,
                     text=text, original=c.text)
        mon.close_to(np.asarray(m.obs(st[None]))[0][oi], H @ x + cst, "observables depend on how the model is written",
                     version=what, text=text)
        mon.saw("binding" if k else "slack")
        n += 1
    cov = np.asarray(m.get_cov(), float)
    mon.close_to(np.diag(cov)[si], sd, "standard deviations of shocks depend on how the model is written",
                 version=what)
    mon.close_to(m.get_par("x_bar"), R.x_bar, "the bound depends on how the model is written", version=what)
    pn = dict(zip([str(p) for p in m.par_names], m.get_par()))
    for p, v in zip(c.tm.parameters, c.tm.calib):
        if f(p) in pn:
            mon.close_to(pn[f(p)], v, "parameter value depends on how the model is written", version=what, name=p)
        mon.close_to(m.get_par(f(p)), v, "parameter value depends on how the model is written", version=what, name=p)
    return n


def malformed(rng, spec):
    def v(f):
        s = copy.deepcopy(spec)
        f(s)
        return s
    yield "undeclared variable", v(lambda s: s.eqs.__setitem__(0, s.eqs[0] + " + nobody(-1)" if "=" in s.eqs[0] else
                                                               s.eqs[0] + " + nobody"))
    yield "undefined parameter", v(lambda s: s.eqs.__setitem__(1, "undefd*" + s.variables[0] + " - (" +
                                                               s.eqs[1].replace("=", ") + (") + ")"))
    yield "one equation too few", v(lambda s: s.eqs.pop())
    yield "one equation too many", v(lambda s: s.eqs.append("%s = 0.5*%s(-1)" % (s.variables[0], s.variables[0])))
    yield "constraint is not an equation", v(lambda s: setattr(s, "const", s.const.replace("=", "-")))
    yield "expectations in the constraint", v(lambda s: setattr(s, "const", s.const + " + 0.1*Pi(+1)"))
    yield "missing comma", v(lambda s: setattr(s, "variables", s.variables[:-2] + [" ".join(s.variables[-2:])]))
    yield "undefined in a derived parameter", v(lambda s: s.parafunc.__setitem__("kappa", "undefd*2"))
    yield "circular derived parameters", v(lambda s: s.parafunc.update(kappa="cc1 + 1", cc1="kappa - 1"))
    yield "lag in an observable", v(lambda s: s.obs.__setitem__(list(s.obs)[0], "y - y(-1)"))
    yield "undeclared in an observable", v(lambda s: s.obs.__setitem__(list(s.obs)[0], "y + nobody"))
    yield "undeclared in the constraint", v(lambda s: setattr(s, "const", s.const + " + nobody"))
    yield "two constraints", v(lambda s: setattr(s, "const", s.const + "\n    - Pi = 0.5*y"))
    yield "a long lag in the constraint", v(lambda s: setattr(s, "const", s.const + " + 0.1*y(-2)"))
    e = list(spec.cov)[0]
    yield "a lagged shock in the constraint", v(lambda s: setattr(s, "const", s.const + " + 0.1*%s(-1)" % e))
    yield "a shock that is expected", v(lambda s: s.eqs.__setitem__(0, "0 = 0.1*%s(+1) + %s" % (
        e, s.eqs[0].replace("=", "- (") + (")" if "=" in s.eqs[0] else ""))))
    yield "a shock that is nowhere", v(lambda s: s.cov.__setitem__("e_nowhere", .1))
    yield "a shock in an observable", v(lambda s: s.obs.__setitem__(list(s.obs)[0], "y + %s" % e))
    yield "a variable that is declared twice", v(lambda s: (s.variables.append(s.variables[0]), s.eqs.append(
        "%s = 0.5*%s(-1)" % (s.variables[0], s.variables[0]))))


def unbounded(mon, c, rng):
    """without a bound it is -1"""
    a, b = copy.deepcopy(c.spec), copy.deepcopy(c.spec)
    for s in (a, b):
        s.parafunc.pop("x_bar", None)
        s.par.pop("x_bar", None)
        s.prior.pop("x_bar", None)
    if "x_bar" in a.render():
        for o in a.obs:
            a.obs[o] = a.obs[o].replace("x_bar", "(-1.)")
        if "x_bar" in a.render():
            return
    b.par["x_bar"] = -1.
    ms = []
    for s in (a, b):
        m = read(write_model(mon, s, name="m%d" % int(rng.integers(10 ** 9))))
        m.set_par("calib")
        ms.append(m)
    ma, mb = ms
    va, vb = [str(v) for v in ma.vv], [str(v) for v in mb.vv]
    mon.check(sorted(va) == sorted(vb), "variables of a model without a bound", got=va, want=vb)
    ix = [va.index(v) for v in vb]
    sa, sb = np.zeros(len(va)), np.zeros(len(vb))
    sd = np.diag(np.asarray(mb.get_cov(), float))
    for t in range(8):
        e = rng.standard_normal(len(sd)) * sd * 3
        (sa, ka, fa), (sb, kb, fb) = ma.t_func(sa, e, return_k=True), mb.t_func(sb, e, return_k=True)
        if fa or fb:
            break
        mon.check(tuple(ka) == tuple(kb), "without a bound in the file it is not -1", got=ka, want=kb, text=a.render())
        mon.close_to(sa[ix], sb, "without a bound in the file it is not -1", text=a.render())
        if kb[1]:
            mon.saw("bound left out")


def case(mon, rng, i):
    c = draw_case(mon, rng, {"forms"} if i % 2 else {"functions", "funcs_file"})
    spec = c.spec
    for what, s, mp, st in variants(rng, spec):
        text = s.render(st)
        p = write_model(mon, s, name="m%d" % int(rng.integers(10 ** 9)), text=text)
        m = read(p)
        m.set_par("calib")
        n = drive(mon, c, rng, m, c.R, mp, what, text)
        mon.saw("versions")
        mon.case(sig=text if n > 3 else None, sample=dict(version=what, tags=sorted(spec.tags)))
    unbounded(mon, c, rng)
    if i % 3 == 0:
        for what, s in malformed(rng, spec):
            p = write_model(mon, s)
            mon.saw("malformed")
            mon.case(sig=(c.text, what))
            def late(*_):
                raise TimeoutError
            old = signal.signal(signal.SIGALRM, late)
            signal.alarm(150)
            try:
                m = read(p)
                m.set_par("calib")
            except TimeoutError:
                mon.fail("reading a malformed model file does not end", how=what, text=s.render())
            except Exception:
                continue
            finally:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, old)
            mon.fail("a malformed model file is accepted", how=what, text=s.render())
