"""Reads a model file the way its author wrote it: the text of each equation is
evaluated numerically, atom by atom.  Independent of pydsge's parser (no sympy)."""
import re
import math
import yaml
import numpy as np
from scipy.stats import norm

STD_FUNCS = {
    "exp": math.exp, "log": math.log, "sqrt": math.sqrt,
    "normpdf": lambda x: float(norm.pdf(x)), "normcdf": lambda x: float(norm.cdf(x)),
    "normppf": lambda x: float(norm.ppf(x)), "norminv": lambda x: float(norm.ppf(x)),
}

_ID = re.compile(r"(?<![\w.])([A-Za-z_]\w*)(\s*\(\s*([+-]?\s*\d+)\s*\))?")


class Eq:
    """one equation `lhs = rhs` as a function of dated symbols and parameters"""

    def __init__(self, text, dated):
        self.text = text
        self.atoms = set()

        def sub(m):
            name, call, lag = m.group(1), m.group(2), m.group(3)
            if name not in dated:
                return m.group(0)
            lag = int(lag.replace(" ", "")) if call else 0
            self.atoms.add((name, lag))
            return "_g(%r,%d)" % (name, lag)

        t = text.replace("^", "**")
        if "=" in t:
            lhs, rhs = t.split("=")
        else:
            lhs, rhs = t, "0"
        self.lhs_name = lhs.strip()
        lhs, rhs = _ID.sub(sub, lhs), _ID.sub(sub, rhs)
        self.code = compile("(%s)-(%s)" % (lhs.strip(), rhs.strip()), text, "eval")
        self.rhs_code = compile("(%s)" % rhs.strip(), text, "eval")

    def residual(self, par, get):
        return eval(self.code, dict(par, _g=get, __builtins__={}))

    def coefs(self, par):
        """(constant, {atom: coefficient}); checks linearity in the dated symbols"""
        zero = self.residual(par, lambda n, l: 0.0)
        out = {}
        for a in self.atoms:
            one = self.residual(par, lambda n, l: 1.0 if (n, l) == a else 0.0)
            two = self.residual(par, lambda n, l: -2.0 if (n, l) == a else 0.0)
            c = one - zero
            assert abs((two - zero) + 2 * c) < 1e-9 * (1 + abs(c)), "not linear: " + self.text
            out[a] = c
        return zero, out


    def cached_coefs(self, par):
        if getattr(self, "_ck", None) is not par:
            self._ck, self._cv = par, self.coefs(par)
        return self._cv


class TextModel:
    def __init__(self, text, funcs=None):
        """`text`: canonical yaml (list items marked by `-`)"""
        self.text = text
        d = yaml.safe_load(text.replace("^", "**"))
        self.funcs = dict(STD_FUNCS, **(funcs or {}))
        self.variables = [str(v) for v in d["declarations"]["variables"]]
        cal = d["calibration"]
        self.parameters = [str(p) for p in cal["parameters"]]
        self.calib = [float(v) for v in cal["parameters"].values()]
        self.parafunc = {str(k): str(v) for k, v in (cal.get("parafunc") or {}).items()}
        self.shocks = [str(s) for s in cal["covariances"]]
        self.cov = {str(k): str(v) for k, v in cal["covariances"].items()}
        dated = set(self.variables) | set(self.shocks)
        eqs = d["equations"]
        self.eqs = [Eq(e, dated) for e in eqs["model"]]
        self.const = Eq(eqs["constraint"][0], dated)
        self.const_var = self.const.lhs_name
        self.obs = {str(k): Eq(str(v), dated) for k, v in (eqs.get("observables") or {}).items()}
        self.observables = list(self.obs)
        self.prior = (d.get("estimation") or {}).get("prior") or {}
        self.name = d["declarations"]["name"]

    def full_par(self, values=None):
        """parameter dict including those that are functions of others"""
        values = self.calib if values is None else values
        par = dict(zip(self.parameters, [float(v) for v in values]))
        todo = dict(self.parafunc)
        env = dict(self.funcs)
        while todo:
            n = len(todo)
            for k in list(todo):
                try:
                    par[k] = float(eval(todo[k].replace("^", "**"), dict(env, **par, __builtins__={})))
                    del todo[k]
                except NameError:
                    continue
            assert len(todo) < n, "circular: %s" % todo
        return par

    def stds(self, par):
        return np.array([float(eval(self.cov[s], dict(self.funcs, **par, __builtins__={}))) for s in self.shocks])
