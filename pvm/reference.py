"""Reference solution of a linear model with one occasionally binding constraint,
straight from the equation text: companion form, QZ for the unconstrained law, and
backward guess-and-verify recursion for an expected spell (l, k).  Shares no code
with pydsge."""
import numpy as np
import scipy.linalg as sl


class Indeterminate(Exception):
    pass


class Unstable(Exception):
    pass


class IllConditioned(Exception):
    pass


class Reference:

    def __init__(self, tm, values=None, root_margin=5e-3, solve=True):
        self.tm = tm
        self.par = tm.full_par(values)
        self.x_bar = float(self.par["x_bar"]) if "x_bar" in self.par else -1.0
        self._build()
        if solve:
            self._solve(root_margin)
        self._lk = {}

    # ---- companion form -------------------------------------------------
    def _build(self):
        tm, par = self.tm, self.par
        rows = []
        for e in tm.eqs:
            c0, cf = e.coefs(par)
            assert abs(c0) < 1e-10, "constant in equation " + e.text
            rows.append(cf)
        c0, cc = tm.const.coefs(par)
        assert abs(c0) < 1e-10
        names = list(tm.variables)
        shocks = list(tm.shocks)
        allrows = rows + [cc]
        lag, lead, slag = {}, {}, {}
        for cf in allrows:
            for (n, d) in cf:
                if n in shocks:
                    assert d <= 0
                    slag[n] = max(slag.get(n, 0), -d)
                else:
                    lag[n] = max(lag.get(n, 0), -d)
                    lead[n] = max(lead.get(n, 0), d)
        extra = []
        for s, m in slag.items():
            if m:
                names.append("%" + s)            # variable equal to the shock
                extra.append({("%" + s, 0): 1.0, (s, 0): -1.0})
                lag["%" + s] = m
        for n in list(names):
            for j in range(1, lag.get(n, 0)):
                prev = (n, -1) if j == 1 else ("%s<%d" % (n, j - 1), -1)
                names.append("%s<%d" % (n, j))   # value j periods ago
                extra.append({("%s<%d" % (n, j), 0): 1.0, prev: -1.0})
            for j in range(1, lead.get(n, 0)):
                nxt = (n, 1) if j == 1 else ("%s>%d" % (n, j - 1), 1)
                names.append("%s>%d" % (n, j))   # expectation j periods ahead
                extra.append({("%s>%d" % (n, j), 0): 1.0, nxt: -1.0})

        def canon(a):
            n, d = a
            if n in shocks:
                return a if d == 0 else canon(("%" + n, d))
            if d < -1:
                return ("%s<%d" % (n, -d - 1), -1)
            if d > 1:
                return ("%s>%d" % (n, d - 1), 1)
            return a

        n, ne = len(names), len(shocks)
        ix = {v: i for i, v in enumerate(names)}
        A, B, C, D = (np.zeros((n, n)), np.zeros((n, n)), np.zeros((n, n)), np.zeros((n, ne)))
        for i, cf in enumerate(rows + [cc] + extra):
            for a, c in cf.items():
                nm, d = canon(a)
                if nm in shocks and nm not in ix:
                    D[i, shocks.index(nm)] += c
                else:
                    (A if d == 1 else B if d == 0 else C)[i, ix[nm]] += c
        self.names, self.ix, self.n, self.ne = names, ix, n, ne
        self.A, self.B, self.C, self.D = A, B, C, D
        self.ci = len(rows)                       # row of the constraint
        self.cv = ix[tm.const_var]
        self.orig = np.arange(len(tm.variables))
        # shadow value: the value of the constrained variable that would solve its equation
        own = B[self.ci, self.cv]
        b = B[self.ci].copy()
        b[self.cv] = 0
        assert not A[self.ci].any()
        self.sh = (-b / own, -C[self.ci] / own, -D[self.ci] / own)
        self.Bc, self.Cc, self.Dc = B.copy(), C.copy(), D.copy()
        self.Bc[self.ci] = 0
        self.Bc[self.ci, self.cv] = 1
        self.Cc[self.ci] = 0
        self.Dc[self.ci] = 0
        self.cc = np.zeros(n)
        self.cc[self.ci] = self.x_bar

    # ---- unconstrained law ----------------------------------------------
    def roots(self):
        n = self.n
        M = np.block([[-self.B, -self.C], [np.eye(n), np.zeros((n, n))]])
        N = sl.block_diag(self.A, np.eye(n))
        return M, N

    def _solve(self, margin):
        n = self.n
        M, N = self.roots()
        AA, BB, al, be, Q, Z = sl.ordqz(M, N, sort="iuc", output="complex")
        aa, ab = np.abs(al), np.abs(be)
        with np.errstate(all="ignore"):
            mod = np.where(ab > 1e-11 * (1 + aa), aa / np.maximum(ab, 1e-300), np.inf)
        if np.any((aa < 1e-10) & (ab < 1e-10)):
            raise IllConditioned("singular pencil")
        self.mod = np.sort(mod)
        if np.any(np.abs(mod[np.isfinite(mod)] - 1) < margin):
            raise IllConditioned("root near the unit circle")
        ns = int((mod < 1).sum())
        self.nstable = ns
        if ns > n:
            raise Indeterminate("%d stable roots for %d" % (ns, n))
        if ns < n:
            raise Unstable("%d stable roots for %d" % (ns, n))
        Z1, Z2 = Z[:n, :n], Z[n:, :n]
        if np.linalg.cond(Z2) > 1e10:
            raise IllConditioned("stable subspace")
        P = np.real(Z1 @ np.linalg.inv(Z2))
        K = self.A @ P + self.B
        if np.linalg.cond(K) > 1e10:
            raise IllConditioned("A P + B")
        self.P, self.Q = P, -np.linalg.solve(K, self.D)
        res = np.abs(self.A @ P @ P + self.B @ P + self.C).max()
        if res > 1e-8 * (1 + np.abs(P).max() ** 2):
            raise IllConditioned("residual %g" % res)

    # ---- law under an expected spell -------------------------------------
    def law(self, l, k):
        """x_t = P x_{t-1} + Q e_t + d if the constraint is expected to bind
        from period t+l on for k periods"""
        if k <= 0:
            return self.P, self.Q, np.zeros(self.n)
        if (l, k) not in self._lk:
            nl, nk = (l - 1, k) if l else (0, k - 1)
            Pn, _, dn = self.law(nl, nk)
            B, C, D = (self.B, self.C, self.D) if l else (self.Bc, self.Cc, self.Dc)
            c = np.zeros(self.n) if l else self.cc
            K = self.A @ Pn + B
            if np.linalg.cond(K) > 1e11:
                raise IllConditioned("spell law")
            self._lk[l, k] = (-np.linalg.solve(K, C), -np.linalg.solve(K, D),
                              np.linalg.solve(K, c - self.A @ dn))
        return self._lk[l, k]

    def step(self, x, e, l=0, k=0):
        P, Q, d = self.law(l, k)
        return P @ x + Q @ e + d

    @staticmethod
    def dec(l, k):
        return (l - 1, k) if l else (0, max(k - 1, 0))

    def shadow(self, x1, x0, e=None):
        v = self.sh[0] @ x1 + self.sh[1] @ x0
        return v if e is None else v + self.sh[2] @ e

    def expected(self, x, e, l, k, n):
        """expected path and shadow values for n periods"""
        X, S = [], []
        for s in range(n):
            es = e if s == 0 else np.zeros(self.ne)
            x1 = self.step(x, es, l, k)
            S.append(self.shadow(x1, x, es))
            X.append(x1)
            x = x1
            l, k = self.dec(l, k)
        return np.array(X), np.array(S)

    # ---- equilibrium selection -------------------------------------------
    def _shadow_rows(self, l, k, n):
        """shadow value in the first n expected periods as affine functions of (x, e)"""
        n0, ne = self.n, self.ne
        T = np.hstack((np.eye(n0), np.zeros((n0, ne))))
        d = np.zeros(n0)
        R, c = np.empty((n, n0 + ne)), np.empty(n)
        for s in range(n):
            P, Q, dd = self.law(l, k)
            T1 = P @ T
            d1 = P @ d + dd
            if s == 0:
                T1[:, n0:] += Q
            R[s] = self.sh[0] @ T1 + self.sh[1] @ T
            c[s] = self.sh[0] @ d1 + self.sh[1] @ d
            if s == 0:
                R[s, n0:] += self.sh[2]
            T, d = T1, d1
            l, k = self.dec(l, k)
        return R, c

    def _table(self, lmax, kmax):
        key = (lmax, kmax)
        if not hasattr(self, "_tab"):
            self._tab = {}
        if key not in self._tab:
            R0, c0 = self._shadow_rows(0, 0, lmax + 1)
            cand, rows, cons, sgn, own = [], [], [], [], []
            for l in range(lmax + 1):
                for k in range(1, kmax + 1):
                    R, c = self._shadow_rows(l, k, l + k + 1)
                    need = {(l, -1), (l + k, 1)}
                    if k > 1:
                        need.add((l + k - 1, -1))
                    if l:
                        need.add((0, 1))
                    if l > 1:
                        need.add((l - 1, 1))
                    for s, g in need:
                        rows.append(R[s])
                        cons.append(c[s])
                        sgn.append(g)
                        own.append(len(cand))
                    cand.append((l, k))
            self._tab[key] = (R0, c0, cand, np.array(rows), np.array(cons), np.array(sgn), np.array(own))
        return self._tab[key]

    def select(self, x, e, lmax, kmax, tol=1e-8):
        """Smallest equilibrium (l,k) with l<=lmax, k<=kmax, lexicographic order.

        Returns (l, k, status): status 'ok', 'none' (no equilibrium), or 'tie' when a
        deciding comparison is too close to call."""
        R0, c0, cand, R, c, sgn, own = self._table(lmax, kmax)
        v = np.hstack((x, e))
        av = np.abs(v)
        m = R0 @ v + c0 - self.x_bar
        sc = tol * (np.abs(R0) @ av + np.abs(c0) + abs(self.x_bar))
        if np.all(m > sc):
            return 0, 0, "ok"
        if not np.any(m < -sc):
            return None, None, "tie"
        if not len(cand):
            return 0, 0, "none"
        g = sgn * (R @ v + c - self.x_bar)
        sc = tol * (np.abs(R) @ av + np.abs(c) + abs(self.x_bar))
        n = len(cand)
        bad = np.bincount(own, ~(g > sc), n) > 0        # some condition not clearly met
        out = np.bincount(own, g < -sc, n) > 0          # some condition clearly violated
        for i in range(n):
            if not bad[i]:
                return cand[i] + ("ok",)
            if not out[i]:
                return None, None, "tie"
        return 0, 0, "none"

    # ---- measurement ------------------------------------------------------
    def obs(self):
        """(H over all variables, constant) from the measurement equations"""
        H = np.zeros((len(self.tm.obs), self.n))
        c = np.zeros(len(self.tm.obs))
        for i, e in enumerate(self.tm.obs.values()):
            c0, cf = e.coefs(self.par)
            c[i] = c0
            for (nm, d), v in cf.items():
                assert d == 0
                H[i, self.ix[nm]] += v
        return H, c

    def sig(self):
        return np.diag(self.tm.stds(self.par) ** 2)

    def stationary(self):
        return sl.solve_discrete_lyapunov(self.P, self.Q @ self.sig() @ self.Q.T)
