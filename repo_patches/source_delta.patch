From 84e2ba36e081d0e77f17085ef15eefd46516e14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:32 +0000
Subject: [PATCH 01/52] fix: keep the sign of lagged variables and the scale of
 shocks in the constraint

---
 pydsge/gensys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 456947a..6230187 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -249,6 +249,8 @@ def gen_sys(
     # y-space is the space of the original variables augmented by the shocks
     c_arg = list(vv0).index(str(self.const_var))
     fc0 = -fc0 / fb0[c_arg]
+    if fd0 is not None:
+        fd0 = -fd0 / fb0[c_arg]
     fb0 = -fb0 / fb0[c_arg]
 
     # create auxiliary vars for those both in A & C
@@ -291,7 +293,7 @@ def gen_sys(
     CC0 = np.block([[CC0, DD0], [np.zeros((dimeps, AA0.shape[1]))]])
     fb0 = np.pad(fb0, (0, dimeps))
     if fd0 is not None:
-        fc0 = -np.hstack((fc0, fd0))
+        fc0 = np.hstack((fc0, fd0))
     else:
         fc0 = np.pad(fc0, (0, dimeps))
 
-- 
2.43.0


From 4070ec12d3eabdf724d39e50326240c456a21a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:26 +0000
Subject: [PATCH 02/52] fix: treat variables whose lag enters through the
 constraint as hybrid variables

---
 pydsge/gensys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 6230187..ce339d3 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -261,7 +261,8 @@ def gen_sys(
         print("[gen_sys:]".ljust(15, " ") + f" Backward-looking variables: {bwd_vars}", flush=True)
 
 
-    inall = ~fast0(AA0, 0) & ~fast0(CC0, 0)
+    # (a lag may also enter via the constraint only)
+    inall = ~fast0(AA0, 0) & (~fast0(CC0, 0) | ~fast0(fc0))
 
     if verbose > 1:
         hyb_vars = [self.variables[i].name for i, e in enumerate(inall) if e]
@@ -283,6 +284,8 @@ def gen_sys(
         BB0[-sum(inall):, : -sum(inall)][:, inall] = -np.eye(sum(inall))
         CC0[:, -sum(inall):] = CC0[:, : -sum(inall)][:, inall]
         CC0[:, : -sum(inall)][:, inall] = 0
+        fc0[-sum(inall):] = fc0[: -sum(inall)][inall]
+        fc0[: -sum(inall)][inall] = 0
 
     if verbose > 1:
         print("[gen_sys:]".ljust(15, " ") + f" {sum(inall)} auxiliary variables have been added", flush=True)
-- 
2.43.0


From b7eef2493e3070cb3be89786cba0ac2c913ddd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:57 +0000
Subject: [PATCH 03/52] fix: accept shocks that only enter through the
 constraint

---
 pydsge/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 9797a5c..6f06dd8 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -797,6 +797,8 @@ class DSGE(Model):
         max_lag_exo = dict.fromkeys(shk_ordering)
 
         all_shocks = [list(eq.atoms(Shock)) for eq in equations]
+        if c_var:
+            all_shocks.append(list(const_eq.atoms(Shock)))
 
         for s in shk_ordering:
             try:
-- 
2.43.0


From 7511d61c594fb010c1b3e90e379cf4002dc45aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:57 +0000
Subject: [PATCH 04/52] fix: leads of three and more periods reach as far ahead
 as written

---
 pydsge/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 6f06dd8..4e221f8 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -865,7 +865,10 @@ class DSGE(Model):
             for i in np.arange(2, abs(max_lead_endo[v]) + 1):
                 var_l = Variable(v.name + "_LEAD" + str(i - 1))
 
-                var_l_1 = v(+1)
+                if i == 2:
+                    var_l_1 = v(+1)
+                else:
+                    var_l_1 = Variable(v.name + "_LEAD" + str(i - 2), date=+1)
 
                 subs_dict[Variable(v.name, date=+i)] = var_l(+1)
                 var_ordering.append(var_l)
-- 
2.43.0


From dbf4f24b328a9d4a6ae95614c5036579593a7778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:57 +0000
Subject: [PATCH 05/52] fix: do not silently drop lagged variables from
 observation equations

---
 pydsge/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 4e221f8..d832d0a 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -340,9 +340,15 @@ class DSGE(Model):
             eq = self["obs_equations"][str(obs)]
             ZZ1[eq_i, 0] = eq.subs(subs_dict)
 
-            curr_var = filter(lambda x: x.date >= 0, eq.atoms(Variable))
+            dated_var = [x for x in eq.atoms(Variable) if x.date != 0]
 
-            for v in curr_var:
+            if dated_var:
+                raise NotImplementedError(
+                    "Only contemporaneous variables are allowed in observation equations: ",
+                    *dated_var
+                )
+
+            for v in eq.atoms(Variable):
                 v_j = vlist.index(v)
                 ZZ0[eq_i, v_j] = eq.diff(v).subs(subs_dict)
 
-- 
2.43.0


From 00fb521d6434b2b2ca19e5fb87c5463eebd93182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:57 +0000
Subject: [PATCH 06/52] fix: a cached model carries the path and functions of
 the file that was read

---
 pydsge/parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index d832d0a..f6aae85 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -31,8 +31,7 @@ def crawl_cached_models(mtxt, ftxt):
 
             use_cached = cached_models[i].fdict["yaml_raw"] == mtxt
 
-            if ftxt is not None:
-                use_cached &= cached_models[i].fdict.get("ffile_raw") == ftxt
+            use_cached &= cached_models[i].fdict.get("ffile_raw") == ftxt
 
             if use_cached:
                 processed_raw_model = cached_models[i]
@@ -523,6 +522,9 @@ class DSGE(Model):
             if verbose:
                 print("[DSGE:]".ljust(15, " ") + " Model is already parsed, reusing parsed model")
             pmodel = deepcopy(processed_raw_model)
+            # the same model may have been read from elsewhere
+            pmodel.func_file = func_file
+            pmodel.path = os.path.dirname(mfile)
 
         else:
 
@@ -583,7 +585,7 @@ class DSGE(Model):
         fdict = dict(np.load(npzfile, allow_pickle=True))
 
         mtxt = str(fdict["yaml_raw"])
-        ftxt = str(fdict.get("ffile_raw"))
+        ftxt = str(fdict["ffile_raw"]) if "ffile_raw" in fdict else None
 
         try:
             if force_parse:
-- 
2.43.0


From 34b2101c3c017218d108c2f262aaf230c0defb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:57 +0000
Subject: [PATCH 07/52] fix: models saved without data can be loaded

---
 pydsge/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index f6aae85..6899282 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -626,7 +626,9 @@ class DSGE(Model):
         pmodel.fdict = fdict
         pmodel.name = str(fdict["name"])
         pmodel.path = os.path.dirname(npzfile)
-        pmodel.data = cpickle.loads(fdict["data"])
+        pmodel.description = str(fdict.get("description", pmodel.name))
+        if "data" in fdict:
+            pmodel.data = cpickle.loads(fdict["data"])
         pmodel.fdict["model_dump"] = cpickle.dumps(pmodel, protocol=4)
 
         # pmodel.debug = platform == "darwin" or platform == "win32"
-- 
2.43.0


From 08bc9100992806cda84b76e5dce5c5f2a8ee6dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:57 +0000
Subject: [PATCH 08/52] fix: do not mistake the name of a parameter set for a
 parameter vector

---
 pydsge/mpile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index cc2be92..371ee5e 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -315,9 +315,9 @@ def set_par(
             par = get_par(
                 self, dummy=dummy, asdict=False, full=True, verbose=verbose, **args
             )
-        elif len(dummy) == len(self.par_fix):
+        elif not isinstance(dummy, str) and len(dummy) == len(self.par_fix):
             par = dummy
-        elif len(dummy) == len(self.prior_arg):
+        elif not isinstance(dummy, str) and len(dummy) == len(self.prior_arg):
             par[self.prior_arg] = dummy
         else:
             par = get_par(
-- 
2.43.0


From 3ea7c565519a1919860d397f35e124f9755c7f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 09/52] fix: traj uses the current parameters and the
 trajectory of the requested (l,k)

---
 pydsge/engine.py | 3 +++
 pydsge/tools.py  | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydsge/engine.py b/pydsge/engine.py
index 990141c..50f7f63 100644
--- a/pydsge/engine.py
+++ b/pydsge/engine.py
@@ -193,6 +193,9 @@ def preprocess(self, PU, MU, PR, MR, gg, fq1, fp1, fq0, parallel=False, verbose=
         PU, MU, PR, MR, gg, fq1, fp1, fq0, omg, lam, x_bar, l_max, k_max
     )
 
+    # trajectories from previous parameters are outdated
+    self.__dict__.pop("precalc_tmat", None)
+
     if verbose:
         print(
             "[preprocess:]".ljust(15, " ")
diff --git a/pydsge/tools.py b/pydsge/tools.py
index 2e8278e..bdc70ce 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -513,7 +513,7 @@ def traj(self, state, l=None, k=None, verbose=True):
 
     tmat, tterm = self.precalc_tmat
 
-    return tmat[:, l, k - 1] @ state + tterm[:, l, k - 1]
+    return tmat[:, l, k] @ state + tterm[:, l, k]
 
 
 def k_map(self, state, l=None, k=None, verbose=True):
-- 
2.43.0


From 751309911a3a5aeddae1396af85d8ca7f43abc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 10/52] fix: detect a changed ordering of variables in irfs and
 simulate

---
 pydsge/tools.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index bdc70ce..237a475 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -229,6 +229,7 @@ def irfs(
         new_shocklist.append(vec)
 
     pickled_self = dill.dumps(self, recurse=True)
+    vv_self = self.vv
 
     def runner(par):
 
@@ -247,6 +248,11 @@ def irfs(
                 L[:] = np.nan
                 return X, K, L, 4, 4
 
+            if not np.array_equal(pelf.vv, vv_self):
+                raise Exception(
+                    "The ordering of variables has changed given different parameters."
+                )
+
         st_vec = state if state is not None else np.zeros(nstates)
 
         supererrflag = False
@@ -422,6 +428,7 @@ def simulate(
         create_pool(self)
 
     pickled_self = dill.dumps(self, recurse=True)
+    vv_self = self.vv
 
     def runner(arg):
 
@@ -435,7 +442,7 @@ def simulate(
 
         if pelf.set_par is not None:
             _, vv = pelf.set_par(par, return_vv=True, **args)
-            if not np.all(vv == pelf.vv):
+            if not np.array_equal(vv, vv_self):
                 raise Exception(
                     "The ordering of variables has changed given different parameters."
                 )
-- 
2.43.0


From 21ec6c92aadbf1c631c41d535162f9a341c3721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 11/52] fix: simulate works without a source dict

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 237a475..f978744 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -472,7 +472,7 @@ def simulate(
     res = wrap(
         self.mapper(runner, zip(*sample)),
         unit=" sample(s)",
-        total=len(source["pars"]),
+        total=len(pars),
         dynamic_ncols=True,
     )
 
-- 
2.43.0


From e5c5770055a3de1b3555cc8c57708e609303d38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 12/52] fix: obs with several parameter vectors leaves the
 model as it was

---
 pydsge/tools.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index f978744..1550257 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -117,14 +117,18 @@ def o_func(self, state, covs=None, pars=None):
     if pars is not None:
 
         obs = []
-        for sti, par in zip(state, pars):
-            self.set_par(par, get_hx_only=True)
-            ob = (
-                sti[:, : self.dimp] @ self.hx[0].T
-                + sti[:, self.dimp:] @ self.hx[1].T
-                + self.hx[2]
-            )
-            obs.append(ob)
+        current_par = self.get_par()
+        try:
+            for sti, par in zip(state, pars):
+                self.set_par(par, get_hx_only=True)
+                ob = (
+                    sti[:, : self.dimp] @ self.hx[0].T
+                    + sti[:, self.dimp:] @ self.hx[1].T
+                    + self.hx[2]
+                )
+                obs.append(ob)
+        finally:
+            self.set_par(current_par, get_hx_only=True)
 
         return np.array(obs)
 
-- 
2.43.0


From 01be0a769c58050d3eb19d1bc0939252149a2807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 13/52] fix: intervals of observables are based on their
 covariance

---
 pydsge/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 1550257..88f0289 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -155,7 +155,8 @@ def o_func(self, state, covs=None, pars=None):
     std = np.sqrt(var)
     iv95 = np.stack((state - 1.96 * std, state, state + 1.96 * std))
 
-    std_obs = (np.hstack((self.hx[0], self.hx[1])) @ std.T).T
+    hmat = np.hstack((self.hx[0], self.hx[1]))
+    std_obs = np.sqrt(np.einsum("ij,tjk,ik->ti", hmat, covs, hmat))
     iv95_obs = np.stack((obs - 1.96 * std_obs, obs, obs + 1.96 * std_obs))
 
     return iv95_obs, iv95
-- 
2.43.0


From 1b2505e5a2f1ea64a6f728dbda9723fca8cc8331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 14/52] fix: obs accepts a single state vector

---
 pydsge/tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 88f0289..73e91cd 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -145,8 +145,7 @@ def o_func(self, state, covs=None, pars=None):
         )
 
     if np.ndim(state) <= 1:
-        data = self.data.index if hasattr(self, "data") else None
-        obs = pd.DataFrame(obs, index=data, columns=self.observables)
+        obs = pd.Series(obs, index=self.observables)
 
     if covs is None:
         return obs
-- 
2.43.0


From ae653e548202e16a179111a9e5bf9b392bddb825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 15/52] fix: everything works serially when no pool was
 requested

---
 pydsge/estimation.py | 4 ++--
 pydsge/filtering.py  | 2 +-
 pydsge/mcmc.py       | 2 +-
 pydsge/mpile.py      | 2 +-
 pydsge/tools.py      | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pydsge/estimation.py b/pydsge/estimation.py
index 87225ad..fa265e1 100644
--- a/pydsge/estimation.py
+++ b/pydsge/estimation.py
@@ -250,7 +250,7 @@ def create_pool(self, ncores=None, threadpool_limit=None):
 
     import pathos
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         ncores = ncores or self.pool.ncpus
         self.pool.close()
     else:
@@ -281,7 +281,7 @@ def create_pool(self, ncores=None, threadpool_limit=None):
 @property
 def mapper(self):
 
-    if hasattr(self, "pool") and not self.debug:
+    if getattr(self, "pool", None) and not self.debug:
         return self.pool.imap
     else:
         return map
diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 519c53c..483d61d 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -357,7 +357,7 @@ def extract(
     fname = self.filter.name
     verbose = max(verbose, debug)
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         from .estimation import create_pool
 
         create_pool(self)
diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 734adc7..ca4ed81 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -79,7 +79,7 @@ def mcmc(
 
         self.pool = None
 
-    elif hasattr(self, "pool"):
+    elif self.pool:
 
         from .estimation import create_pool
 
diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 371ee5e..b12cb22 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -73,7 +73,7 @@ def prior_sampler(
 
     self.debug |= debug
 
-    if not debug and hasattr(self, "pool"):
+    if not debug and getattr(self, "pool", None):
 
         from .estimation import create_pool
         create_pool(self)
diff --git a/pydsge/tools.py b/pydsge/tools.py
index 73e91cd..4d953f9 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -212,7 +212,7 @@ def irfs(
     if not hasattr(self, "par"):
         gen_sys(self, verbose=verbose, **args)
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         from .estimation import create_pool
 
         create_pool(self)
@@ -426,7 +426,7 @@ def simulate(
 
     self.debug |= debug
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         from .estimation import create_pool
 
         create_pool(self)
-- 
2.43.0


From 1ad47e808bcb3a7786df6da2c97a41d39d9c4e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 16/52] fix: mcmc can be run with the default tuning periods

---
 pydsge/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index ca4ed81..feffb1d 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -162,8 +162,8 @@ def mcmc(
 
     if temp == 1:
 
-        log_probs = sampler.get_log_prob()[-tune:]
-        chain = sampler.get_chain()[-tune:]
+        log_probs = sampler.get_log_prob()[-self.tune:]
+        chain = sampler.get_chain()[-self.tune:]
         chain = chain.reshape(-1, chain.shape[-1])
 
         arg_max = log_probs.argmax()
-- 
2.43.0


From 3a6bd0d32884172ea0c6c1a76d6efbd31d1dc4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 17/52] fix: the mode found by mcmc is a parameter vector also
 under the prior transformation

---
 pydsge/mcmc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index feffb1d..b527078 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -169,6 +169,8 @@ def mcmc(
         arg_max = log_probs.argmax()
         mode_f = log_probs.flat[arg_max]
         mode_x = chain[arg_max].flatten()
+        if self.bptrans:
+            mode_x = self.bptrans(mode_x)
 
         self.fdict["mode_x"] = mode_x
         self.fdict["mode_f"] = mode_f
-- 
2.43.0


From 485adcf569bdda4cc389f48728e818321869a77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 18/52] fix: mcmc draws as many initial states as there are
 walkers

---
 pydsge/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index b527078..d49a830 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -110,12 +110,12 @@ def mcmc(
                 "prior_mean",
                 asdict=False,
                 full=False,
-                nsample=nwalks,
+                nsamples=nwalks,
                 verbose=verbose > 1,
             )
         else:
             p0 = get_par(
-                self, "best", asdict=False, full=False, nsample=nwalks, verbose=verbose > 1
+                self, "best", asdict=False, full=False, nsamples=nwalks, verbose=verbose > 1
             )
     elif not resume:
         nwalks = p0.shape[0]
-- 
2.43.0


From 8d35c8192721060dc15b212a7986c5149974f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 19/52] fix: initial states of walkers are given in the
 parameterspace

---
 pydsge/mcmc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index d49a830..eafc107 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -120,6 +120,10 @@ def mcmc(
     elif not resume:
         nwalks = p0.shape[0]
 
+    if p0 is not None and self.bptrans:
+        # from parameterspace to the space of the sampler
+        p0 = self.bptrans(p0, sampler_to_prior=False)
+
     if backend:
 
         if isinstance(backend, str):
-- 
2.43.0


From cd28d2b8e202569e2eb0e9bd125cad62cac32102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 20/52] fix: load_rdict accepts a path with suffix

---
 pydsge/clsmethods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 34a8df6..1776051 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -184,7 +184,7 @@ def load_rdict(self, path=None, suffix=""):
 
     path += suffix
 
-    if path[-4] != ".npz":
+    if path[-4:] != ".npz":
         path += ".npz"
 
     if not os.path.isabs(path):
-- 
2.43.0


From a26e47880f18975b66f216a9707a4d03dd0b2f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 21/52] fix: get_sample draws from the most recent part of the
 chain

---
 pydsge/clsmethods.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 1776051..7ed060b 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -333,14 +333,14 @@ def load_data(self, df, start=None, end=None):
 def get_sample(self, size, chain=None):
     """Get a (preferably recent) sample from the chain"""
 
-    chain = None or self.get_chain()
+    chain = self.get_chain() if chain is None else chain
     clen, nwalks, npar = chain.shape
-    recent = int(np.ceil(60 / nwalks))
+    recent = int(np.ceil(size / nwalks))
 
     if recent > clen:
         raise Exception("Requested sample size is larger than chain")
 
-    sample = chain[:, -recent, :].reshape(-1, npar)
+    sample = chain[-recent:].reshape(-1, npar)
     res = np.random.choice(np.arange(recent * nwalks), size, False)
 
     return sample[res]
-- 
2.43.0


From e52bf6a2d3de8ea05247a33241569e724ceb9c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 22/52] fix: data with a numeric index can be truncated

---
 pydsge/clsmethods.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 7ed060b..b72999c 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -312,11 +312,13 @@ def load_data(self, df, start=None, end=None):
 
         d = df[self.observables]
 
-    if start is not None:
-        start = str(start)
+    if not pd.api.types.is_numeric_dtype(d.index):
 
-    if end is not None:
-        end = str(end)
+        if start is not None:
+            start = str(start)
+
+        if end is not None:
+            end = str(end)
 
     d = d.loc[start:end]
 
-- 
2.43.0


From 712c77928cd175d58a8490b705b91cdfb2045fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 23/52] fix: post_mean accepts a chain

---
 pydsge/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index 7f0ae45..79939ee 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -265,7 +265,7 @@ def post_mean(self, chain=None, tune=None):
     """Calculate the mean of the posterior distribution"""
 
     tune = tune or self.get_tune
-    chain = chain or self.get_chain()[-tune:]
+    chain = self.get_chain()[-tune:] if chain is None else chain
 
     return chain.reshape(-1, chain.shape[-1]).mean(axis=0)
 
-- 
2.43.0


From 8d11632a111845521205b5a011ccbf1da5524400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 24/52] fix: gfevd works on the results of extract

---
 pydsge/stats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index 79939ee..de78f78 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -69,7 +69,10 @@ def gfevd(
     """
     np.random.seed(seed)
 
-    states = eps_dict["means"]
+    if "means" in eps_dict:
+        states = eps_dict["means"]
+    else:
+        states = self.simulate(eps_dict, linear=linear)[0]
     if np.ndim(states) == 2:
         states = np.expand_dims(states, 0)
     states = states[:, :-1, :]
-- 
2.43.0


From fda48ab5fbaaf72cd49c4812b10b4924c958fa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 25/52] fix: mbcs_index uses all variables

---
 pydsge/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index de78f78..e9aad48 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -130,7 +130,7 @@ def mbcs_index(self, vd, verbose=True):
     Between 0 and 1, this indicates how well one single shock explains the business cycle dynamics
     """
 
-    vvd = self.hx[0] @ vd.to_numpy().T
+    vvd = np.hstack(self.hx[:2]) @ vd.to_numpy().T
 
     mbs = 0
     for i in range(vvd.shape[0]):
-- 
2.43.0


From 8a1c6ba17ef85dbd2902944e08c5b557fc65b4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:01 +0000
Subject: [PATCH 26/52] fix: t_func refuses durations that were not
 preprocessed

---
 pydsge/tools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 4d953f9..29720c2 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -69,6 +69,12 @@ def t_func(
         set_l = int(not bool(set_k))
         set_k = int(set_k)
 
+    if set_l > self.lks[0] or set_k > self.lks[1]:
+        raise IndexError(
+            "set_k exceeds (l_max, k_max) (%s vs. %s)." % (
+                (set_l, set_k), tuple(self.lks))
+        )
+
     if return_flag is None:
         return_flag = True
 
-- 
2.43.0


From acddf758186c1413ee3a623b3bcb640a1aeb110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:25 +0000
Subject: [PATCH 27/52] fix: get_par and prior_sampler leave the model as it
 was

---
 pydsge/mpile.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index b12cb22..91b62a5 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -84,7 +84,9 @@ def prior_sampler(
         def check_func(p): return lprob_raw(
             p, linear=None, verbose=verbose > 1, use_prior_transform=False)
     elif try_parameter:
-        check_func = serializer(self.set_par)
+        # try on a copy, the model itself must not change
+        pelf = dill.loads(dill.dumps(self, recurse=True))
+        check_func = serializer(pelf.set_par)
 
     return get_prior_sample(frozen_prior, nsamples, check_func=check_func, mapper=self.mapper, verbose=verbose, **kwargs)
 
@@ -192,11 +194,14 @@ def get_par(
         else:
             old_par = self.par
             pars = self.par_fix
-            self.par = self.par_fix
             if dummy == "prior":
-                par_cand = prior_sampler(
-                    self, nsamples=nsamples, verbose=verbose, debug=debug, **args
-                )
+                self.par = self.par_fix
+                try:
+                    par_cand = prior_sampler(
+                        self, nsamples=nsamples, verbose=verbose, debug=debug, **args
+                    )
+                finally:
+                    self.par = old_par
             elif dummy in ("post", "posterior"):
                 par_cand = posterior_sampler(
                     self, nsamples=nsamples, verbose=verbose, **args
@@ -239,7 +244,6 @@ def get_par(
                         par_cand[i] = self.par_fix[self.prior_arg][i]
 
             else:
-                self.par = old_par
                 raise KeyError(
                     "Parameter or parametrization '%s' does not fit/exist." % dummy
                 )
-- 
2.43.0


From c23b53e21efb4a758c0918d9dc4362999d4dd5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:15 +0000
Subject: [PATCH 28/52] fix: adj_prior_mean works with short prior
 specifications

---
 pydsge/mpile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 91b62a5..a8ad959 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -226,7 +226,7 @@ def get_par(
             elif dummy == "adj_prior_mean":
                 par_cand = []
                 for pp in self.prior.keys():
-                    if self.prior[pp][3] == "inv_gamma_dynare":
+                    if self.prior[pp][-3] == "inv_gamma_dynare":
                         par_cand.append(self.prior[pp][(-2)] * 10)
                     else:
                         if "uniform" in self.prior[pp]:
-- 
2.43.0


From c42ef8bd120de567a2b31acb3b10f14fab9c8593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:40 +0000
Subject: [PATCH 29/52] fix: find_lk stays within the preprocessed durations
 also if k_max is zero

---
 pydsge/engine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydsge/engine.py b/pydsge/engine.py
index 50f7f63..12b399c 100644
--- a/pydsge/engine.py
+++ b/pydsge/engine.py
@@ -294,6 +294,10 @@ def find_lk(bmat, bterm, x_bar, q):
             loop_type = False
 
             while True:
+                if k == k_max - 1:
+                    # set error flag 'no solution + k_max reached'
+                    flag = 2
+                    break
                 k += 1
                 if not loop_type:
                     # first iterate until r < r_bar
@@ -301,10 +305,6 @@ def find_lk(bmat, bterm, x_bar, q):
                 elif check_cnst(bmat, bterm, 4, 0, k, q) - x_bar > 0:
                     # then iterate until r > r_bar again
                     break
-                if k == k_max - 1:
-                    # set error flag 'no solution + k_max reached'
-                    flag = 2
-                    break
     else:
         l = 0
 
-- 
2.43.0


From 67bda6be9669d2fbe8e7f8708565ddd4785d7b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:39 +0000
Subject: [PATCH 30/52] fix: transition of models without endogenous states

---
 pydsge/stats.py | 2 +-
 pydsge/tools.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index e9aad48..670eac2 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -187,7 +187,7 @@ def nhd(self, eps_dict, linear=False, **args):
                 eps = np.zeros(self.dimeps)
                 eps[s] = resid[s]
 
-                v = np.hstack((hd[i, s, t, -self.dimq + self.dimeps:], eps))
+                v = np.hstack((hd[i, s, t, self.dimx - self.dimq + self.dimeps:], eps))
                 p = pmat[l, k] @ v
                 q = qmat[l, k] @ v
                 hd[i, s, t + 1, :] = np.hstack((p, q))
diff --git a/pydsge/tools.py b/pydsge/tools.py
index 29720c2..6a1791f 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -87,7 +87,7 @@ def t_func(
         bterm,
         x_bar,
         *self.hx,
-        state[-dimq + dimeps:],
+        state[len(state) - dimq + dimeps:],
         shocks,
         set_l,
         set_k,
-- 
2.43.0


From d8f4fa02697457af41e09694158479b8076489b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:46 +0000
Subject: [PATCH 31/52] fix: detect a changed ordering of variables in nhd and
 gfevd

---
 pydsge/stats.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index 670eac2..5c3ddf8 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -93,6 +93,7 @@ def gfevd(
 
     sample = zip(resids[draw], states[draw], pars[draw])
     gis = np.zeros((len(self.shocks), len(self.vv)))
+    vv_self = self.vv
 
     wrap = tqdm.tqdm if verbose else (lambda x, **kwarg: x)
 
@@ -100,6 +101,10 @@ def gfevd(
 
         if s[2] is not None:
             self.set_par(s[2], **args)
+            if not np.array_equal(self.vv, vv_self):
+                raise Exception(
+                    "The ordering of variables has changed given different parameters."
+                )
 
         for e in self.shocks:
 
@@ -161,11 +166,16 @@ def nhd(self, eps_dict, linear=False, **args):
     hd = np.empty((nsamples, self.dimeps, self.data.shape[0], self.dimx))
     means = np.empty((nsamples, self.data.shape[0], self.dimx))
     rcons = np.empty(self.dimeps)
+    vv_self = self.vv
 
     # not paralellized
     for i in tqdm.tqdm(range(nsamples), unit=" sample(s)", dynamic_ncols=True):
 
         self.set_par(pars[i], **args)
+        if not np.array_equal(self.vv, vv_self):
+            raise Exception(
+                "The ordering of variables has changed given different parameters."
+            )
 
         pmat, qmat, pterm, qterm, bmat, bterm = self.precalc_mat
         qmat = qmat[:, :, : -self.dimeps]
-- 
2.43.0


From 1dd25f25da05f51ad5a57791e097603f44953664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:46 +0000
Subject: [PATCH 32/52] fix: mask works with integer data

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 6a1791f..9b9d565 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -386,7 +386,7 @@ def mask(self, verbose=False):
     if verbose:
         print("[mask:]".ljust(15, " ") + "Shocks:", self.shocks)
 
-    msk = self.data.copy()
+    msk = self.data.astype(float)
     msk[:] = np.nan
 
     try:
-- 
2.43.0


From 531e4b3be54646b1efc57d057c39e1292ab1ea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:10 +0000
Subject: [PATCH 33/52] fix: observables are optional in gen_sys_from_dict

---
 pydsge/gensys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index ce339d3..86a21ee 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -240,7 +240,7 @@ def gen_sys(
 
     # start
     vv0 = self.vv
-    ZZ0 = None if not len(ZZ0) else ZZ0
+    ZZ0 = None if ZZ0 is None or not len(ZZ0) else ZZ0
 
     # z-space is the space of the original variables
     dimx = len(vv0)
-- 
2.43.0


From 8547e64d09cad62bb5c0d937e6cab3c814a85e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:10 +0000
Subject: [PATCH 34/52] fix: impulse responses of models created from matrices

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 9b9d565..2fc9098 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -215,7 +215,7 @@ def irfs(
             shocklist,
         ]
 
-    if not hasattr(self, "par"):
+    if not hasattr(self, "precalc_mat"):
         gen_sys(self, verbose=verbose, **args)
 
     if getattr(self, "pool", None):
-- 
2.43.0


From b9fbb8dab9ee5551e0edf495556715301611dd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:11 +0000
Subject: [PATCH 35/52] fix: get_chain does not change the model

---
 pydsge/clsmethods.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index b72999c..137713e 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -91,7 +91,10 @@ def get_chain(
 
     # ensure that bptrans exists and is applied
     if not hasattr(self, 'bptrans'):
-        self.load_estim(verbose=verbose)
+        # this must not change the model or its parameters
+        use_prior_transform = self.fdict.get("use_prior_transform", False)
+        bptrans = ew.get_prior(self.prior, verbose=verbose)[2]
+        self.bptrans = bptrans if use_prior_transform else None
 
     if self.bptrans:
         return self.bptrans(chain)
-- 
2.43.0


From 53265de8d1a4cd5b1189cf2787a7ea2da0515da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:32 +0000
Subject: [PATCH 36/52] fix: the modified harmonic mean uses all draws also if
 there is a pool

---
 pydsge/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index 5c3ddf8..ee34e51 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -255,9 +255,9 @@ def mdd(
         mdd = ew.mdd_laplace(chain, lprobs, calc_hess=True, **args)
     elif method == "mhm":
         mstr = "modified harmonic mean"
-        pool = self.pool if hasattr(self, "pool") else None
+        # no pool: each process would only evaluate the first draws of the chain
         mdd = ew.mdd_harmonic_mean(
-            chain, lprobs, pool=pool, verbose=verbose > 1, **args)
+            chain, lprobs, verbose=verbose > 1, **args)
     else:
         raise NotImplementedError(
             "[mdd:]".ljust(15, " ")
-- 
2.43.0


From e810d632ca18f90ed006482021cfd01015c8a5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:24 +0000
Subject: [PATCH 37/52] fix: the covariance at given parameters leaves the
 model as it was

---
 pydsge/mpile.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index a8ad959..41f6035 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -176,8 +176,7 @@ def get_par(
                 print("[get_par:]".ljust(15, " ") + "%s = %s" % (dummy, p))
             return p
         if dummy == "cov_mat":
-            gen_sys(self, pars, **args)
-            p = self.QQ(self.ppar)
+            p = self.QQ(self.pcompile(list(pars)))
             if verbose:
                 print("[get_par:]".ljust(15, " ") + "%s = %s" % (dummy, p))
             return p
-- 
2.43.0


From e833132a58f0184a15de4fe0081701f33fb63974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 38/52] fix: irfs leaves the list of shocks as it was

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 2fc9098..9facf8f 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -235,7 +235,7 @@ def irfs(
         if isinstance(vec, str):
             vec = (vec, 1, 0)
         elif len(vec) == 2:
-            vec += (0,)
+            vec = (*vec, 0)
         new_shocklist.append(vec)
 
     pickled_self = dill.dumps(self, recurse=True)
-- 
2.43.0


From ab0e284afe5bedb5f1598c2fe48d64d16b61ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:07 +0000
Subject: [PATCH 39/52] fix: writing into the mode or initial values that
 get_par returns leaves the model as it was

---
 pydsge/mpile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 41f6035..024bbee 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -208,7 +208,7 @@ def get_par(
             elif dummy == "posterior_mean" or dummy == "post_mean":
                 par_cand = post_mean(self)
             elif dummy in ("mode", "mcmc_mode", "mode_mcmc", "posterior_mode", "post_mode"):
-                par_cand = self.fdict["mode_x"]
+                par_cand = self.fdict["mode_x"].copy()
             elif dummy == "calib":
                 par_cand = self.par_fix[self.prior_arg].copy()
             elif dummy == "prior_mean":
@@ -237,7 +237,7 @@ def get_par(
                             par_cand.append(self.prior[pp][(-2)])
 
             elif dummy == "init":
-                par_cand = self.fdict["init_value"]
+                par_cand = self.fdict["init_value"].copy()
                 for i in range(self.ndim):
                     if par_cand[i] is None:
                         par_cand[i] = self.par_fix[self.prior_arg][i]
-- 
2.43.0


From 99e9f824ba97408a4b034bbbcbb52af7841b95f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:07 +0000
Subject: [PATCH 40/52] fix: gen_sys_from_dict leaves the dict it is given as
 it was

---
 pydsge/gensys.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 86a21ee..f5ddc81 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -23,8 +23,7 @@ def gen_sys_from_dict(
     global processed_mdicts
 
     # add l/k max to dict
-    mdict["l_max"] = l_max
-    mdict["k_max"] = k_max
+    mdict = {**mdict, "l_max": l_max, "k_max": k_max}
 
     # check if dict has already been processed. If so, load it
     if not force_processing and "processed_mdicts" in globals():
-- 
2.43.0


From f9b1ddc91a40127842f3e7b471d3e95906d307d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:58 +0000
Subject: [PATCH 41/52] fix: the linear filter can be run again also if there
 are as many variables as shocks

---
 pydsge/filtering.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 483d61d..c97f925 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -181,12 +181,16 @@ def run_filter(
         self.filter.F = F
         self.filter.H = np.hstack((self.hx[0], self.hx[1])), self.hx[2]
 
-        if self.filter.Q.shape[0] == self.neps:
+        # there may be as many variables as shocks
+        in_states = self.filter.Q is getattr(self.filter, "Q_states", None)
+
+        if self.filter.Q.shape[0] == self.neps and not in_states:
             E = np.vstack(
                 (pmat[1, 0][:, -self.neps:], qmat[1, 0]
                  [: -self.neps, -self.neps:])
             )
             self.filter.Q = E @ self.filter.Q @ E.T
+            self.filter.Q_states = self.filter.Q
 
         if self.filter.init_cov is None:
             p4 = sl.solve_discrete_lyapunov(
-- 
2.43.0


From f17eafd310b03c46f4f27e8485caff98bd7513b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:38 +0000
Subject: [PATCH 42/52] fix: box_check works with short prior specifications
 and the current parameters

---
 pydsge/mpile.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 024bbee..358c39f 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -372,24 +372,28 @@ def box_check(self, par=None):
     """
 
     if par is None:
-        par = self.par
+        par = np.array(self.par)[self.prior_arg]
 
     for i, name in enumerate(self.fdict["prior_names"]):
 
         lb, ub = self.fdict["prior_bounds"]
 
+        # short prior specifications come without bounds
+        if lb[i] is None:
+            continue
+
         if par[i] < lb[i]:
             print(
                 "[box_check:]".ljust(15, " ")
                 + " Parameter %s of %s lower than lb of %s."
-                % (name, par[i].round(5), lb[i])
+                % (name, np.round(par[i], 5), lb[i])
             )
 
         if par[i] > ub[i]:
             print(
                 "[box_check:]".ljust(15, " ")
                 + " Parameter %s of %s higher than ub of %s."
-                % (name, par[i].round(5), ub[i])
+                % (name, np.round(par[i], 5), ub[i])
             )
 
     return
-- 
2.43.0


From 9ddd2c0cb15e0109541df44b84e932393724b191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:55 +0000
Subject: [PATCH 43/52] fix: extract, nhd and gfevd leave the parameters of the
 model as they were

---
 pydsge/filtering.py |  2 ++
 pydsge/stats.py     |  3 +++
 pydsge/tools.py     | 21 +++++++++++++++++++++
 3 files changed, 26 insertions(+)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index c97f925..7adfb65 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -9,6 +9,7 @@ from econsieve import KalmanFilter, TEnKF
 from grgrlib import timeprint
 from grgrlib.multiprocessing import serializer
 from econsieve.stats import logpdf
+from .tools import keeps_par
 
 
 def create_obs_cov(self, scale_obs=0.1):
@@ -311,6 +312,7 @@ def run_filter(
     return res
 
 
+@keeps_par
 def extract(
     self,
     sample=None,
diff --git a/pydsge/stats.py b/pydsge/stats.py
index ee34e51..ef6dfce 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -14,6 +14,7 @@ from grgrlib import timeprint
 from grgrlib.stats import mode
 
 from emcwrap.dists import InvGammaDynare  # to maintain picklability
+from .tools import keeps_par
 
 
 def pmdm_report(self, x_max, res_max, n=np.inf, printfunc=print):
@@ -55,6 +56,7 @@ def pmdm_report(self, x_max, res_max, n=np.inf, printfunc=print):
     return
 
 
+@keeps_par
 def gfevd(
     self, eps_dict, horizon=1, nsamples=None, linear=False, seed=0, verbose=True, **args
 ):
@@ -155,6 +157,7 @@ def mbcs_index(self, vd, verbose=True):
     return mbs
 
 
+@keeps_par
 def nhd(self, eps_dict, linear=False, **args):
     """Calculates the normalized historic decomposition, based on normalized counterfactuals"""
 
diff --git a/pydsge/tools.py b/pydsge/tools.py
index 9facf8f..b259b5d 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -9,11 +9,32 @@ import pandas as pd
 import time
 import tqdm
 import dill
+from functools import wraps
 from grgrlib import fast0, map2arr
 from .engine import *
 from decimal import Decimal
 
 
+def keeps_par(func):
+    """Restore the current parameters once `func` is done with those of a sample"""
+
+    @wraps(func)
+    def wrapper(self, *args, **kwargs):
+
+        par, lks = getattr(self, "par", None), getattr(self, "lks", None)
+
+        try:
+            return func(self, *args, **kwargs)
+        finally:
+            if par is not None and not (
+                np.array_equal(par, self.par) and np.array_equal(
+                    lks, self.lks)
+            ):
+                self.set_par(par, l_max=lks[0] - 1, k_max=lks[1])
+
+    return wrapper
+
+
 def t_func(
     self,
     state,
-- 
2.43.0


From b99d772281984c266145f105f4d144e90a0386e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:52 +0000
Subject: [PATCH 44/52] fix: verbose output of models created from matrices

---
 pydsge/gensys.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index f5ddc81..de7f028 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -254,8 +254,8 @@ def gen_sys(
 
     # create auxiliary vars for those both in A & C
     if verbose > 1:
-        fwd_vars = [self.variables[i].name for i, e in enumerate(~fast0(AA0, 0)) if e]
-        bwd_vars = [self.variables[i].name for i, e in enumerate(~fast0(CC0, 0)) if e]
+        fwd_vars = [vv0[i] for i, e in enumerate(~fast0(AA0, 0)) if e]
+        bwd_vars = [vv0[i] for i, e in enumerate(~fast0(CC0, 0)) if e]
         print("[gen_sys:]".ljust(15, " ") + f" Forward-looking variables: {fwd_vars}", flush=True)
         print("[gen_sys:]".ljust(15, " ") + f" Backward-looking variables: {bwd_vars}", flush=True)
 
@@ -264,7 +264,7 @@ def gen_sys(
     inall = ~fast0(AA0, 0) & (~fast0(CC0, 0) | ~fast0(fc0))
 
     if verbose > 1:
-        hyb_vars = [self.variables[i].name for i, e in enumerate(inall) if e]
+        hyb_vars = [vv0[i] for i, e in enumerate(inall) if e]
         print("[gen_sys:]".ljust(15, " ") + f" Hybrid variables: {hyb_vars}", flush=True)
 
     if np.any(inall):
@@ -310,7 +310,7 @@ def gen_sys(
     dimp = sum(inp)
 
     if verbose > 1:
-        missing_vars = [self.variables[i].name for i, e in enumerate(~(inq | inp)) if e]
+        missing_vars = [vv0[i] for i, e in enumerate(~(inq | inp)) if e]
         print("[gen_sys:]".ljust(15, " ") + f" Variables that went AWOL: {missing_vars}", flush=True)
 
     # create hx. Do this early so that the procedure can be stopped if get_hx_only
-- 
2.43.0


From 7b1067908c59309251570487bc52a68f35941808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:41 +0000
Subject: [PATCH 45/52] fix: the posterior leaves the par_fix it is given as it
 was

---
 pydsge/estimation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydsge/estimation.py b/pydsge/estimation.py
index fa265e1..7d7e978 100644
--- a/pydsge/estimation.py
+++ b/pydsge/estimation.py
@@ -156,8 +156,9 @@ def prep_estim(
 
                 np.random.seed(seed)
 
-                par_fix[prior_arg] = parameters
-                par_active_lst = list(par_fix)
+                par_active = np.array(par_fix, dtype=float)
+                par_active[prior_arg] = parameters
+                par_active_lst = list(par_active)
 
                 # the gen_sys and following part replicates call to set_par, redundant
                 self.gen_sys(
-- 
2.43.0


From 60ca5ad1c87640bdac97c9c761f76b80b80f9345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:10 +0000
Subject: [PATCH 46/52] fix: horizons are corrected also if only one of them is
 given

---
 pydsge/gensys.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index de7f028..7134a5d 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -212,6 +212,13 @@ def gen_sys(
     st = time.time()
 
     # set default values of l_max & k_max
+    if k_max is not None:
+        pass
+    elif hasattr(self, "lks"):
+        k_max = self.lks[1]
+    else:
+        k_max = 17
+
     if l_max is not None:
         if l_max < 2 and k_max > 0:
             print(
@@ -225,16 +232,12 @@ def gen_sys(
 
     elif hasattr(self, "lks"):
         l_max = self.lks[0]
+        # the correction above holds also for values from before
+        if l_max < 3 and k_max > 0:
+            l_max = 3
     else:
         l_max = 3
 
-    if k_max is not None:
-        pass
-    elif hasattr(self, "lks"):
-        k_max = self.lks[1]
-    else:
-        k_max = 17
-
     self.lks = np.array([l_max, k_max])
 
     # start
-- 
2.43.0


From 9788b92e07e9a284ddc36ef69a2ca3abffc46cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:11 +0000
Subject: [PATCH 47/52] fix: states and shocks are taken by value, whatever
 their byte order or type

---
 pydsge/tools.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index b259b5d..653b3fa 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -75,8 +75,10 @@ def t_func(
     dimp, dimq = omg.shape
     dimeps = self.neps
 
-    if shocks is None:
-        shocks = np.zeros(dimeps)
+    # compiled functions misread other byte orders
+    state = np.asarray(state, dtype=float)
+    shocks = np.zeros(dimeps) if shocks is None else np.asarray(
+        shocks, dtype=float)
 
     if linear:
         set_k = 0
@@ -525,6 +527,8 @@ def simulate(
 
 def traj(self, state, l=None, k=None, verbose=True):
 
+    state = np.asarray(state, dtype=float)
+
     if k is None or l is None:
 
         omg, lam, x_bar = self.sys
@@ -556,6 +560,8 @@ def traj(self, state, l=None, k=None, verbose=True):
 
 def k_map(self, state, l=None, k=None, verbose=True):
 
+    state = np.asarray(state, dtype=float)
+
     omg, lam, x_bar = self.sys
 
     if k is None:
-- 
2.43.0


From d62b312800ed63fd5ece34194ddc672447b6799e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:57:48 +0000
Subject: [PATCH 48/52] fix: an interruption is not taken for a missing
 estimate, cache or file

---
 pydsge/clsmethods.py | 4 ++--
 pydsge/mpile.py      | 4 ++--
 pydsge/parser.py     | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 137713e..1cb7eda 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -81,7 +81,7 @@ def get_chain(
     if get_acceptance_fraction:
         try:
             return reader.acceptance_fraction
-        except:
+        except Exception:
             return reader.accepted / reader.iteration
 
     if get_log_prob:
@@ -139,7 +139,7 @@ def save_meta(self, filename=None, verbose=True):
         try:
             self.fdict["filter_R"] = self.filter.R
             self.fdict["filter_P"] = self.filter.P
-        except:
+        except Exception:
             pass
 
     np.savez_compressed(filename, **self.fdict)
diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 358c39f..feb5868 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -155,7 +155,7 @@ def get_par(
     if dummy is None:
         try:
             par_cand = np.array(pars)[self.prior_arg]
-        except:
+        except Exception:
             par_cand = get_par(
                 self, "best", asdict=False, full=False, verbose=verbose, **args
             )
@@ -185,7 +185,7 @@ def get_par(
                 par_cand = get_par(
                     self, "mode", asdict=False, full=False, verbose=verbose, **args
                 )
-            except:
+            except Exception:
                 par_cand = get_par(
                     self, "init", asdict=False, full=False, verbose=verbose, **args
                 )
diff --git a/pydsge/parser.py b/pydsge/parser.py
index 6899282..c93398f 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -595,7 +595,7 @@ class DSGE(Model):
             # so this is a test:
             pmodel_dump = cpickle.dumps(pmodel, protocol=4)
 
-        except:
+        except Exception:
 
             processed_raw_model = crawl_cached_models(mtxt, ftxt)
 
@@ -620,7 +620,7 @@ class DSGE(Model):
                 try:
                     tfile.close()
                     os.unlink(tfile.name)
-                except:
+                except Exception:
                     pass
 
         pmodel.fdict = fdict
@@ -719,7 +719,7 @@ class DSGE(Model):
             try:
                 lhs, rhs = str.split(raw_const, "=")
                 assert not " " in lhs.strip()
-            except:
+            except Exception:
                 raise SyntaxError(
                     "constraint is supposed to have the form `constrained_variable = equation`"
                 )
-- 
2.43.0


From f295a0c00bc4b787c38ba27aff9c99247fc171ce Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:06:20 +0000
Subject: [PATCH 49/52] fix: parameters that cannot be set leave the model as
 it was

---
 pydsge/mpile.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index feb5868..e34ecca 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -345,11 +345,19 @@ def set_par(
         raise SyntaxError(
             "Parameter '%s' is not defined for this model." % dummy)
 
-    gen_sys(self, par=list(par), verbose=verbose, **args)
-
-    if hasattr(self, "filter"):
-        Q = self.QQ(self.ppar) @ self.QQ(self.ppar)
-        self.filter.Q = Q
+    state = vars(self).copy()
+
+    try:
+        gen_sys(self, par=list(par), verbose=verbose, **args)
+
+        if hasattr(self, "filter"):
+            Q = self.QQ(self.ppar) @ self.QQ(self.ppar)
+            self.filter.Q = Q
+    except BaseException:
+        # do not mix parameters that failed with the solution of others
+        vars(self).clear()
+        vars(self).update(state)
+        raise
 
     if verbose > 1:
         pdict = dict(zip(pars_str, np.round(self.par, roundto)))
-- 
2.43.0


From 0be5e66af1cbbed5910932153c77a4fc360c239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:11 +0000
Subject: [PATCH 50/52] fix: an initial covariance given to one call stays with
 that call

---
 pydsge/filtering.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 7adfb65..1d42d65 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -164,8 +164,9 @@ def run_filter(
 
     dimp = self.dimp
 
-    if init_cov is not None:
-        self.filter.init_cov = init_cov
+    # only for this call
+    if init_cov is None:
+        init_cov = self.filter.init_cov
 
     # assign current transition & observation functions (of parameters)
     if self.filter.name == "KalmanFilter":
@@ -193,13 +194,13 @@ def run_filter(
             self.filter.Q = E @ self.filter.Q @ E.T
             self.filter.Q_states = self.filter.Q
 
-        if self.filter.init_cov is None:
+        if init_cov is None:
             p4 = sl.solve_discrete_lyapunov(
                 F[dimp:, dimp:], self.filter.Q[dimp:, dimp:]
             )
             self.filter.P = F[:, dimp:] @ p4 @ F.T[dimp:] + self.filter.Q
         else:
-            self.filter.P = self.filter.init_cov
+            self.filter.P = init_cov
 
     elif self.filter.name == "InversionFilter":
 
@@ -219,7 +220,7 @@ def run_filter(
         self.filter.t_func = lambda *x: self.t_func(*x, get_obs=True)
         self.filter.o_func = None
 
-        if self.filter.init_cov is None:
+        if init_cov is None:
             qmat = self.precalc_mat[1]
             F = qmat[1, 0][: -self.neps, : -self.neps]
             E = qmat[1, 0][: -self.neps, -self.neps:]
@@ -228,16 +229,16 @@ def run_filter(
 
             self.filter.P = sl.solve_discrete_lyapunov(F, Q)
         else:
-            self.filter.P = self.filter.init_cov
+            self.filter.P = init_cov
 
     else:
         self.filter.t_func = self.t_func
         self.filter.o_func = self.o_func
 
-        if self.filter.init_cov is None:
+        if init_cov is None:
             self.filter.P = get_p_init_lyapunov(self, self.filter.Q)
         else:
-            self.filter.P = self.filter.init_cov
+            self.filter.P = init_cov
 
     self.filter.get_eps = self.get_eps_lin
 
-- 
2.43.0


From 1e17a5f554f18d1aae5a12e449a7bb2dea1b981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:11 +0000
Subject: [PATCH 51/52] fix: traceplot keeps the number of periods it is asked
 for

---
 pydsge/clsmethods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 1cb7eda..28f5caa 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -200,7 +200,7 @@ def traceplot_m(self, chain=None, prior_names=None, **args):
 
     if chain is None:
         chain = self.get_chain()
-        args["tune"] = self.get_tune
+        args.setdefault("tune", self.get_tune)
 
     if prior_names is None:
         prior_names = self.fdict["prior_names"]
-- 
2.43.0


From 0831b4a57001503b63d9f7af2f0783246e796d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:56 +0000
Subject: [PATCH 52/52] fix: extraction leaves the filter of the model as it
 was

---
 pydsge/tools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 653b3fa..677b25b 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -16,16 +16,21 @@ from decimal import Decimal
 
 
 def keeps_par(func):
-    """Restore the current parameters once `func` is done with those of a sample"""
+    """Restore the current parameters and filter once `func` is done with those of a sample"""
 
     @wraps(func)
     def wrapper(self, *args, **kwargs):
 
         par, lks = getattr(self, "par", None), getattr(self, "lks", None)
+        current_filter = getattr(self, "filter", None)
 
         try:
             return func(self, *args, **kwargs)
         finally:
+            # extraction may need another filter
+            if current_filter is not None:
+                self.filter = current_filter
+
             if par is not None and not (
                 np.array_equal(par, self.par) and np.array_equal(
                     lks, self.lks)
-- 
2.43.0

