From b813122be012e841c89bcb4320ceddbd69b711c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:35 +0000
Subject: [PATCH 01/37] fix: basis conversions keep the source object intact
 and return only the new basis' parameters

to_any_basis marked converted parameters with an empty vary flag (unusable in a
model), left parameters of other bases behind, from_synth changed the name of the
basis it was called on, and DataFrames could not be converted to any basis with
eccentricity vectors.
---
 radvel/basis.py | 47 +++++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/radvel/basis.py b/radvel/basis.py
index 0d3a786..cced05e 100644
--- a/radvel/basis.py
+++ b/radvel/basis.py
@@ -113,7 +113,7 @@ class Basis(object):
             radvel.Parameters object expressed in the new basis
 
         """
-        synth_params = self.to_synth(params_in)
+        synth_params = self.to_synth(params_in, noVary=False)
         arbbasis_params = self.from_synth(synth_params, newbasis, keep=False)
         return arbbasis_params
 
@@ -538,11 +538,18 @@ class Basis(object):
                                                                   vary=local_vary,
                                                                   mcmcscale=local_mcmcscale)
 
+            def _haspar(key):
+                if isinstance(params_in, pd.core.frame.DataFrame):
+                    return '{}{}'.format(key, num_planet) in params_in.columns
+                else:
+                    return key in params_in.planet_parameters
+
             def _delpar(key):
+                key_name = '{}{}'.format(key, num_planet)
                 if isinstance(params_in, OrderedDict):
-                    del params_out['{}{}'.format(key, num_planet)]
+                    del params_out[key_name]
                 elif isinstance(params_in, pd.core.frame.DataFrame):
-                    params_out.drop('{}{}'.format(key, num_planet))
+                    params_out.drop(columns=key_name, inplace=True)
 
             if newbasis == 'per tc e w k':
                 per = _getpar('per')
@@ -584,7 +591,7 @@ class Basis(object):
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -602,15 +609,12 @@ class Basis(object):
                     _delpar('w')
                     _delpar('k')
 
-                # basis_name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'per tc secosw sesinw k':
                 per = _getpar('per')
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -626,15 +630,12 @@ class Basis(object):
                     _delpar('e')
                     _delpar('w')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'logper tc secosw sesinw k':
                 per = _getpar('per')
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -652,15 +653,12 @@ class Basis(object):
                     _delpar('e')
                     _delpar('w')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'logper tc secosw sesinw logk':
                 per = _getpar('per')
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -679,15 +677,12 @@ class Basis(object):
                     _delpar('w')
                     _delpar('k')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'per tc ecosw esinw k':
                 per = _getpar('per')
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -703,15 +698,12 @@ class Basis(object):
                     _delpar('e')
                     _delpar('w')
 
-                self.name = newbasis
-                self.params = newbasis.split()
-
             if newbasis == 'logper tp e w logk':
                 per = _getpar('per')
                 e = _getpar('e')
                 w = _getpar('w')
                 k = _getpar('k')
-                if 'tp' in params_in.planet_parameters:
+                if _haspar('tp'):
                     tp = _getpar('tp')
                 else:
                     tc = _getpar('tc')
@@ -726,8 +718,11 @@ class Basis(object):
                     _delpar('per')
                     _delpar('k')
 
-                self.name = newbasis
-                self.params = newbasis.split()
+            if not kwargs.get('keep', True):
+                # parameters of other bases no longer describe this planet
+                for key in sorted(set(' '.join(BASIS_NAMES).split())):
+                    if key not in newbasis.split() and '{}{}'.format(key, num_planet) in params_out:
+                        _delpar(key)
 
         with warnings.catch_warnings():
             warnings.filterwarnings(
-- 
2.43.0


From 568230603f6fd4e11cb8e324b912fd5f4f55fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:35 +0000
Subject: [PATCH 02/37] fix: secondary eclipse time is the first one after
 periastron, also for arrays

A full period was added even if the eclipse already followed periastron, and
array arguments failed with a shape mismatch.
---
 radvel/orbit.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/radvel/orbit.py b/radvel/orbit.py
index 281ea81..8176f8b 100644
--- a/radvel/orbit.py
+++ b/radvel/orbit.py
@@ -56,10 +56,7 @@ def timeperi_to_timetrans(tp, per, ecc, omega, secondary=False):
         ee = 2 * np.arctan(np.tan(f/2) * np.sqrt((1-ecc)/(1+ecc)))  # eccentric anomaly
 
         # ensure that ee is between 0 and 2*pi (always the eclipse AFTER tp)
-        if isinstance(ee, np.float64):
-            ee = ee + 2 * np.pi
-        else:
-            ee[ee < 0.0] = ee + 2 * np.pi
+        ee = ee + 2 * np.pi * (ee < 0.0)
     else:
         f = np.pi/2 - omega                                         # true anomaly during transit
         ee = 2 * np.arctan(np.tan(f/2) * np.sqrt((1-ecc)/(1+ecc)))  # eccentric anomaly
-- 
2.43.0


From 927b1a28709aaaa97b746ee5f0017d6f46ea68ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:18 +0000
Subject: [PATCH 03/37] fix: the list of free parameters follows the vary flags
 and covers custom parameters

Cached lists of varying rows went stale when a parameter was fixed and another
freed, so fits varied the wrong parameters; parameters with names unknown to the
vector (e.g. decorrelation terms set up in advance) caused IndexError or shifted
the reported names; rejected arrays were partly applied.
---
 radvel/likelihood.py | 33 ++++++++-------------------------
 radvel/model.py      |  9 +++++----
 2 files changed, 13 insertions(+), 29 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 6f41f9a..15e5dec 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -142,42 +142,25 @@ class Likelihood(object):
 
     def set_vary_params(self, param_values_array, fast=False):
         param_values_array = list(param_values_array)
-        i = 0
-        try:
-            if len(self.vary_params) != len(param_values_array):
-                self.list_vary_params()
-        except AttributeError:
-            self.list_vary_params()
-        for index in self.vary_params:
-            self.vector.vector[index][0] = param_values_array[i]
-            i += 1
-        assert i == len(param_values_array), \
+        self.list_vary_params()
+        assert len(self.vary_params) == len(param_values_array), \
             "Length of array must match number of varied parameters"
+        for i, index in enumerate(self.vary_params):
+            self.vector.vector[index][0] = param_values_array[i]
         if not fast:
             self.vector.vector_to_dict()
 
 
     def get_vary_params(self):
-        try:
-            return self.vector.vector[self.vary_params][:,0]
-        except AttributeError:
-            self.list_vary_params()
-            return self.vector.vector[self.vary_params][:, 0]
+        self.list_vary_params()
+        return self.vector.vector[self.vary_params][:, 0]
 
     def list_vary_params(self):
         self.vary_params = np.where(self.vector.vector[:,1] == True)[0]
 
     def name_vary_params(self):
-        list = []
-        try:
-            for i in self.vary_params:
-                list.append(self.vector.names[i])
-            return list
-        except AttributeError:
-            self.list_vary_params()
-            for i in self.vary_params:
-                list.append(self.vector.names[i])
-            return list
+        self.list_vary_params()
+        return [self.vector.names[i] for i in self.vary_params]
 
     def residuals(self):
         return self.y - self.model(self.x)
diff --git a/radvel/model.py b/radvel/model.py
index 255089a..98f5315 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -193,10 +193,6 @@ class Vector(object):
     def init_index_dict(self):
         indices = dict()
         n = 0
-        for k in self.params.keys():
-            if k.startswith('gamma') or k.startswith('jit') or k.startswith('logjit') or k.startswith('gp'):
-                indices.update({k:2 + n + (5*self.params.num_planets)})
-                n += 1
         for num_planet in range(1, self.params.num_planets+1):
             indices.update({'per'+str(num_planet):-5+(5*num_planet),'logper'+str(num_planet):-5+(5*num_planet),
                          'tc'+str(num_planet):-4+(5*num_planet),'tp'+str(num_planet):-4+(5*num_planet),
@@ -206,6 +202,11 @@ class Vector(object):
                          'w'+str(num_planet):-2+(5*num_planet),'k'+str(num_planet):-1+(5*num_planet),
                          'logk'+str(num_planet):-1+(5*num_planet)})
         indices.update({'dvdt':(5*self.params.num_planets),'curv':1+(5*self.params.num_planets)})
+        # all other parameters (offsets, jitters, hyperparameters, ...) follow in order
+        for k in self.params.keys():
+            if k not in indices:
+                indices.update({k:2 + n + (5*self.params.num_planets)})
+                n += 1
         self.indices = indices
 
     def dict_to_vector(self):
-- 
2.43.0


From 1ce0238bd0d1806b5473806a81777d330d3854d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 04/37] fix: Posterior.aic returns the value instead of raising
 it

---
 radvel/posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index 654e2b7..757bd8b 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -215,7 +215,7 @@ class Posterior(Likelihood):
     def aic(self):
         """Moved to Likelihood.aic"""
 
-        raise self.likelihood.aic()
+        return self.likelihood.aic()
 
 
 def load(filename):
-- 
2.43.0


From cab448a1877a415bcfc8a716e74fb9f795222197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 05/37] fix: evaluating a GP likelihood no longer modifies the
 parameter dictionary

The kernel shared Parameter objects with the dictionary, so a positional evaluation
changed only the hyperparameters there and left dictionary and vector out of step.
---
 radvel/likelihood.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 15e5dec..3739b8b 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import radvel.model
 from radvel import gp
@@ -425,7 +427,8 @@ class GPLikelihood(RVLikelihood):
             'Available kernels: ' + str(gp.KERNELS.keys())
 
         self.hnames = hnames  # list of string names of hyperparameters
-        self.hyperparams = {k: self.params[k] for k in self.hnames}
+        # the kernel holds its own copies: evaluating it must not modify self.params
+        self.hyperparams = {k: copy.copy(self.params[k]) for k in self.hnames}
 
         self.kernel_call = getattr(gp, kernel_name + "Kernel")
         self.kernel = self.kernel_call(self.hyperparams)
-- 
2.43.0


From 4355b9083994c832f3d2b9df613467a3ef10a4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:52 +0000
Subject: [PATCH 06/37] fix: GP likelihood does not depend on earlier calls and
 is -inf for impossible covariances

Zero hyperparameters reused the covariance matrix of the previous evaluation and broke
predictions at other points; a failed prediction left wrong distances behind;
np.linalg.linalg no longer exists, so a non-positive-definite kernel raised
AttributeError, and invalid hyperparameters raised ValueError.
---
 radvel/gp.py         | 11 ++++-------
 radvel/likelihood.py | 39 +++++++++++++++++++--------------------
 2 files changed, 23 insertions(+), 27 deletions(-)

diff --git a/radvel/gp.py b/radvel/gp.py
index 40bca99..45806c1 100644
--- a/radvel/gp.py
+++ b/radvel/gp.py
@@ -327,13 +327,10 @@ class QuasiPerKernel(Kernel):
         # If any GP parameter is 0, this is likely a "no GP" model comparison
         # In this case, return a zero covariance matrix
         if amp == 0 or per == 0 or explength == 0 or perlength == 0:
-            n = len(self.dist_se)
-            K = np.zeros((n, n))
-            if isinstance(errors, (int, float)) and errors == 0:
-                return K
-            else:
-                K[np.diag_indices_from(K)] += errors**2
-                return K
+            self.covmatrix = np.zeros(self.dist_se.shape)
+            if not (isinstance(errors, (int, float)) and errors == 0):
+                self.covmatrix[np.diag_indices_from(self.covmatrix)] += errors**2
+            return self.covmatrix
 
         # Compute covariance matrix step by step
         exp_term1 = -self.dist_se/(explength**2)
diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 3739b8b..76033d9 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -478,12 +478,10 @@ class GPLikelihood(RVLikelihood):
 
         r = self._resids()
 
-        self.kernel.compute_covmatrix(self.errorbars())
-
-        K = self.kernel.covmatrix
-
         # solve alpha = inverse(K)*r
         try:
+            K = self.kernel.compute_covmatrix(self.errorbars())
+
             alpha = cho_solve(cho_factor(K),r)
 
             # compute determinant of K
@@ -494,7 +492,7 @@ class GPLikelihood(RVLikelihood):
 
             return like
 
-        except (np.linalg.linalg.LinAlgError, ValueError):
+        except (np.linalg.LinAlgError, ValueError):
             warnings.warn("Non-positive definite kernel detected.", RuntimeWarning)
             return -np.inf
 
@@ -522,21 +520,22 @@ class GPLikelihood(RVLikelihood):
         if np.any(np.isinf(K)):
             raise ValueError("Covariance matrix K contains infs - cannot proceed with Cholesky decomposition")
 
-        self.kernel.compute_distances(xpred, self.x)
-        Ks = self.kernel.compute_covmatrix(0.)
-
-        L = cho_factor(K)
-        alpha = cho_solve(L, r)
-        mu = np.dot(Ks, alpha).flatten()
-
-        self.kernel.compute_distances(xpred, xpred)
-        Kss = self.kernel.compute_covmatrix(0.)
-        B = cho_solve(L, Ks.T)
-        var = np.array(np.diag(Kss - np.dot(Ks, B))).flatten()
-        stdev = np.sqrt(var)
-
-        # set the default distances back to their regular values
-        self.kernel.compute_distances(self.x, self.x)
+        try:
+            self.kernel.compute_distances(xpred, self.x)
+            Ks = self.kernel.compute_covmatrix(0.)
+
+            L = cho_factor(K)
+            alpha = cho_solve(L, r)
+            mu = np.dot(Ks, alpha).flatten()
+
+            self.kernel.compute_distances(xpred, xpred)
+            Kss = self.kernel.compute_covmatrix(0.)
+            B = cho_solve(L, Ks.T)
+            var = np.array(np.diag(Kss - np.dot(Ks, B))).flatten()
+            stdev = np.sqrt(var)
+        finally:
+            # set the default distances back to their regular values
+            self.kernel.compute_distances(self.x, self.x)
 
         return mu, stdev
 
-- 
2.43.0


From e77b565bb8292b104a2f28d59f7284e1af485ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:38 +0000
Subject: [PATCH 07/37] fix: decorrelation uses exactly its own variables, and
 the marginalised offset accounts for it

---
 radvel/likelihood.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 76033d9..ecc1158 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -325,6 +325,7 @@ class RVLikelihood(Likelihood):
         self.telvec = np.array([self.suffix]*len(t))
 
         self.decorr_params = []
+        self.decorr_vars = list(decorr_vars)
         self.decorr_vectors = decorr_vectors
         if len(decorr_vars) > 0:
             self.decorr_params += ['c1_'+d+suffix for d in decorr_vars]
@@ -341,30 +342,21 @@ class RVLikelihood(Likelihood):
         """Residuals
         Data minus model
         """
-        mod = self.model(self.x)
+        res = self.y - self.model(self.x)
+
+        for var, parname in zip(self.decorr_vars, self.decorr_params):
+            if np.isfinite(self.decorr_vectors[var]).all():
+                vec = self.decorr_vectors[var] - np.mean(self.decorr_vectors[var])
+                res -= self.vector.vector[self.vector.indices[parname]][0] * vec
 
         if self.vector.vector[self.gamma_index][3] and not self.vector.vector[self.gamma_index][1]:
-            ztil = np.sum((self.y - mod)/(self.yerr**2 + self.vector.vector[self.jit_index][0]**2)) / \
+            ztil = np.sum(res/(self.yerr**2 + self.vector.vector[self.jit_index][0]**2)) / \
                    np.sum(1/(self.yerr**2 + self.vector.vector[self.jit_index][0]**2))
             if np.isnan(ztil):
                  ztil = 0.0
             self.vector.vector[self.gamma_index][0] = ztil
 
-        res = self.y - self.vector.vector[self.gamma_index][0] - mod
-
-        if len(self.decorr_params) > 0:
-            for parname in self.decorr_params:
-                var = parname.split('_')[1]
-                pars = []
-                for par in self.decorr_params:
-                    if var in par:
-                        pars.append(self.vector.vector[self.vector.indices[par]][0])
-                pars.append(0.0)
-                if np.isfinite(self.decorr_vectors[var]).all():
-                    vec = self.decorr_vectors[var] - np.mean(self.decorr_vectors[var])
-                    p = np.poly1d(pars)
-                    res -= p(vec)
-        return res
+        return res - self.vector.vector[self.gamma_index][0]
 
     def errorbars(self):
         """
-- 
2.43.0


From 6859bb10715c9440b495c40d174a14e2a9cdb053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:54 +0000
Subject: [PATCH 08/37] fix: celerite likelihood and prediction are independent
 of time order and -inf for undefined values

---
 radvel/likelihood.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index ecc1158..dcdbd5d 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -564,6 +564,7 @@ class CeleriteLikelihood(GPLikelihood):
         self.y = self.y[order]
         self.yerr = self.yerr[order]
         self.N = len(self.x)
+        self.kernel.compute_distances(self.x, self.x)
 
     def logprob(self):
 
@@ -575,6 +576,8 @@ class CeleriteLikelihood(GPLikelihood):
             # calculate log likelihood
             lnlike = -0.5 * (solver.dot_solve(self._resids()) + solver.log_determinant() + self.N*np.log(2.*np.pi))
 
+            if np.isnan(lnlike):
+                return -np.inf
             return lnlike
 
         except (celerite.solver.LinAlgError if _has_celerite else Exception):
@@ -621,11 +624,16 @@ class CeleriteLikelihood(GPLikelihood):
 
         gp = celerite.GP(kernel)
         gp.compute(self.x, self.yerr)
-        mu, var = gp.predict(self._resids(), xpred, return_var=True)
+
+        # celerite requires the prediction points in time order
+        xpred = np.asarray(xpred)
+        order = np.argsort(xpred)
+        unsort = np.argsort(order)
+        mu, var = gp.predict(self._resids(), xpred[order], return_var=True)
 
         stdev = np.sqrt(var)
 
-        return mu, stdev
+        return mu[unsort], stdev[unsort]
 
 
 def loglike_jitter(residuals, sigma, sigma_jit):
-- 
2.43.0


From 08e780a0af609c75fb1efe065f5fe0fc3583a767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:48 +0000
Subject: [PATCH 09/37] fix: priors hold in every basis and return -inf or a
 cyclic phase difference where they must

PositiveKPrior rejected 0<K<1 in logk bases, SecondaryEclipsePrior compared phases
without wrap-around and returned nan, EccentricityPrior refused integer limits,
multivariate NumericalPrior transforms mixed the parameters.
---
 radvel/prior.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index 5bd5754..0d33757 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -105,7 +105,7 @@ class EccentricityPrior(Prior):
             self.planet_list = num_planets
             npl = len(self.planet_list)
 
-        if type(upperlims) == float:
+        if np.isscalar(upperlims):
             self.upperlims = [upperlims] * npl
         else:
             assert len(upperlims) == len(self.planet_list), "Number of eccentricity \
@@ -173,11 +173,14 @@ class PositiveKPrior(Prior):
         def _getpar(key, num_planet):
             return vector.vector[vector.indices['{}{}'.format(key, num_planet)]][0]
 
+        # vectors know the slot of both names, only the basis tells which one it holds
+        logk = 'logk' in params.basis.name.split()
+
         for num_planet in range(1, self.num_planets+1):
-            try:
-                k = _getpar('k', num_planet)
-            except KeyError:
+            if logk:
                 k = np.exp(_getpar('logk', num_planet))
+            else:
+                k = _getpar('k', num_planet)
 
             if k < 0.0:
                 return -np.inf if not finite else -1e100
@@ -297,7 +300,15 @@ class SecondaryEclipsePrior(Prior):
         pts = utils.t_to_phase_vector(vector, self.ts, self.planet_num)
         epts = self.ts_err / per
 
-        penalty = -0.5 * ((ts_phase - pts) / epts)**2 - 0.5*np.log((epts**2)*2.*np.pi)
+        # phases are cyclic
+        dphase = ts_phase - pts
+        dphase -= np.round(dphase)
+
+        penalty = -0.5 * (dphase / epts)**2 - 0.5*np.log((epts**2)*2.*np.pi)
+
+        if np.isnan(penalty):
+            # no secondary eclipse, e.g. unbound orbit
+            penalty = -np.inf
 
         return penalty
 
@@ -465,6 +476,8 @@ class NumericalPrior(Prior):
         return val[0]
 
     def transform(self, u):
+        if len(self.param_list) > 1:
+            raise NotImplementedError("Prior transform not implemented for multivariate NumericalPrior")
         return np.interp(u, self.hist_cumulative, self.bin_middle)
 
     def __repr__(self):
-- 
2.43.0


From 1f17274d56b0f33fa97d028eb67c98dc1a489821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:48 +0000
Subject: [PATCH 10/37] fix: nested sampling covers priors defined by
 param_list and any extra constraint

Priors with a param_list were invisible to the nested prior transform (silently
dropped or refused), SecondaryEclipsePrior and other extra constraints raised
TypeError, improper priors were accepted, and non-finite likelihoods were passed on.
---
 radvel/posterior.py | 49 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/radvel/posterior.py b/radvel/posterior.py
index 757bd8b..1ca7694 100644
--- a/radvel/posterior.py
+++ b/radvel/posterior.py
@@ -57,13 +57,14 @@ class Posterior(Likelihood):
         prior_dict = dict()
         for prior in self.priors:
             try:
-                param = prior.param
+                prior_params = [prior.param]
             except AttributeError:
-                continue
-            if param not in prior_dict:
-                prior_dict[param] = [prior]
-            else:
-                prior_dict[param] += [prior]
+                prior_params = getattr(prior, 'param_list', [])
+            for param in prior_params:
+                if param not in prior_dict:
+                    prior_dict[param] = [prior]
+                else:
+                    prior_dict[param] += [prior]
         return prior_dict
 
     def check_proper_priors(self):
@@ -100,7 +101,23 @@ class Posterior(Likelihood):
                         "Prior transform specified for fixed parameter {}. "
                         "Use `extra_constraint` to constrain fixed or deterministic parameters".format(pname)
                     )
-
+        for prior in self.priors:
+            if prior.extra_constraint:
+                continue
+            if hasattr(prior, 'param'):
+                u = 0.5
+            elif hasattr(prior, 'param_list'):
+                u = np.full(len(prior.param_list), 0.5)
+            else:
+                raise ValueError(
+                    "{} has neither a prior transform nor `extra_constraint=True`".format(prior.__repr__())
+                )
+            try:
+                prior.transform(u)
+            except (AttributeError, NotImplementedError, TypeError, ValueError) as e:
+                raise ValueError(
+                    "Nested sampling requires a prior transform: {} ({})".format(prior.__repr__(), e)
+                )
 
     def prior_transform(self, u, inplace=False):
         """Prior transform for all model parameters
@@ -118,14 +135,21 @@ class Posterior(Likelihood):
         if inplace:
             x = u
         else:
-            x = np.array(u)
+            x = np.array(u, dtype=float)
         vary_param_names = self.name_vary_params()
         prior_dict = self.get_prior_dict()
         for ind, pname in enumerate(vary_param_names):
             prior_list = prior_dict[pname]
             for prior in prior_list:
                 if not prior.extra_constraint:
-                    x[ind] = prior.transform(u[ind])
+                    if hasattr(prior, 'param'):
+                        x[ind] = prior.transform(u[ind])
+                    elif pname == prior.param_list[0]:
+                        # the transform covers all parameters of the prior at once
+                        inds = [vary_param_names.index(p) for p in prior.param_list]
+                        values = np.atleast_1d(prior.transform(np.array([u[i] for i in inds])))
+                        for i, value in zip(inds, values):
+                            x[i] = value
                     break
 
         return x
@@ -142,7 +166,8 @@ class Posterior(Likelihood):
         _logprob = 0
         for prior in self.priors:
             if prior.extra_constraint:
-                _logprob += prior(self.params, self.vector, finite=True)
+                prior_logprob = prior(self.params, self.vector)
+                _logprob += prior_logprob if np.isfinite(prior_logprob) else -1e100
         return _logprob
 
     def extra_likelihood_array(self, param_values_array):
@@ -171,7 +196,9 @@ class Posterior(Likelihood):
         self.likelihood.set_vary_params(param_values_array, fast=True)
         extra_likelihood = self.extra_likelihood()
         if np.isfinite(extra_likelihood):
-            return extra_likelihood + self.likelihood.logprob()
+            _logprob = extra_likelihood + self.likelihood.logprob()
+            if np.isfinite(_logprob):
+                return _logprob
         # Ultranest requires finite values, so return very large negative instead of -inf
         return -1e100
 
-- 
2.43.0


From b00efdc8d252e646df2e8d392f73f2ace49743c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 11/37] fix: a prior on a parameter that is not in the model's
 basis is refused

---
 radvel/prior.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index 0d33757..e4eb5fa 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -19,6 +19,14 @@ class Prior(object):
     def __repr__(self):
         return "Generic Prior"
 
+    @staticmethod
+    def _getvalue(vector, param):
+        # several names (e.g. per1 and logper1) share a slot of the vector, only one of them
+        # belongs to the basis
+        if param not in vector.params and param not in ('dvdt', 'curv'):
+            raise KeyError("Prior on {}, which is not a parameter of the model".format(param))
+        return vector.vector[vector.indices[param]][0]
+
 
 class Gaussian(Prior):
     """Gaussian prior
@@ -37,7 +45,7 @@ class Gaussian(Prior):
         self.param = param
 
     def __call__(self, params, vector):
-        x = vector.vector[vector.indices[self.param]][0]
+        x = self._getvalue(vector, self.param)
         return -0.5 * ((x - self.mu) / self.sigma)**2 - 0.5*np.log((self.sigma**2)*2.*np.pi)
 
     def transform(self, u):
@@ -219,7 +227,7 @@ class HardBounds(Prior):
             self.finite = False
 
     def __call__(self, params, vector):
-        x = vector.vector[vector.indices[self.param]][0]
+        x = self._getvalue(vector, self.param)
         if x <= self.minval or x >= self.maxval:
             return -np.inf
         else:
@@ -344,7 +352,7 @@ class Jeffreys(Prior):
         self.normalization = 1./np.log(self.maxval/self.minval)
 
     def __call__(self, params, vector):
-        x = vector.vector[vector.indices[self.param]][0]
+        x = self._getvalue(vector, self.param)
         if x < self.minval or x > self.maxval:
             return -np.inf
         else:
@@ -400,7 +408,7 @@ class ModifiedJeffreys(Prior):
         assert self.minval > self.kneeval, "ModifiedJeffreys prior requires minval>kneeval."
 
     def __call__(self, params, vector):
-        x = vector.vector[vector.indices[self.param]][0]
+        x = self._getvalue(vector, self.param)
         if (x > self.maxval) or (x < self.minval):
             return -np.inf
         else:
@@ -471,7 +479,7 @@ class NumericalPrior(Prior):
     def __call__(self, params, vector):
         x = []
         for param in self.param_list:
-            x.append(vector.vector[vector.indices[param]][0])
+            x.append(self._getvalue(vector, param))
         val = np.log(self.pdf_estimate(x))
         return val[0]
 
@@ -549,7 +557,7 @@ class UserDefinedPrior(Prior):
     def __call__(self, params, vector):
         x = []
         for param in self.param_list:
-            x.append(vector.vector[vector.indices[param]][0])
+            x.append(self._getvalue(vector, param))
         return self.func(x)
 
     def transform(self, u):
@@ -601,7 +609,7 @@ class InformativeBaselinePrior(Prior):
 
     def __call__(self, params, vector):
 
-        per = vector.vector[vector.indices[self.param]][0]
+        per = self._getvalue(vector, self.param)
 
         if self.param.startswith('logper'):
             per = np.exp(per)
-- 
2.43.0


From 279d5a7889369eebdffa3557d4ff77a5d89b8199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:12 +0000
Subject: [PATCH 12/37] fix: fits keep the optimum found, and model comparison
 compares the models it states

maxlike_fitting left the posterior at the last trial point of the minimizer.
model_comp accumulated results between calls, changed the given posterior, left GP
hyperparameters free in the no-GP model and reported the log-posterior as the
log-likelihood; composite likelihoods forgot the hyperparameters of their first
instrument; --fixjitter did not reach the sampling vector.
---
 radvel/driver.py     |  2 ++
 radvel/fitting.py    | 31 +++++++++++++++++++++----------
 radvel/likelihood.py |  4 ++--
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/radvel/driver.py b/radvel/driver.py
index 0669b86..2a8ddb3 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -431,6 +431,8 @@ def ic_compare(args):
             for param in ipost.params:
                 if len(param) >= 3 and param[0:3] == 'jit':
                     ipost.params[param].vary = False
+            ipost.vector.dict_to_vector()
+            ipost.list_vary_params()
 
         for compareparam in compareparams:
             assert compareparam in choices, \
diff --git a/radvel/fitting.py b/radvel/fitting.py
index b4d011e..4a717bd 100644
--- a/radvel/fitting.py
+++ b/radvel/fitting.py
@@ -31,11 +31,18 @@ def maxlike_fitting(post, verbose=True, method='Powell'):
     if verbose:
         print("Initial loglikelihood = %f" % post.logprob())
         print("Performing maximum a posteriori fit...")
-    with warnings.catch_warnings():
-        warnings.filterwarnings("ignore", category=RuntimeWarning, message="invalid value encountered")
-        _ = scipy.optimize.minimize(
-            post.neglogprob_array, post.get_vary_params(), method=method,
-            options=dict(maxiter=200, maxfev=100000, xtol=1e-8))
+    initial = post.get_vary_params()
+    if len(initial) > 0:
+        initial_logprob = post.logprob_array(initial)
+        with warnings.catch_warnings():
+            warnings.filterwarnings("ignore", category=RuntimeWarning, message="invalid value encountered")
+            res = scipy.optimize.minimize(
+                post.neglogprob_array, initial, method=method,
+                options=dict(maxiter=200, maxfev=100000, xtol=1e-8))
+        # the posterior is left at the last point tried by the minimizer, which is not the best one
+        final_logprob = post.logprob_array(np.atleast_1d(res.x))
+        if not final_logprob >= initial_logprob and not np.isnan(initial_logprob):
+            post.logprob_array(initial)
     post.vector.vector_to_dict()
 
     if verbose:
@@ -46,7 +53,7 @@ def maxlike_fitting(post, verbose=True, method='Powell'):
     return post
 
 
-def model_comp(post, params=[], mc_list=[], verbose=False):
+def model_comp(post, params=[], mc_list=None, verbose=False):
     """Model Comparison
 
     Vary the presence of additional parameters and check how the improve the model fit
@@ -70,6 +77,8 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
 
     assert isinstance(post, radvel.likelihood.Likelihood), \
         "model_comp requires a radvel likelihood object as the first argument"
+    if mc_list is None:
+        mc_list = []
     assert isinstance(mc_list, list), \
         "mc_list must be either an empty list or a list of model comparison dictionaries"
     assert isinstance(params, list), \
@@ -85,7 +94,7 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
     #   to get BIC and AIC values among other diagnostics.
     if not params:
 
-        fitpost = maxlike_fitting(post, verbose=verbose)
+        fitpost = maxlike_fitting(copy.deepcopy(post), verbose=verbose)
 
         ndata = len(fitpost.likelihood.y)
         nfree = len(fitpost.get_vary_params())
@@ -117,7 +126,7 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
         #    np.round(chi_red,2), "jitter fixed"
         # )
         pdict[r'$\ln{\mathcal{L}}$'] = (
-            np.round(fitpost.logprob(), 2), "natural log of the likelihood"
+            np.round(fitpost.likelihood.logprob(), 2), "natural log of the likelihood"
         )
         pdict['BIC'] = (
             np.round(fitpost.likelihood.bic(), 2),
@@ -185,13 +194,15 @@ def model_comp(post, params=[], mc_list=[], verbose=False):
         if have_gpamp:
             gpparamlist = post.likelihood.hnames
             ipost = copy.deepcopy(post)
-            allfixed = False
+            allfixed = True
             for gpparam in gpparamlist:
                 if len(gpparam) >= 6 and gpparam.startswith('gp_amp'):
                     ipost.vector.vector[ipost.vector.indices[gpparam]][0] = 0.
                 if ipost.vector.vector[ipost.vector.indices[gpparam]][1]:
                     allfixed = False
-                    ipost.vector.vector[ipost.vector.indices[gpparam]][0] = False
+                    ipost.vector.vector[ipost.vector.indices[gpparam]][1] = 0
+            ipost.list_vary_params()
+            ipost.likelihood.list_vary_params()
             if not allfixed:
                 mc_list = model_comp(ipost, newparams, mc_list=mc_list)
             post.list_vary_params()
diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index dcdbd5d..058fbd3 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -237,7 +237,7 @@ class CompositeLikelihood(Likelihood):
         self.extra_params = like0.extra_params
         self.suffixes = like0.suffix
         self.uparams = like0.uparams
-        self.hnames = []
+        self.hnames = list(getattr(like0, 'hnames', []))
 
         for i in range(1, self.nlike):
             like = like_list[i]
@@ -249,7 +249,7 @@ class CompositeLikelihood(Likelihood):
             self.extra_params = np.append(self.extra_params, like.extra_params)
             self.suffixes = np.append(self.suffixes, like.suffix)
             if hasattr(like, 'hnames'):
-                self.hnames.extend(like.hnames)
+                self.hnames.extend(h for h in like.hnames if h not in self.hnames)
             try:
                 self.uparams = self.uparams.update(like.uparams)
             except AttributeError:
-- 
2.43.0


From 3c476ba243f90e39f040a7ca007583359762c523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:22 +0000
Subject: [PATCH 13/37] fix: MCMC takes exactly nrun steps, stores no step
 twice and starts from a clean state

A one-step run before each chunk stored a step which the chunk then repeated (same
random state), nrun was exceeded, checkinterval=1 divided by zero, runs too short for
a single check returned the chains of an earlier run, and a period of 1 day had no
initial spread.
---
 radvel/mcmc.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 271a4e9..c37a313 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -25,6 +25,7 @@ class StateVars(object):
         self.proceed_started = 0
 
     def reset(self):
+        self.__dict__.clear()
         self.__init__()
 
 statevars = StateVars()
@@ -225,6 +226,10 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
     statevars.reset()
 
     try:
+        nrun = int(nrun)
+        if min(nrun, ensembles, checkinterval, thin) < 1:
+            raise ValueError('nrun, ensembles, checkinterval, and thin must be at least 1.')
+
         if save and savename is None:
             raise ValueError('save set to true but no savename provided')
 
@@ -276,9 +281,6 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
 
         statevars.ensembles = ensembles
         statevars.nwalkers = nwalkers
-        statevars.checkinterval = checkinterval - 1
-
-        nrun = int(nrun)
 
         # Get an initial array value
         pi = post.get_vary_params()
@@ -316,6 +318,8 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
                     pscale = .00001
                 else:
                     pscale = np.abs(0.10 * val)
+                if pscale == 0:
+                    pscale = .00001
                 post.vector.vector[par][2] = pscale
             else:
                 pscale = post.vector.vector[par][2]
@@ -343,7 +347,7 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
                 sampler.backend.accepted = statevars.preaccepted[i]
                 sampler.backend.iteration = statevars.prechains[i].shape[0]
 
-        num_run = int(np.round(nrun / (checkinterval -1)))
+        num_run = int(np.ceil(nrun / checkinterval))
         statevars.totsteps = nrun*statevars.nwalkers*statevars.ensembles
         statevars.mixcount = 0
         statevars.ismixed = 0
@@ -365,16 +369,17 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
 
         for r in range(num_run):
             t1 = time.time()
+            # the last check may come after less than checkinterval steps, so that exactly nrun steps are taken
+            statevars.checkinterval = min(checkinterval, nrun - r * checkinterval)
             mcmc_input_array = []
             for i, sampler in enumerate(statevars.samplers):
-                if sampler.iteration <= 1 or statevars.proceed_started == 0:
+                if sampler.iteration == 0 or statevars.proceed_started == 0:
                     p1 = statevars.initial_positions[i]
                     statevars.proceed_started = 1
                 else:
                     p1 = sampler.get_last_sample()
-                for sample in sampler.sample(p1, store=True):
-                    mcmc_input = (sampler, p1, (checkinterval - 1))
-                    mcmc_input_array.append(mcmc_input)
+                mcmc_input = (sampler, p1, statevars.checkinterval)
+                mcmc_input_array.append(mcmc_input)
 
             if serial:
                 statevars.samplers = []
-- 
2.43.0


From 8b1f9aae7ff8ca348bfdfd37bb81df4c6eadfe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:22 +0000
Subject: [PATCH 14/37] fix: MCMC chains are thinned per walker, so that every
 walker contributes the same steps

---
 radvel/mcmc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index c37a313..14850db 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -478,14 +478,13 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
             _closescr()
             print(msg)
 
-        preshaped_chain = np.dstack(statevars.chains)
+        # thin each walker separately so that all of them contribute the same steps
+        preshaped_chain = np.dstack([chain[:, :, ::thin] for chain in statevars.chains])
         df = pd.DataFrame(
             preshaped_chain.reshape(preshaped_chain.shape[0], preshaped_chain.shape[1]*preshaped_chain.shape[2]).transpose(),
             columns=post.name_vary_params())
-        preshaped_ln = np.hstack(statevars.lnprob)
+        preshaped_ln = np.hstack([lnprob[:, ::thin] for lnprob in statevars.lnprob])
         df['lnprobability'] = preshaped_ln.reshape(preshaped_chain.shape[1]*preshaped_chain.shape[2])
-        df = df.iloc[::thin]
-
         statevars.factor = [minAfactor] * len(statevars.autosamples)
 
         return df
-- 
2.43.0


From d37380aade589bf7858ec3f6af058ad87e6b9caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:41 +0000
Subject: [PATCH 15/37] fix: saved MCMC runs are replaced atomically, closed
 again and loaded completely

An interruption while saving left a file mixing two states, files stayed open for the
rest of the process, stale ensembles of an earlier run made a file unusable, and asking
to resume from nothing created an empty file.
---
 radvel/mcmc.py | 112 +++++++++++++++++++++++--------------------------
 1 file changed, 53 insertions(+), 59 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 14850db..768929d 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -187,6 +187,33 @@ def _domcmc(input_tuple):
     return sampler
 
 
+def _save_chains(savename):
+    """Save the current state of the run
+
+    The file is replaced in one step, so that an interruption leaves the previously saved state in place.
+
+    Args:
+        savename (string): name of the h5py file
+    """
+    tmpname = savename + '.tmp'
+    with h5py.File(tmpname, 'w') as h5f:
+        for i, sampler in enumerate(statevars.samplers):
+            h5f.create_dataset(str(i) + '_chain', data=sampler.get_chain())
+            h5f.create_dataset(str(i) + '_log_prob', data=sampler.get_log_prob())
+            h5f.create_dataset(str(i) + '_accepted', data=sampler.backend.accepted)
+        h5f.create_dataset('crit', data=[statevars.minafactor, statevars.maxarchange, statevars.mintz,
+                                         statevars.maxgr])
+        h5f.create_dataset('autosample', data=statevars.autosamples)
+        h5f.create_dataset('automin', data=statevars.automin)
+        h5f.create_dataset('automean', data=statevars.automean)
+        h5f.create_dataset('automax', data=statevars.automax)
+        if statevars.burn_complete:
+            h5f.create_dataset('burned', data=[statevars.nburn])
+        else:
+            h5f.create_dataset('burned', data=[0])
+    os.replace(tmpname, savename)
+
+
 def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfactor=40, maxArchange=.03, burnAfactor=25,
          burnGR=1.03, maxGR=1.01, minTz=1000, minsteps=1000, minpercent=5, thin=1, serial=False, save=False,
          savename=None, proceed=False, proceedname=None, headless=False):
@@ -233,35 +260,35 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
         if save and savename is None:
             raise ValueError('save set to true but no savename provided')
 
-        if save:
-            h5f = h5py.File(savename, 'a')
+        if save and not os.path.isdir(os.path.dirname(os.path.abspath(savename))):
+            raise ValueError('the directory of savename does not exist')
 
         if proceed:
             if proceedname is None:
                 raise ValueError('proceed set to true but no proceedname provided')
-            else:
-                h5p = h5py.File(proceedname, 'r')
-                msg = 'Loading chains and run information from previous MCMC'
-                print(msg)
+            msg = 'Loading chains and run information from previous MCMC'
+            print(msg)
             statevars.prechains = []
             statevars.prelog_probs = []
             statevars.preaccepted = []
-            statevars.preburned = h5p['burned'][0]
-            statevars.minafactor = h5p['crit'][0]
-            statevars.maxarchange = h5p['crit'][1]
-            statevars.mintz = h5p['crit'][2]
-            statevars.maxgr = h5p['crit'][3]
-            statevars.autosamples = list(h5p['autosample'])
-            statevars.automin = list(h5p['automin'])
-            statevars.automean = list(h5p['automean'])
-            statevars.automax = list(h5p['automax'])
-            for i in range(0,int((len(h5p.keys()) - 6)/3)):
-                str_chain = str(i) + '_chain'
-                str_log_prob = str(i) + '_log_prob'
-                str_accepted = str(i) + '_accepted'
-                statevars.prechains.append(h5p[str_chain])
-                statevars.prelog_probs.append(h5p[str_log_prob])
-                statevars.preaccepted.append(h5p[str_accepted])
+            with h5py.File(proceedname, 'r') as h5p:
+                nkeys = len(h5p.keys())
+                statevars.preburned = h5p['burned'][0]
+                statevars.minafactor = h5p['crit'][0]
+                statevars.maxarchange = h5p['crit'][1]
+                statevars.mintz = h5p['crit'][2]
+                statevars.maxgr = h5p['crit'][3]
+                statevars.autosamples = list(h5p['autosample'])
+                statevars.automin = list(h5p['automin'])
+                statevars.automean = list(h5p['automean'])
+                statevars.automax = list(h5p['automax'])
+                for i in range(0,int((nkeys - 6)/3)):
+                    str_chain = str(i) + '_chain'
+                    str_log_prob = str(i) + '_log_prob'
+                    str_accepted = str(i) + '_accepted'
+                    statevars.prechains.append(h5p[str_chain][()])
+                    statevars.prelog_probs.append(h5p[str_log_prob][()])
+                    statevars.preaccepted.append(h5p[str_accepted][()])
 
         # check if one or more likelihoods are GPs
         if isinstance(post.likelihood, radvel.likelihood.CompositeLikelihood):
@@ -292,8 +319,9 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
             statevars.nwalkers = 2 * statevars.ndim
 
         if proceed:
-            if len(h5p.keys()) != (3 * statevars.ensembles + 6) or h5p['0_chain'].shape[2] != statevars.ndim \
-               or h5p['0_chain'].shape[1] != statevars.nwalkers:
+            if nkeys != (3 * statevars.ensembles + 6) \
+               or any(chain.shape != (len(statevars.prechains[0]), statevars.nwalkers, statevars.ndim)
+                      for chain in statevars.prechains):
                 raise ValueError('nensembles, nwalkers, and the number of ' +
                                  'parameters must be equal to those from previous run.')
 
@@ -399,41 +427,7 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
                               minsteps=minsteps, minpercent=minpercent, headless=headless)
 
             if save:
-                for i, sampler in enumerate(statevars.samplers):
-                    str_chain = str(i) + '_chain'
-                    str_log_prob = str(i) + '_log_prob'
-                    str_accepted = str(i) + '_accepted'
-                    if str_chain in h5f.keys():
-                        del h5f[str_chain]
-                    if str_log_prob in h5f.keys():
-                        del h5f[str_log_prob]
-                    if str_accepted in h5f.keys():
-                        del h5f[str_accepted]
-                    if 'crit' in h5f.keys():
-                        del h5f['crit']
-                    if 'autosample' in h5f.keys():
-                        del h5f['autosample']
-                    if 'automin' in h5f.keys():
-                        del h5f['automin']
-                    if 'automean' in h5f.keys():
-                        del h5f['automean']
-                    if 'automax' in h5f.keys():
-                        del h5f['automax']
-                    if 'burned' in h5f.keys():
-                        del h5f['burned']
-                    h5f.create_dataset(str_chain, data=sampler.get_chain())
-                    h5f.create_dataset(str_log_prob, data=sampler.get_log_prob())
-                    h5f.create_dataset(str_accepted, data=sampler.backend.accepted)
-                    h5f.create_dataset('crit', data=[statevars.minafactor, statevars.maxarchange, statevars.mintz,
-                                                     statevars.maxgr])
-                    h5f.create_dataset('autosample', data=statevars.autosamples)
-                    h5f.create_dataset('automin', data=statevars.automin)
-                    h5f.create_dataset('automean', data=statevars.automean)
-                    h5f.create_dataset('automax', data=statevars.automax)
-                    if statevars.burn_complete==True:
-                        h5f.create_dataset('burned', data=[statevars.nburn])
-                    else:
-                        h5f.create_dataset('burned', data=[0])
+                _save_chains(savename)
 
             # Burn-in complete after maximum G-R statistic first reaches burnGR or minAfactor reaches burnAfactor
             # reset samplers
-- 
2.43.0


From 0c7f0433deb395e4bba101f758bc7b55725ad6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:40 +0000
Subject: [PATCH 16/37] fix: Gelman-Rubin statistic and number of independent
 draws as defined by Ford (2006)

The between-chain variance used for Tz was too small by the number of chains, parameters
with the maximum number of independent draws were dropped (and chains in which all had
it never converged), and an undefined statistic could be hidden by the order of
parameters.
---
 radvel/mcmc.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 768929d..4579df2 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -150,8 +150,8 @@ def convergence_check(minAfactor, maxArchange, maxGR, minTz, minsteps, minpercen
             = convergence_calculate(statevars.chains,
                                     oldautocorrelation=statevars.oac, minAfactor=minAfactor, maxArchange=maxArchange,
                                     maxGR=maxGR, minTz=minTz)
-        statevars.mintz = min(tz)
-        statevars.maxgr = max(gr)
+        statevars.mintz = np.amin(tz)
+        statevars.maxgr = np.amax(gr)
         statevars.minafactor = np.amin(afactor)
         statevars.maxarchange = np.amax(archange)
         statevars.oac = oac
@@ -557,36 +557,30 @@ def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, m
     assert nsteps > 1, msg
 
     # Equation 21: W(z) in Ford 2006
-    variances = np.var(pars,axis=1, dtype=np.float64)
-    meanofvariances = np.mean(variances,axis=1)
+    variances = np.var(pars,axis=1, dtype=np.float64, ddof=1)
     withinChainVariances = np.mean(variances, axis=1)
 
-    # Equation 23: B(z) in Ford 2006
     means = np.mean(pars,axis=1)
-    betweenChainVariances = np.var(means,axis=1, dtype=np.float64) * nsteps
-    varEstimate = (
-        (1.0 - 1.0/nsteps) * withinChainVariances
-        + 1.0 / nsteps * betweenChainVariances
-    )
 
     # Tz calculation will yield only NaNs if nchains = 1.
     # Avoid calculation and warning by skipping explicitly
     if nchains != 1:
-        varianceofmeans = np.var(means,axis=1, dtype=np.float64) / (nchains-1)
+        # Equation 23: B(z) in Ford 2006
+        varianceofmeans = np.var(means,axis=1, dtype=np.float64, ddof=1)
         bz = varianceofmeans * nsteps
         # Equation 24: varhat+(z) in Ford 2006
-        varz = (nsteps-1.0)/bz + varianceofmeans
+        varEstimate = (nsteps-1.0)/nsteps * withinChainVariances + varianceofmeans
         # Equation 26: T(z) in Ford 2006
-        vbz = varEstimate / bz
-        tz = nchains*nsteps*vbz[vbz < 1]
-        if tz.size == 0:
-            tz = [-1]
+        with np.errstate(divide='ignore', invalid='ignore'):
+            tz = nchains*nsteps*np.minimum(varEstimate / bz, 1.0)
     else:
+        varEstimate = (nsteps-1.0)/nsteps * withinChainVariances
         tz = [-1]
         minTz = -np.inf
 
     # Equation 25: Rhat(z) in Ford 2006
-    gelmanrubin = np.sqrt(varEstimate/withinChainVariances)
+    with np.errstate(divide='ignore', invalid='ignore'):
+        gelmanrubin = np.sqrt(varEstimate/withinChainVariances)
 
 
     chains = np.dstack(chains)
@@ -603,7 +597,7 @@ def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, m
         )
 
     # well-mixed criteria
-    ismixed = min(tz) > minTz and max(gelmanrubin) < maxGR and \
+    ismixed = np.amin(tz) > minTz and np.amax(gelmanrubin) < maxGR and \
               np.amin(afactor) > minAfactor and np.amax(archange) < maxArchange
 
     return (ismixed, afactor, archange, autocorrelation, gelmanrubin, tz)
-- 
2.43.0


From eaa7f5512fc45512d45e01ebeaa1adfa1f53efb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:41 +0000
Subject: [PATCH 17/37] fix: minimum mass of massive companions for any mixture
 of scalars and arrays, and always converged

---
 radvel/utils.py | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index fa70ce1..651909d 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -581,24 +581,13 @@ def Msini(K, P, Mstar, e, Msini_units='earth'):
             warnings.warn("Mpsini << Mstar assumption broken, correcting Msini calculation.", stacklevel=2)
 
         a = K*(((2*(np.pi)*G)/P)**(-1/3.))*np.sqrt(1-(e**2))
-        Msini = []
-        if isinstance(P, float):
-            n_elements = 1
-        else:
-            assert type(K) == type(P) == type(Mstar) == type(e), "All input data types must match."
-            assert K.size == P.size == Mstar.size == e.size, "All input arrays must have the same length."
-            n_elements = len(P)
-        for i in range(n_elements):
-            def func(x):
-                try:
-                    return x - a[i]*((Mstar[i]+x)**(2/3.))
-                except IndexError:
-                    return x - a * ((Mstar + x) ** (2 / 3.))
-
-            sol = root(func, Mjup)
-            Msini.append(sol.x[0])
-
-        Msini = np.array(Msini)
+        a, Mstar = np.broadcast_arrays(a, Mstar)
+        Msini = np.empty(a.shape)
+        for i in np.ndindex(a.shape):
+            # start from an upper limit, from where the solution is always reached
+            sol = root(lambda x: x - a[i]*((Mstar[i]+x)**(2/3.)), max(Mstar[i], 4*a[i]**3))
+            Msini[i] = sol.x[0]
+
         Msini = Msini/Mjup
     
     if Msini_units.lower() == 'jupiter':
-- 
2.43.0


From 8e2d73e0212d51d1176b25f0af06452fe4003674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:14 +0000
Subject: [PATCH 18/37] fix: geterr leaves the samples unchanged, date2jd keeps
 fractions of a second

---
 radvel/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index 651909d..dcf0324 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -420,7 +420,7 @@ def date2jd(date):
      """
 
     jd_td = date - datetime(2000, 1, 1, 12, 0, 0)
-    jd = 2451545.0 + jd_td.days + jd_td.seconds/86400.0
+    jd = 2451545.0 + jd_td.days + (jd_td.seconds + jd_td.microseconds/1e6)/86400.0
     return jd
 
 
@@ -462,6 +462,7 @@ def geterr(vec, angular=False):
         pass
 
     if angular:
+        vec = np.array(vec)    # the caller's samples stay as they are
         val, edges = np.histogram(vec, bins=50)
         med = edges[np.argmax(val)]
         if med > np.radians(90):
-- 
2.43.0


From cf9f885b94896be22d6d11ffbf007eb775e85f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:54 +0000
Subject: [PATCH 19/37] fix: array_to_params keeps the vary flags and reaches
 the model, so that models drawn from a chain are those of its rows

---
 radvel/model.py | 33 +++++++++++++++------------------
 radvel/utils.py | 12 ++++++++----
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/radvel/model.py b/radvel/model.py
index 98f5315..972ecd9 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -296,30 +296,27 @@ class GeneralRVModel(object):
         return vel
 
     def array_to_params(self,param_values):
-    
-    	new_params = self.params
-    	
-    	vary_parameters = self.list_vary_params()
-    	
-    	for i in range(len(vary_parameters)):
-    		new_params[vary_parameters[i]] = Parameter(value=param_values[i])
-    		
-    	return new_params
-             
+
+        new_params = self.params
+
+        vary_parameters = self.list_vary_params()
+
+        for i in range(len(vary_parameters)):
+            new_params[vary_parameters[i]].value = param_values[i]
+
+        self.vector.dict_to_vector()
+
+        return new_params
+
     def list_vary_params(self):
         keys = self.list_params()
 
         return [key for key in keys if self.params[key].vary]
 
     def list_params(self):
-        try:
-            keys = self.params_order
-        except AttributeError:
-            keys = list(self.params.keys())
-            self.params_order = keys
-        return keys
-
-        
+        return list(self.params.keys())
+
+
 def _standard_rv_calc(t,params,vector,planet_num=None):
         vel = np.zeros(len(t))
         params_synth = params.basis.v_to_synth(vector)
diff --git a/radvel/utils.py b/radvel/utils.py
index dcf0324..02ede42 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -648,11 +648,15 @@ def draw_models_from_chain(mod, chain, t, nsamples=50):
     """
 
     np.random.seed(0)
-    chain_samples = chain.iloc[np.random.choice(chain.index, nsamples)]
+    chain_samples = chain.iloc[np.random.choice(len(chain), nsamples)]
+    names = mod.list_vary_params()
+    start = [mod.params[name].value for name in names]
+    vector = mod.vector.vector.copy()
     models = []
-    for i in chain_samples.index:
-        params = np.array(chain.loc[i, mod.list_vary_params()])
-        params = mod.array_to_params(params)
+    for params in np.array(chain_samples[names]):
+        mod.array_to_params(params)
         models += [mod(t)]
+    mod.array_to_params(start)
+    mod.vector.vector = vector
     models = np.vstack(models)
     return models
-- 
2.43.0


From 42355bdc3c38413aab4893e57173fa780b5afecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:06 +0000
Subject: [PATCH 20/37] fix: setup files with log-jitter parameters, or with GP
 and non-GP instruments, can be initialised

---
 radvel/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radvel/utils.py b/radvel/utils.py
index 02ede42..d65412a 100644
--- a/radvel/utils.py
+++ b/radvel/utils.py
@@ -77,7 +77,7 @@ Parameters in config file must be converted to fitting basis.
     else:
         decorr_vars = []
 
-    for key in params.keys():
+    for key in list(params.keys()):
         if key.startswith('logjit'):
             msg = """
 Fitting log(jitter) is depreciated. Please convert your config
@@ -118,9 +118,9 @@ Converting 'logjit' to 'jit' for you now.
                 #     liketype = radvel.likelihood.CeleriteLikelihood
                 if kernel_name == "Celerite":
                      liketype = radvel.likelihood.CeleriteLikelihood
-            except AttributeError:
+            except (AttributeError, KeyError):
                 kernel_name = "QuasiPer"
-        except AttributeError:
+        except (AttributeError, KeyError):
             liketype = radvel.likelihood.RVLikelihood
             kernel_name = None
             hnames = None
-- 
2.43.0


From 3238219eced15962b5b0a3239e0731037f919e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:06 +0000
Subject: [PATCH 21/37] fix: GP likelihoods include the requested decorrelation
 instead of silently ignoring it

---
 radvel/likelihood.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 058fbd3..0cd8d32 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -338,16 +338,21 @@ class RVLikelihood(Likelihood):
         self.gamma_index = self.vector.indices[self.gamma_param]
         self.jit_index = self.vector.indices[self.jit_param]
 
-    def residuals(self):
-        """Residuals
-        Data minus model
+    def _decorr_trend(self):
+        """Sum of the linear trends with the decorrelation vectors
         """
-        res = self.y - self.model(self.x)
-
+        trend = np.zeros(len(self.x))
         for var, parname in zip(self.decorr_vars, self.decorr_params):
             if np.isfinite(self.decorr_vectors[var]).all():
                 vec = self.decorr_vectors[var] - np.mean(self.decorr_vectors[var])
-                res -= self.vector.vector[self.vector.indices[parname]][0] * vec
+                trend += self.vector.vector[self.vector.indices[parname]][0] * vec
+        return trend
+
+    def residuals(self):
+        """Residuals
+        Data minus model
+        """
+        res = self.y - self.model(self.x) - self._decorr_trend()
 
         if self.vector.vector[self.gamma_index][3] and not self.vector.vector[self.gamma_index][1]:
             ztil = np.sum(res/(self.yerr**2 + self.vector.vector[self.jit_index][0]**2)) / \
@@ -407,12 +412,13 @@ class GPLikelihood(RVLikelihood):
     """
     def __init__(self, model, t, vel, errvel,
                  hnames=['gp_per', 'gp_perlength', 'gp_explength', 'gp_amp'],
-                 suffix='', kernel_name="QuasiPer", **kwargs):
+                 suffix='', kernel_name="QuasiPer", decorr_vars=[],
+                 decorr_vectors={}, **kwargs):
 
         self.suffix = suffix
         super(GPLikelihood, self).__init__(
               model, t, vel, errvel, suffix=self.suffix,
-              decorr_vars=[], decorr_vectors={}
+              decorr_vars=decorr_vars, decorr_vectors=decorr_vectors
             )
         assert kernel_name in gp.KERNELS.keys(), \
             'GP Kernel not recognized: ' + kernel_name + '\n' + \
@@ -441,7 +447,7 @@ class GPLikelihood(RVLikelihood):
         """Residuals for internal GP calculations
         Data minus orbit model. For internal use in GP calculations ONLY.
         """
-        res = self.y - self.vector.vector[self.gamma_index][0] - self.model(self.x)
+        res = self.y - self.vector.vector[self.gamma_index][0] - self.model(self.x) - self._decorr_trend()
         return res
 
     def residuals(self):
@@ -449,7 +455,7 @@ class GPLikelihood(RVLikelihood):
         Data minus (orbit model + predicted mean of GP noise model). For making GP plots.
         """
         mu_pred, _ = self.predict(self.x)
-        res = self.y - self.vector.vector[self.gamma_index][0] - self.model(self.x) - mu_pred
+        res = self._resids() - mu_pred
         return res
 
     def logprob(self):
@@ -553,9 +559,10 @@ class CeleriteLikelihood(GPLikelihood):
 
     def __init__(self, model, t, vel, errvel, hnames, suffix='', **kwargs):
 
+        kwargs.pop('kernel_name', None)
         super(CeleriteLikelihood, self).__init__(
             model, t, vel, errvel, hnames,
-            suffix=suffix, kernel_name='Celerite'
+            suffix=suffix, kernel_name='Celerite', **kwargs
         )
 
         # Sort inputs in time order. Required for celerite calculations.
@@ -563,6 +570,7 @@ class CeleriteLikelihood(GPLikelihood):
         self.x = self.x[order]
         self.y = self.y[order]
         self.yerr = self.yerr[order]
+        self.decorr_vectors = {var: np.asarray(self.decorr_vectors[var])[order] for var in self.decorr_vars}
         self.N = len(self.x)
         self.kernel.compute_distances(self.x, self.x)
 
-- 
2.43.0


From 8ff42db6b918ebc751d5f12d7b041bf30090a263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:20 +0000
Subject: [PATCH 22/37] fix: an interruption while recording keeps the previous
 status; derived parameters are used only with the chains they were derived
 from

---
 radvel/driver.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/radvel/driver.py b/radvel/driver.py
index 2a8ddb3..ea2d266 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -122,6 +122,8 @@ You may want to use the '--gp' flag when making these plots.")
         if ptype == 'derived':
             assert status.has_section('derive'), \
                 "Must run `radvel derive` before plotting derived parameters"
+            assert args.sampler == 'auto' or _has_derived(status, args.sampler), \
+                "Must run `radvel derive` on the {} chains before plotting derived parameters".format(args.sampler)
 
             P, _ = radvel.utils.initialize_posterior(config_file)
             chains = pd.read_csv(status.get('derive', 'chainfile'))
@@ -494,7 +496,7 @@ def tables(args):
     post = radvel.posterior.load(status.get(sampler_type, 'postfile'))
 
 
-    if 'derive' in status.sections() and status.getboolean('derive', 'run'):
+    if _has_derived(status, sampler_type):
         dchains = pd.read_csv(status.get('derive', 'chainfile'))
         chains = chains.join(dchains, rsuffix='_derived')
         derived = True
@@ -512,11 +514,7 @@ def tables(args):
             assert status.has_option('ic_compare', 'ic'), \
                 "Must run Information Criteria comparison before making comparison tables"
 
-            compstats = eval(status.get('ic_compare', 'ic'))
-            report = radvel.report.RadvelReport(
-                P, post, chains, minafactor, maxarchange, maxgr, mintz, compstats=compstats
-            )
-            tabletex = radvel.report.TexTable(report)
+            report.compstats = eval(status.get('ic_compare', 'ic'))
             tex = tabletex.tab_comparison()
         elif tabtype == 'rv':
             tex = getattr(tabletex, attrdict[tabtype])(name_in_title=args.name_in_title, max_lines=None)
@@ -524,8 +522,8 @@ def tables(args):
             tex = getattr(tabletex, attrdict[tabtype])(name_in_title=args.name_in_title)
         else:
             if tabtype == 'derived':
-                assert status.has_option('derive', 'run'), \
-                    "Must run `radvel derive` before making derived parameter table"
+                assert derived, \
+                    "Must run `radvel derive` on the {} chains before making derived parameter table".format(sampler_type)
             assert tabtype in attrdict, 'Invalid Table Type %s ' % tabtype
             tex = getattr(tabletex, attrdict[tabtype])(name_in_title=args.name_in_title)
 
@@ -565,6 +563,12 @@ def _pick_sampler(args, status):
     return sampler_type
 
 
+def _has_derived(status, sampler_type):
+    """Check that derived parameters are available for the chains of this sampler"""
+    return (status.has_section('derive') and status.getboolean('derive', 'run')
+            and status.get('derive', 'sampler', fallback=sampler_type) == sampler_type)
+
+
 def derive(args):
     """Derive physical parameters from posterior samples
 
@@ -614,7 +618,7 @@ values. Interpret posterior with caution.".format(num_nan, nan_perc))
 
     synthchains = post.params.basis.to_synth(synthchains)
 
-    savestate = {'run': True}
+    savestate = {'run': True, 'sampler': sampler_type}
     outcols = []
     for i in np.arange(1, P.nplanets + 1, 1):
         # Grab parameters from the chain
@@ -725,7 +729,7 @@ def report(args):
     chains = pd.read_csv(status.get(sampler_type, 'chainfile'))
     post = radvel.posterior.load(status.get(sampler_type, 'postfile'))
 
-    if 'derive' in status.sections() and status.getboolean('derive', 'run'):
+    if _has_derived(status, sampler_type):
         dchains = pd.read_csv(status.get('derive', 'chainfile'))
         chains = chains.join(dchains, rsuffix='_derived')
         derived = True
@@ -780,8 +784,11 @@ def save_status(statfile, section, statevars):
     for key, val in statevars.items():
         config.set(section, key, val)
 
-    with open(statfile, 'w') as f:
+    # the previous status stays in place until the new one is complete
+    tmpfile = statfile + '.tmp'
+    with open(tmpfile, 'w') as f:
         config.write(f)
+    os.replace(tmpfile, statfile)
 
 
 def load_status(statfile):
-- 
2.43.0


From dc80575e0546c073deaaebe4a043f8a4f0252944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:20 +0000
Subject: [PATCH 23/37] fix: the report leaves neither the working directory
 changed nor temporary files behind

---
 radvel/report.py | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/radvel/report.py b/radvel/report.py
index 2a54dcc..ada7cce 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -144,33 +144,33 @@ class RadvelReport(object):
             )
 
         os.chdir(temp)
-
-        f = open(texname, 'w')
-        f.write(self.texdoc())
-        f.close()
-
-        shutil.copy(texname, current)
-
         try:
-            for i in range(3):
-                # LaTex likes to be compiled a few times
-                # to get the table widths correct
-                proc = subprocess.Popen(
-                    [latex_compiler, texname], stdout=subprocess.PIPE,
-                )
-                proc.communicate()  # Let the subprocess complete
-        except (OSError):
-            msg = """
+            f = open(texname, 'w')
+            f.write(self.texdoc())
+            f.close()
+
+            shutil.copy(texname, current)
+
+            try:
+                for i in range(3):
+                    # LaTex likes to be compiled a few times
+                    # to get the table widths correct
+                    proc = subprocess.Popen(
+                        [latex_compiler, texname], stdout=subprocess.PIPE,
+                    )
+                    proc.communicate()  # Let the subprocess complete
+            except (OSError):
+                msg = """
 WARNING: REPORT: could not run %s. Ensure that %s is in your PATH
 or pass in the path as an argument
 """ % (latex_compiler, latex_compiler)
-            print(msg)
-            return
-
-        shutil.copy(pdfname, current)
+                print(msg)
+                return
 
-        shutil.rmtree(temp)
-        os.chdir(current)
+            shutil.copy(pdfname, current)
+        finally:
+            os.chdir(current)
+            shutil.rmtree(temp)
 
 
 class TexTable(RadvelReport):
-- 
2.43.0


From 0a2a87efb3c5b47dec3190e35317aeba14beca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:06 +0000
Subject: [PATCH 24/37] fix: nested sampling leaves the caller's options and
 files alone, and starts afresh when there is nothing to resume

---
 radvel/nested_sampling.py | 41 ++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/radvel/nested_sampling.py b/radvel/nested_sampling.py
index 1716546..617a4f0 100644
--- a/radvel/nested_sampling.py
+++ b/radvel/nested_sampling.py
@@ -1,5 +1,6 @@
 import os
 import shutil
+import tempfile
 from typing import Optional
 
 import h5py
@@ -41,8 +42,8 @@ def _run_dynesty(
     """
     from dynesty import DynamicNestedSampler, NestedSampler
 
-    run_kwargs = run_kwargs or {}
-    sampler_kwargs = sampler_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
+    sampler_kwargs = dict(sampler_kwargs or {})
 
     if sampler_type == "static":
         sampler_class = NestedSampler
@@ -75,17 +76,12 @@ def _run_dynesty(
             len(post.name_vary_params()),
             **sampler_kwargs,
         )
-        # Dynesty cannot resume when the file does not exist
-        if (
-            proceed
-            and checkpoint_file is not None
-            and not os.path.exists(checkpoint_file)
-        ):
-            run_kwargs["resume"] = False
+        # Dynesty cannot resume when there is nothing to restore
+        run_kwargs["resume"] = False
 
     if checkpoint_file is not None and not os.path.exists(checkpoint_file):
         outdir = os.path.dirname(checkpoint_file)
-        os.makedirs(outdir)
+        os.makedirs(outdir, exist_ok=True)
 
     sampler.run_nested(**run_kwargs)
 
@@ -137,8 +133,8 @@ def _run_ultranest(
     from ultranest import ReactiveNestedSampler
     from ultranest.stepsampler import SliceSampler, generate_mixture_random_direction
 
-    run_kwargs = run_kwargs or {}
-    sampler_kwargs = sampler_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
+    sampler_kwargs = dict(sampler_kwargs or {})
 
     if "log_dir" in sampler_kwargs:
         raise ValueError(
@@ -207,27 +203,28 @@ def _run_multinest(
     """
     import pymultinest
 
-    run_kwargs = run_kwargs or {}
+    run_kwargs = dict(run_kwargs or {})
 
     # By default, assume we want a temporary output dir
     tmp = True
 
-    if output_dir is None:
-        output_dir = "tmpdir"
-    else:
-        # if an actual outupt dir was specified, it is not temporary
-        tmp = False
-
     if "outputfiles_basename" in run_kwargs:
         raise ValueError(
             "outputfiles_basename not supported for multinest. Use radvel's output_dir instead."
         )
-    run_kwargs["outputfiles_basename"] = os.path.join(output_dir, "out")
 
     if "resume" in run_kwargs:
         raise ValueError(
             "'resume' not supported for multinest. Use radvel's 'proceed' instead."
         )
+
+    if output_dir is None:
+        output_dir = tempfile.mkdtemp()
+    else:
+        # if an actual outupt dir was specified, it is not temporary
+        tmp = False
+
+    run_kwargs["outputfiles_basename"] = os.path.join(output_dir, "out")
     run_kwargs["resume"] = proceed
 
     os.makedirs(output_dir, exist_ok=tmp or overwrite or proceed)
@@ -298,8 +295,8 @@ def _run_nautilus(
     """
     from nautilus import Sampler
 
-    sampler_kwargs = sampler_kwargs or {}
-    run_kwargs = run_kwargs or {}
+    sampler_kwargs = dict(sampler_kwargs or {})
+    run_kwargs = dict(run_kwargs or {})
     run_kwargs.setdefault("verbose", True)
 
     if "filepath" in sampler_kwargs:
-- 
2.43.0


From 6998668e05d00d57d1e06cf070c688322edcd47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:41 +0000
Subject: [PATCH 25/37] fix: CompositeLikelihood.y must not have the offset of
 the later instruments subtracted; suffixes is a list

---
 radvel/likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 0cd8d32..a9211bf 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -235,7 +235,7 @@ class CompositeLikelihood(Likelihood):
         self.yerr = like0.yerr
         self.telvec = like0.telvec
         self.extra_params = like0.extra_params
-        self.suffixes = like0.suffix
+        self.suffixes = [like0.suffix]
         self.uparams = like0.uparams
         self.hnames = list(getattr(like0, 'hnames', []))
 
@@ -243,7 +243,7 @@ class CompositeLikelihood(Likelihood):
             like = like_list[i]
 
             self.x = np.append(self.x, like.x)
-            self.y = np.append(self.y, like.y - like.vector.vector[like.vector.indices[like.gamma_param]][0])
+            self.y = np.append(self.y, like.y)
             self.yerr = np.append(self.yerr, like.yerr)
             self.telvec = np.append(self.telvec, like.telvec)
             self.extra_params = np.append(self.extra_params, like.extra_params)
-- 
2.43.0


From 1b2db0250f5496cd3a0eea61f4cd29495b42e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:41 +0000
Subject: [PATCH 26/37] fix: labels of GP hyperparameters whose instrument ends
 in a digit, and of Celerite hyperparameters

---
 radvel/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/radvel/model.py b/radvel/model.py
index 972ecd9..e34c210 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -146,16 +146,19 @@ should have only integers as keys."""
         for k in param_list:
             n = k[-1]
             p = k[:-1]
-            if n.isdigit() and (not 'gamma' in p and not 'jit' in p):
+            if n.isdigit() and (not 'gamma' in p and not 'jit' in p and not p.startswith('gp_')):
                 tex_labels[k] = self._planet_texlabel(p, n)
             elif k in texdict.keys():
                 tex_labels[k] = "$%s$" % texdict[k]
             elif p not in self.planet_parameters:
                 for tex in texdict.keys():
-                    if tex in k and len(tex) > 1:
+                    if k.startswith(tex) and len(tex) > 1:
                         tex_labels[k] = "$%s}$" % k.replace(tex, texdict[tex])
                         if k.startswith('gp_'):
-                            tex_labels[k] = tex_labels[k].replace("}_", ", \\rm ")
+                            if "}_" in tex_labels[k]:
+                                tex_labels[k] = tex_labels[k].replace("}_", ", \\rm ")
+                            else:
+                                tex_labels[k] = "$%s_{\\rm %s}$" % (texdict[tex], k.replace(tex, '', 1)[1:])
 
             if k not in tex_labels.keys():
                 tex_labels[k] = k
-- 
2.43.0


From fc030ca60c887232767a9e59f6f4e6a4c19cfd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:41 +0000
Subject: [PATCH 27/37] fix: report tables: parameter names, converted columns,
 bases, and inputs left unchanged

---
 radvel/plot/mcmc_plots.py |  8 ++++----
 radvel/report.py          | 29 ++++++++++++++++-------------
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/radvel/plot/mcmc_plots.py b/radvel/plot/mcmc_plots.py
index c14ef39..643549b 100644
--- a/radvel/plot/mcmc_plots.py
+++ b/radvel/plot/mcmc_plots.py
@@ -178,12 +178,12 @@ class DerivedPlot(object):
 
     def __init__(self, chains, P, saveplot=None):
 
-        self.chains = chains
+        # units may be converted below
+        self.chains = chains.copy()
         self.saveplot = saveplot
 
-        if 'planet_letters' in dir(P):
-            planet_letters = P.planet_letters
-        else:
+        planet_letters = getattr(P, 'planet_letters', None)
+        if planet_letters is None:
             planet_letters = {1: 'b', 2: 'c', 3: 'd', 4: 'e', 5: 'f', 6: 'g', 7: 'h', 8: 'i', 9: 'j', 10: 'k'}
 
         # Determine which columns to include in corner plot
diff --git a/radvel/report.py b/radvel/report.py
index ada7cce..8fc3c61 100644
--- a/radvel/report.py
+++ b/radvel/report.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 import pandas as pd
 
@@ -58,12 +59,16 @@ class RadvelReport(object):
     def __init__(self, planet, post, chains, minafactor, maxarchange, maxgr, mintz, compstats=None,
                  derived=False):
         self.planet = planet
-        self.post = post
         self.starname = planet.starname
         self.starname_tex = planet.starname.replace('_', '\\_')
         self.runname = self.starname_tex
         self.derived = derived
 
+        # leave the posterior and chains of the caller unchanged
+        post = copy.deepcopy(post)
+        chains = chains.copy()
+        self.post = post
+
         post.params = post.params.basis.to_synth(post.params)
         post.params = post.params.basis.from_synth(
             post.params, print_basis
@@ -187,7 +192,7 @@ class TexTable(RadvelReport):
         self.report = report
         self.post = report.post
         self.quantiles = report.quantiles
-        self.fitting_basis = report.post.params.basis.name
+        self.fitting_basis = report.planet.fitting_basis
         self.minafactor = report.minafactor
         self.maxarchange = report.maxarchange
         self.maxgr = report.maxgr
@@ -197,9 +202,6 @@ class TexTable(RadvelReport):
         """
         Helper function to output the rows in the parameter table
         """
-        if param not in self.quantiles.keys():
-            param = param[:-1]
-
         if unit == 'radians':
             par = radvel.utils.geterr(self.report.chains[param], angular=True)
             med, low, high = par
@@ -246,7 +248,7 @@ class TexTable(RadvelReport):
 
         for n in range(1, nloop):
             for p in basis.split():  # loop over variables
-                par = p+str(n)
+                par = p if dontloop else p+str(n)
 
                 # get unit for parameter
                 unit = units.get(p, '')
@@ -254,9 +256,10 @@ class TexTable(RadvelReport):
                 # try to remove suffix
                 if unit == '' and par not in units.keys():
                     for s in suffixes:
-                        if s in p:
-                            unit = units.get(p.replace(s, ''), '')
-                            break
+                        if p.endswith(s):
+                            unit = units.get(p[:-len(s)], '')
+                            if unit != '':
+                                break
 
                 # if still can't find units get it by the parameter itself
                 # (derived parameters)
@@ -309,7 +312,7 @@ class TexTable(RadvelReport):
         kw = {}
         nvels = len(self.post.likelihood.x)
 
-        if max_lines is None:
+        if max_lines is None or int(np.round(max_lines)) >= nvels:
             iters = range(nvels)
             kw['notes'] = ''
         else:
@@ -325,7 +328,7 @@ Use \texttt{radvel table -t rv} to save the full \LaTeX\ table as a separate fil
             e = self.post.likelihood.yerr[i]
             inst = self.post.likelihood.telvec[i]
             if '_' in inst:
-                inst = inst.replace('_', r'$_{\rm ')
+                inst = inst.replace('_', r'$_{\rm ', 1)
                 inst += '}$'
             row = "{:.5f} & {:.2f} & {:.2f} & {:s}".format(t, v, e, inst)
             rows.append(row)
@@ -351,7 +354,7 @@ Use \texttt{radvel table -t rv} to save the full \LaTeX\ table as a separate fil
         for o in order:
             op = []
             for p in self.post.likelihood.extra_params:
-                if o in p:
+                if p.startswith((o, 'log'+o)):
                     op.append(p)
             if len(op)==0:
                 op = [o]
@@ -419,7 +422,7 @@ Use \texttt{radvel table -t rv} to save the full \LaTeX\ table as a separate fil
 
         dpl = radvel.plot.mcmc_plots.DerivedPlot(self.report.chains, self.report.planet)
         derived_params = dpl.labels
-        derived_basis = ' '.join(set([s[:-1] for s in derived_params]))
+        derived_basis = ' '.join(dict.fromkeys(s.rstrip('0123456789') for s in derived_params))
         derived_tex = dpl.texlabels
         derived_units = dpl.units
 
-- 
2.43.0


From 3d8bfc890308a34df546b6a40bc2cb0f7fb18549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:41 +0000
Subject: [PATCH 28/37] fix: command line: --serial False, missing options
 refused, nested output directories, key=value options with extra spaces or
 '='; plots keep the user's epoch

---
 radvel/cli.py    | 29 +++++++++++++++++++----------
 radvel/driver.py |  6 +++---
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/radvel/cli.py b/radvel/cli.py
index e60ee55..fe0375d 100644
--- a/radvel/cli.py
+++ b/radvel/cli.py
@@ -2,12 +2,21 @@
 Command Line Interface
 """
 import os
-from argparse import ArgumentParser
+from argparse import ArgumentParser, ArgumentTypeError
 
 import radvel.driver
 from radvel.nested_sampling import BACKENDS
 
 
+def _boolean(arg):
+    """Interpret the value of a True/False option"""
+    if arg.lower() in ('true', 't', 'yes', 'y', '1'):
+        return True
+    if arg.lower() in ('false', 'f', 'no', 'n', '0'):
+        return False
+    raise ArgumentTypeError("expected True or False, got {!r}".format(arg))
+
+
 def main():
     psr = ArgumentParser(
         description="RadVel: The Radial Velocity Toolkit", prog='RadVel'
@@ -18,7 +27,7 @@ def main():
                      help="Print version number and exit."
                      )
 
-    subpsr = psr.add_subparsers(title="subcommands", dest='subcommand')
+    subpsr = psr.add_subparsers(title="subcommands", dest='subcommand', required=True)
 
     # In the parent parser, we define arguments and options common to
     # all subcommands.
@@ -29,7 +38,7 @@ def main():
         configuration file (without .py)"
     )
     psr_parent.add_argument('-s', '--setup',
-                            dest='setupfn', type=str,
+                            dest='setupfn', type=str, required=True,
                             help="Setup file."
                             )
     psr_parent.add_argument('--decorr',
@@ -49,7 +58,7 @@ def main():
     psr_plot = subpsr.add_parser('plot', parents=[psr_parent],)
     psr_plot.add_argument('-t', '--type',
                           type=str, nargs='+',
-                          choices=['rv', 'auto', 'corner', 'trend', 'derived'],
+                          choices=['rv', 'auto', 'corner', 'trend', 'derived'], required=True,
                           help="type of plot(s) to generate"
                           )
     psr_plot.add_argument('--plotkw', dest='plotkw', action='store', default="{}", type=eval,
@@ -83,10 +92,10 @@ E.g. --plotkw "{'yscale_auto': True}"' ''')
                           help="Number of ensembles. Will be run in parallel on separate CPUs [8]"
                           )
     psr_mcmc.add_argument('--minAfactor', dest='minAfactor', action='store', default=40, type=float,
-                          help="Minimum factor between autocorrelation time and number of samples for chains to be deemed well-mixed [50]"
+                          help="Minimum factor between autocorrelation time and number of samples for chains to be deemed well-mixed [40]"
                           )
     psr_mcmc.add_argument('--maxArchange', dest='maxArchange', action='store', default=.03, type=float,
-                          help="Max relative-change in autocorrelation time for chains to be deemed well-mixed [.07]"
+                          help="Max relative-change in autocorrelation time for chains to be deemed well-mixed [.03]"
                           )
     psr_mcmc.add_argument('--maxGR', dest='maxGR', action='store', default=1.01, type=float,
                           help="Maximum G-R statistic for chains to be deemed well-mixed and halt the MCMC run [1.01]"
@@ -111,7 +120,7 @@ Convergence checks will start after the minsteps threshold or the minpercent thr
     psr_mcmc.add_argument('--thin', dest='thin', action='store', default=10, type=int,
                           help="Save one sample every N steps [default=10, save every 10th sample]"
                           )
-    psr_mcmc.add_argument('--serial', dest='serial', action='store', default=False, type=bool,
+    psr_mcmc.add_argument('--serial', dest='serial', action='store', default=False, type=_boolean,
                           help='''If True, run MCMC in serial instead of parallel. [False]'''
                           )
     psr_mcmc.add_argument('--save', dest='save', action='store_true',
@@ -169,7 +178,7 @@ Convergence checks will start after the minsteps threshold or the minpercent thr
 
     # Information Criteria comparison (BIC/AIC)
     psr_ic = subpsr.add_parser('ic', parents=[psr_parent],)
-    psr_ic.add_argument('-t', '--type', type=str, nargs='+', default='trend',
+    psr_ic.add_argument('-t', '--type', type=str, nargs='+', default=['trend'],
                         choices=['nplanets', 'e', 'trend', 'jit', 'gp'],
                         help="parameters to include in BIC/AIC model comparison"
                         )
@@ -199,7 +208,7 @@ Convergence checks will start after the minsteps threshold or the minpercent thr
     # Tables
     psr_table = subpsr.add_parser('table', parents=[psr_parent],)
     psr_table.add_argument('-t', '--type', type=str, nargs='+',
-                           choices=['params', 'priors', 'rv', 'ic_compare', 'derived', 'crit'],
+                           choices=['params', 'priors', 'rv', 'ic_compare', 'derived', 'crit'], required=True,
                            help="type of tables(s) to generate"
                            )
     psr_table.add_argument('--header', action='store_true',
@@ -237,7 +246,7 @@ descriptive titles without star name [False]'''
         args.outputdir = outdir
 
     if not os.path.isdir(args.outputdir):
-        os.mkdir(args.outputdir)
+        os.makedirs(args.outputdir)
 
     args.func(args)
 
diff --git a/radvel/driver.py b/radvel/driver.py
index ea2d266..6c55328 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -66,7 +66,7 @@ def plots(args):
                 args.plotkw.pop('saveplot')
             P, _ = radvel.utils.initialize_posterior(config_file)
             if hasattr(P, 'bjd0'):
-                args.plotkw['epoch'] = P.bjd0
+                args.plotkw.setdefault('epoch', P.bjd0)
 
             if args.gp or isinstance(post.likelihood, GPLikelihood):
                 GPPlot = orbit_plots.GPMultipanelPlot(
@@ -335,9 +335,9 @@ def _process_kwargs_str(kwargs_str):
         return {}
 
     kwargs_dict = {}
-    pairs_str = kwargs_str.split(" ")
+    pairs_str = kwargs_str.split()
     for pair in pairs_str:
-        key, value = pair.split("=")
+        key, value = pair.split("=", 1)
         kwargs_dict[key] = _cast_str_arg(value)
     return kwargs_dict
 
-- 
2.43.0


From 36b418aa1d62da2ca2079025fbab5fd3a18d658a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:41 +0000
Subject: [PATCH 29/37] fix: orbit plots: repeated plots add nothing to the
 model, instruments keep their colours, axis limits, missing trend parameters,
 figure returned by GP plots

---
 radvel/plot/__init__.py    | 39 ++++++++++------
 radvel/plot/orbit_plots.py | 91 +++++++++++++++++++-------------------
 2 files changed, 72 insertions(+), 58 deletions(-)

diff --git a/radvel/plot/__init__.py b/radvel/plot/__init__.py
index c24e887..f634800 100644
--- a/radvel/plot/__init__.py
+++ b/radvel/plot/__init__.py
@@ -85,6 +85,30 @@ def telplot(x, y, e, tel, ax, lw=1., telfmt={}, rms=0):
     pl.errorbar(x, y, yerr=e, **kw)
 
 
+def get_telfmts(tel, telfmts={}):
+    """
+    Choose the formats of several telescopes. Telescopes without a color
+    of their own take the next one of `default_colors`.
+
+    tel (array): array of telescope string keys
+    telfmts (dict): dictionary of dictionaries, see `mtelplot`
+
+    Returns:
+        dict: dictionary of dictionaries corresponding to kwargs
+            passed to errorbar
+    """
+
+    formats = {}
+    ci = 0
+    for t in np.unique(tel):
+        formats[t] = dict(telfmts.get(t, telfmts_default.get(t, {})))
+        if 'color' not in formats[t]:
+            formats[t]['color'] = default_colors[ci % len(default_colors)]
+            ci += 1
+
+    return formats
+
+
 def mtelplot(x, y, e, tel, ax, lw=1., telfmts={}, **kwargs):
     """
     Overplot data from from multiple telescopes.
@@ -107,24 +131,13 @@ def mtelplot(x, y, e, tel, ax, lw=1., telfmts={}, **kwargs):
 
     utel = np.unique(tel)
 
-    ci = 0
+    formats = get_telfmts(utel, telfmts)
     for t in utel:
         xt = x[tel == t]
         yt = y[tel == t]
         et = e[tel == t]
 
-        telfmt = {}
-
-        if t in telfmts:
-            telfmt = telfmts[t]
-            if 'color' not in telfmt:
-                telfmt['color'] = default_colors[ci]
-                ci +=1
-        elif t not in telfmts and t not in telfmts_default:
-            telfmt = dict(color=default_colors[ci])
-            ci +=1 
-        else:
-            telfmt = {}
+        telfmt = formats[t]
 
         if rms_values:
             rms = rms_values[t]
diff --git a/radvel/plot/orbit_plots.py b/radvel/plot/orbit_plots.py
index a5ce002..0135f8a 100644
--- a/radvel/plot/orbit_plots.py
+++ b/radvel/plot/orbit_plots.py
@@ -120,9 +120,14 @@ class MultipanelPlot(object):
 
         self.rawresid = self.post.likelihood.residuals()
 
+        # the trend parameters are optional
+        dvdt, curv = [
+            self.post.params[k].value if k in self.post.params else 0.0 for k in ('dvdt', 'curv')
+        ]
+
         self.resid = (
-            self.rawresid + self.post.params['dvdt'].value*(self.rvtimes-self.model.time_base)
-            + self.post.params['curv'].value*(self.rvtimes-self.model.time_base)**2
+            self.rawresid + dvdt*(self.rvtimes-self.model.time_base)
+            + curv*(self.rvtimes-self.model.time_base)**2
         )
 
         if self.saveplot is not None:
@@ -138,10 +143,19 @@ class MultipanelPlot(object):
         else:
             longp = max(self.post.likelihood.x) - min(self.post.likelihood.x)
 
+        # time at the origin of the time axes
+        if ((self.rvtimes - self.epoch) < -2.4e6).any():
+            # the epoch is already subtracted from the data
+            self.tzero = 0
+        else:
+            if self.epoch == 0:
+                self.epoch = 2450000
+            self.tzero = self.epoch
+
         if self.set_xlim is not None:
             self.dt = self.set_xlim[1] - self.set_xlim[0]
             self.rvmodt = np.linspace(
-                (self.set_xlim[0]+self.epoch) - 0.05 * self.dt, (self.set_xlim[1]+self.epoch) + 0.05 * self.dt + longp,
+                (self.set_xlim[0]+self.tzero) - 0.05 * self.dt, (self.set_xlim[1]+self.tzero) + 0.05 * self.dt + longp,
                 int(resolution)
             )
         else:
@@ -154,24 +168,16 @@ class MultipanelPlot(object):
         self.orbit_model = self.model(self.rvmodt)
         self.rvmod = self.model(self.rvtimes)
 
-        if ((self.rvtimes - self.epoch) < -2.4e6).any():
-            self.plttimes = self.rvtimes
-            self.mplttimes = self.rvmodt
-        elif self.epoch == 0:
-            self.epoch = 2450000
-            self.plttimes = self.rvtimes - self.epoch
-            self.mplttimes = self.rvmodt - self.epoch
-        else:
-            self.plttimes = self.rvtimes - self.epoch
-            self.mplttimes = self.rvmodt - self.epoch
+        self.plttimes = self.rvtimes - self.tzero
+        self.mplttimes = self.rvmodt - self.tzero
 
         self.slope = (
-            self.post.params['dvdt'].value * (self.rvmodt-self.model.time_base)
-            + self.post.params['curv'].value * (self.rvmodt-self.model.time_base)**2
+            dvdt * (self.rvmodt-self.model.time_base)
+            + curv * (self.rvmodt-self.model.time_base)**2
         )
         self.slope_low = (
-            self.post.params['dvdt'].value * (self.rvtimes-self.model.time_base)
-            + self.post.params['curv'].value * (self.rvtimes-self.model.time_base)**2
+            dvdt * (self.rvtimes-self.model.time_base)
+            + curv * (self.rvtimes-self.model.time_base)**2
         )
 
         # list for Axes objects
@@ -372,6 +378,7 @@ class MultipanelPlot(object):
             if has_status:
                 chains = pd.read_csv(self.status['derive']['chainfile'])
                 self.post.nplanets = self.num_planets
+                self.post.planet_letters = self.post.params.planet_letters
                 dp = mcmc_plots.DerivedPlot(chains, self.post)
                 labels = dp.labels
                 texlabels = dp.texlabels
@@ -463,6 +470,10 @@ class MultipanelPlot(object):
         gs_rv.update(left=0.12, right=0.93, top=0.93,
                      bottom=divide+self.rv_phase_space*0.5, hspace=0.)
 
+        # panels of this figure
+        self.ax_list = []
+        pltletter = ord('a')
+
         # orbit plot
         ax_rv = pl.subplot(gs_rv[0, 0])
         self.ax_list += [ax_rv]
@@ -470,7 +481,6 @@ class MultipanelPlot(object):
         pl.sca(ax_rv)
         self.plot_timeseries()
         if letter_labels:
-            pltletter = ord('a')
             plot.labelfig(pltletter)
             pltletter += 1
 
@@ -582,12 +592,9 @@ class GPMultipanelPlot(MultipanelPlot):
             like (radvel.GPLikelihood): radvel.GPLikelihood object. The model
                 plotted will be generated from `like.params`.
             orbit_model4data (numpy array): 
-            ci (int): index to use when choosing a color to plot from 
-                radvel.plot.default_colors. This is only used if the
-                Likelihood object being plotted is not in the list of defaults.
-                Increments by 1 if it is used.
+            ci (int): not used (the color is the one of the data of `like`)
 
-        Returns: current (possibly changed) value of the input `ci`
+        Returns: value of the input `ci`
 
         """
         ax = pl.gca()
@@ -595,7 +602,7 @@ class GPMultipanelPlot(MultipanelPlot):
         if isinstance(like, radvel.likelihood.GPLikelihood):
 
             if self.set_xlim is not None:
-                xpred = np.linspace(self.set_xlim[0]+self.epoch, self.set_xlim[1]+self.epoch, num=int(3e3))
+                xpred = np.linspace(self.set_xlim[0]+self.tzero, self.set_xlim[1]+self.tzero, num=int(3e3))
             else:
                 xpred = np.linspace(np.min(like.x), np.max(like.x), num=int(3e3))
 
@@ -605,28 +612,18 @@ class GPMultipanelPlot(MultipanelPlot):
             else:
                 gp_orbit_model = self.model(xpred)
 
-            if ((xpred - self.epoch) < -2.4e6).any():
-                pass
-            elif self.epoch == 0:
-                self.epoch = 2450000
-                xpred = xpred - self.epoch
-            else:
-                xpred = xpred - self.epoch
+            xpred = xpred - self.tzero
 
             if self.subtract_gp_mean_model:
-                gpmu = 0.
+                gpmu = np.zeros(xpred.shape)
             else:
                 gp_mean4data, _ = like.predict(like.x)
                 indx = np.where(self.post.likelihood.telvec == like.suffix)
                 orbit_model4data[indx] += gp_mean4data
 
-            if like.suffix not in self.telfmts and like.suffix in plot.telfmts_default:
-                color = plot.telfmts_default[like.suffix]['color']
-            if like.suffix in self.telfmts:
-                color = self.telfmts[like.suffix]['color']
-            if like.suffix not in self.telfmts and like.suffix not in plot.telfmts_default:
-                color = plot.default_colors[ci]
-                ci += 1
+            # same color as the data of this likelihood
+            telvec = self.post.likelihood.telvec
+            color = plot.get_telfmts(telvec, self.telfmts)[like.suffix]['color']
 
             ax.fill_between(xpred, gpmu+gp_orbit_model-stddev, gpmu+gp_orbit_model+stddev, 
                             color=color, alpha=0.5, lw=0
@@ -642,7 +639,7 @@ class GPMultipanelPlot(MultipanelPlot):
             ax.plot(self.mplttimes, self.orbit_model, 'b-', rasterized=False, lw=0.1)
 
         if not self.yscale_auto: 
-            scale = np.std(self.rawresid+self.rvmod)
+            scale = np.std(self.rawresid+orbit_model4data)
             ax.set_ylim(-self.yscale_sigma * scale, self.yscale_sigma * scale)
 
         ax.set_ylabel('RV [{ms:}]'.format(**plot.latex), weight='bold')
@@ -664,7 +661,7 @@ class GPMultipanelPlot(MultipanelPlot):
         if self.subtract_orbit_model:
             orbit_model4data = np.zeros(self.rvmod.shape)
         else:
-            orbit_model4data = self.rvmod
+            orbit_model4data = self.rvmod.copy()
 
         ci = 0
         for like in self.like_list:
@@ -712,7 +709,7 @@ class GPMultipanelPlot(MultipanelPlot):
         """
 
         if not self.plot_likelihoods_separately:
-            super(GPMultipanelPlot, self).plot_multipanel()
+            return super(GPMultipanelPlot, self).plot_multipanel(nophase=nophase)
         else:
 
             if nophase:
@@ -737,6 +734,7 @@ class GPMultipanelPlot(MultipanelPlot):
                          bottom=divide+self.rv_phase_space*0.5, hspace=0.0)
 
             # orbit plot for each likelihood
+            self.ax_list = []
             pltletter = ord('a')
 
             i = 0
@@ -753,7 +751,7 @@ class GPMultipanelPlot(MultipanelPlot):
                 if self.subtract_orbit_model:
                     orbit_model4data = np.zeros(self.rvmod.shape)
                 else:
-                    orbit_model4data = self.rvmod
+                    orbit_model4data = self.rvmod.copy()
 
                 self.plot_gp_like(like, orbit_model4data, ci)
 
@@ -764,7 +762,10 @@ class GPMultipanelPlot(MultipanelPlot):
                     self.post.likelihood.telvec, ax, telfmts=self.telfmts
                 )
 
-                ax.set_xlim(min(self.plttimes)-0.01*self.dt, max(self.plttimes)+0.01*self.dt)    
+                if self.set_xlim is not None:
+                    ax.set_xlim(self.set_xlim)
+                else:
+                    ax.set_xlim(min(self.plttimes)-0.01*self.dt, max(self.plttimes)+0.01*self.dt)
                 pl.setp(ax.get_xticklabels(), visible=False)
 
                 # legend
@@ -795,7 +796,7 @@ class GPMultipanelPlot(MultipanelPlot):
 
             # phase-folded plots
             if not nophase:
-                gs_phase = gridspec.GridSpec(self.phase_nrows, self.phase_ncols)
+                gs_phase = gridspec.GridSpec(max([1,self.phase_nrows]), max([1,self.phase_ncols]))
 
                 if self.phase_ncols == 1:
                     gs_phase.update(left=0.12, right=0.93,
-- 
2.43.0


From e3b02d24b5f28b6360809f6724a4f17e97cdffd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:39 +0000
Subject: [PATCH 30/37] fix: predict velocities at whole-day (integer) times
 with the compiled solver too

---
 radvel/kepler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/kepler.py b/radvel/kepler.py
index b7367f5..436048e 100644
--- a/radvel/kepler.py
+++ b/radvel/kepler.py
@@ -50,7 +50,7 @@ def rv_drive(t, orbel, use_c_kepler_solver=cext):
     if use_c_kepler_solver and _check_cext():
         try:
             from . import _kepler
-            rv = _kepler.rv_drive_array(t, per, tp, e, om, k)
+            rv = _kepler.rv_drive_array(np.asarray(t, dtype=float), per, tp, e, om, k)
         except (ImportError, NameError):
             # Fall back to pure NumPy implementation when C extension is unavailable
             nu = radvel.orbit.true_anomaly(t, tp, per, e)
-- 
2.43.0


From 78425f48d3d2c83377c2da8b7eb5a4a4a227320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:06 +0000
Subject: [PATCH 31/37] fix: labels of planets with numbers of two digits

---
 radvel/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/radvel/model.py b/radvel/model.py
index e34c210..f6be102 100644
--- a/radvel/model.py
+++ b/radvel/model.py
@@ -1,3 +1,5 @@
+import re
+
 import numpy as np
 from collections import OrderedDict
 
@@ -144,10 +146,11 @@ should have only integers as keys."""
 
         tex_labels = {}
         for k in param_list:
-            n = k[-1]
             p = k[:-1]
-            if n.isdigit() and (not 'gamma' in p and not 'jit' in p and not p.startswith('gp_')):
-                tex_labels[k] = self._planet_texlabel(p, n)
+            # planet parameters are letters followed by the number of the planet
+            planet = re.match(r'([a-zA-Z]+)([0-9]+)$', k)
+            if planet and (not 'gamma' in p and not 'jit' in p):
+                tex_labels[k] = self._planet_texlabel(*planet.groups())
             elif k in texdict.keys():
                 tex_labels[k] = "$%s$" % texdict[k]
             elif p not in self.planet_parameters:
-- 
2.43.0


From 4f0fc3e7c6d7dd30e66923d87fc2cbd65287a575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:05 +0000
Subject: [PATCH 32/37] fix: value and uncertainty of a printed parameter run
 together

---
 radvel/likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index a9211bf..8255bc7 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -111,7 +111,7 @@ class Likelihood(object):
                     else:
                         par = self.params[key].value
 
-                    s += "{:20s}{:15g}{:10g}{:>10s}\n".format(
+                    s += "{:20s}{:15g} {:9g} {:>9s}\n".format(
                         key, par, err, vstr
                         )
                 except TypeError:
@@ -132,7 +132,7 @@ class Likelihood(object):
                             else:
                                 par = synthbasis[key].value
 
-                            s += "{:20s}{:15g}{:10g}{:>10s}\n".format(
+                            s += "{:20s}{:15g} {:9g} {:>9s}\n".format(
                                 key, par, err, vstr
                             )
                         except TypeError:
-- 
2.43.0


From 4d75eb488b9ea0b41ba6873cb6aa88a10d97bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:32 +0000
Subject: [PATCH 33/37] fix: uncertainties of combined likelihoods are merged,
 not dropped

---
 radvel/likelihood.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radvel/likelihood.py b/radvel/likelihood.py
index 8255bc7..4270bc1 100644
--- a/radvel/likelihood.py
+++ b/radvel/likelihood.py
@@ -250,10 +250,10 @@ class CompositeLikelihood(Likelihood):
             self.suffixes = np.append(self.suffixes, like.suffix)
             if hasattr(like, 'hnames'):
                 self.hnames.extend(h for h in like.hnames if h not in self.hnames)
-            try:
-                self.uparams = self.uparams.update(like.uparams)
-            except AttributeError:
+            if self.uparams is None or like.uparams is None:
                 self.uparams = None
+            else:
+                self.uparams = {**self.uparams, **like.uparams}
 
             for k in like.params:
                 if k in params:
-- 
2.43.0


From 4a17f89f2e6cee5d08d46dc8e2c78bf912bdd273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:02 +0000
Subject: [PATCH 34/37] fix: interrupting a headless MCMC run raised a curses
 error

---
 radvel/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/mcmc.py b/radvel/mcmc.py
index 4579df2..c574a36 100644
--- a/radvel/mcmc.py
+++ b/radvel/mcmc.py
@@ -484,7 +484,7 @@ def mcmc(post, nwalkers=50, nrun=10000, ensembles=8, checkinterval=50, minAfacto
         return df
 
     except KeyboardInterrupt:
-        curses.endwin()
+        _closescr()
 
 
 def convergence_calculate(chains, oldautocorrelation, minAfactor, maxArchange, minTz, maxGR):
-- 
2.43.0


From e3e830d2920b565291104f79a73739ece5b69862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:03 +0000
Subject: [PATCH 35/37] fix: separate model comparisons dropped models whose
 labels coincide

---
 radvel/driver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radvel/driver.py b/radvel/driver.py
index 6c55328..06e7e07 100644
--- a/radvel/driver.py
+++ b/radvel/driver.py
@@ -13,7 +13,6 @@ from radvel.mcmc import statevars
 import os
 import sys
 import copy
-import collections
 from collections import OrderedDict
 
 import pandas as pd
@@ -436,7 +435,7 @@ def ic_compare(args):
             ipost.vector.dict_to_vector()
             ipost.list_vary_params()
 
-        for compareparam in compareparams:
+        for compareparam in dict.fromkeys(compareparams):
             assert compareparam in choices, \
                 "Valid parameter choices for 'ic -t' are combinations of: "\
                 + " ".join(choices)
@@ -444,12 +443,13 @@ def ic_compare(args):
             if hasattr(args, 'mixed') and not args.mixed:
                 statsdictlist += radvel.fitting.model_comp(ipost, params=[compareparam], verbose=args.verbose)
         if hasattr(args, 'mixed') and not args.mixed:
+            # the model with all parameters free belongs to every comparison, list it once
+            nfree = len(ipost.get_vary_params())
             new_statsdictlist = []
             for dicti in statsdictlist:
                 anymatch = False
                 for seendict in new_statsdictlist:
-                    if collections.Counter(dicti['Free Params'][0]) == \
-                            collections.Counter(seendict['Free Params'][0]):
+                    if dicti[r'$N_{\rm free}$'][0] == seendict[r'$N_{\rm free}$'][0] == nfree:
                         anymatch = True
                         continue
                 if not anymatch:
-- 
2.43.0


From 0ad2a58ee50635f465225ded9ba908fd0fe1d3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:27 +0000
Subject: [PATCH 36/37] fix: printing the eccentricity prior of a tenth planet
 raised KeyError

---
 radvel/prior.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/radvel/prior.py b/radvel/prior.py
index e4eb5fa..51a6752 100644
--- a/radvel/prior.py
+++ b/radvel/prior.py
@@ -94,7 +94,8 @@ class EccentricityPrior(Prior):
         return msg[:-1]
 
     def __str__(self):
-        tex = model.Parameters(9, basis='per tc e w k').tex_labels()
+        labels = ["e{}".format(num_planet) for num_planet in self.planet_list]
+        tex = model.Parameters(9, basis='per tc e w k').tex_labels(param_list=labels)
 
         msg = ""
         for i, num_planet in enumerate(self.planet_list):
-- 
2.43.0


From 6c49d5a03872be67b494e9f5a1a2d473e1a33d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:27 +0000
Subject: [PATCH 37/37] fix: derived-parameter plot failed for more than ten
 planets

---
 radvel/plot/mcmc_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radvel/plot/mcmc_plots.py b/radvel/plot/mcmc_plots.py
index 643549b..5902d50 100644
--- a/radvel/plot/mcmc_plots.py
+++ b/radvel/plot/mcmc_plots.py
@@ -184,7 +184,7 @@ class DerivedPlot(object):
 
         planet_letters = getattr(P, 'planet_letters', None)
         if planet_letters is None:
-            planet_letters = {1: 'b', 2: 'c', 3: 'd', 4: 'e', 5: 'f', 6: 'g', 7: 'h', 8: 'i', 9: 'j', 10: 'k'}
+            planet_letters = {i: chr(i + 97) for i in range(1, P.nplanets + 1)}
 
         # Determine which columns to include in corner plot
         self.labels = []
-- 
2.43.0

