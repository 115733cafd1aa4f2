From 0cdf689ece583dacb59d498ad8a6445aabab6313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:21 +0000
Subject: [PATCH 01/44] fix: accept a full covariance matrix as sig_d

scipy.sparse.linalg.inv refuses dense arrays, so the documented covariance
matrix form of sig_d always raised TypeError.
---
 pxmcmc/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index 3f3bbd3..16be580 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -75,7 +75,7 @@ class ForwardOperator:
         if isinstance(sig_d, np.ndarray) and len(sig_d.shape) == 2:
             if sig_d.shape[0] != sig_d.shape[1]:
                 raise ValueError("Covariance matrix should be square")
-            return sparse.linalg.inv(sig_d)
+            return sparse.csr_matrix(np.linalg.inv(sig_d))
 
         var = sig_d ** 2
         if np.iscomplexobj(self.data) and not np.iscomplexobj(var):
-- 
2.43.0


From 7a57edcdcb619fade6accbf1b06e49926e2d2722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:21 +0000
Subject: [PATCH 02/44] fix: keep the data covariance real for complex data

A complex variance makes the misfit complex and rotates the gradient of the
data fidelity by 45 degrees, so it is not the gradient of anything.
---
 pxmcmc/forward.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index 16be580..c836116 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -78,8 +78,6 @@ class ForwardOperator:
             return sparse.csr_matrix(np.linalg.inv(sig_d))
 
         var = sig_d ** 2
-        if np.iscomplexobj(self.data) and not np.iscomplexobj(var):
-            var = var / np.sqrt(2) * (1 + 1j)
         if isinstance(var, float) or isinstance(var, int) or isinstance(var, complex):
             return sparse.identity(len(self.data)).dot(1 / var)
         elif var.size == len(self.data) and len(var.shape) == 1:
-- 
2.43.0


From 0107e0c3dfa8346ad9b5321791e9e9a38dbff22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:21 +0000
Subject: [PATCH 03/44] fix: Gaussian log-likelihood is minus half the
 chi-squared misfit

calc_gradg is the gradient of L2 / 2, so logpi described a different posterior
from the one the gradient moves follow.
---
 pxmcmc/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 45cf316..5632620 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -76,9 +76,9 @@ class PxMCMC:
         :param preds: vector of data predictions from model X
         """
         diff = self.forward.data - preds
-        L2 = np.vdot(diff, self.forward.invcov @ diff)
+        L2 = np.vdot(diff, self.forward.invcov @ diff).real
         prior = self.prior.prior(X)
-        logPi = -self.mu * prior - L2
+        logPi = -self.mu * prior - L2 / 2
         return logPi, L2, prior
 
     def _gradlogpi(self, X, preds=None):
-- 
2.43.0


From 1cf9636dc7353211e9fdfe12836f39a4317ae8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:21 +0000
Subject: [PATCH 04/44] fix: PxMALA transition density matches the proposal

The proposal is N(X1 + delta * gradlogpi, 2 * delta); the density used in the
acceptance ratio had another mean, another variance and a squared norm, so the
chain did not satisfy detailed balance.
---
 pxmcmc/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 5632620..0dbcf21 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -284,8 +284,8 @@ class PxMALA(MYULA):
         """
         gradlogpiX1 = -((X1 - proxf) / self.lmda) - gradg
         return (
-            -(1 / 2 * self.delta)
-            * np.sum((X2 - X1 - (self.delta / 2) * gradlogpiX1) ** 2) ** 2
+            -np.sum(np.abs(X2 - X1 - self.delta * gradlogpiX1) ** 2)
+            / (4 * self.delta)
         )
 
 
-- 
2.43.0


From 1f4a4af5d10b7f085477ac808adfca1b47c9fd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:21 +0000
Subject: [PATCH 05/44] fix: PxMALA keeps the current state when a proposal is
 rejected

Dropping rejected iterations biases the chain, breaks the thinning schedule and
never terminates if nothing is accepted.
---
 pxmcmc/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 0dbcf21..7ae307b 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -260,7 +260,7 @@ class PxMALA(MYULA):
                 self.deltas_trace.append(self.delta)
 
             if i >= self.nburn:
-                if (self.ngap == 0 or (i - self.nburn) % self.ngap == 0) and accept:
+                if self.ngap == 0 or (i - self.nburn) % self.ngap == 0:
                     self._tracking(j, X_curr, curr_preds, logpiXc, L2Xc, priorXc)
                     j += 1
             if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-- 
2.43.0


From c13d5a3ca56fe59722d878654d9b98f143a490d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:21 +0000
Subject: [PATCH 06/44] fix: SKROCK recursion for s > 1

Follow Pereyra et al. (2020): K_j = mu_j delta grad + nu_j K_{j-1} + k_j K_{j-2}
with ratios of Chebyshev polynomials at omega_0 and k_j = 1 - nu_j.
---
 pxmcmc/mcmc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 7ae307b..02902c2 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -363,8 +363,7 @@ class SKROCK(PxMCMC):
                 * self.delta
                 * self._gradlogpi(self._K_recursion(X, s - 1, Z))
                 + self.nus[s] * self._K_recursion(X, s - 1, Z)
-                + self.ks[s]
-                - self._K_recursion(X, s - 2, Z)
+                + self.ks[s] * self._K_recursion(X, s - 2, Z)
             )
 
     def _recursion_coefs(self):
@@ -377,7 +376,7 @@ class SKROCK(PxMCMC):
         self.ks[1] = self.s * self.omega_1 / self.omega_0
 
         for j in range(2, self.s + 1):
-            cheb_ratio = chebyshev1(self.omega_0, j - 1) / chebyshev1(self.omega_1, j)
+            cheb_ratio = chebyshev1(self.omega_0, j - 1) / chebyshev1(self.omega_0, j)
             self.mus[j] = 2 * self.omega_1 * cheb_ratio
             self.nus[j] = 2 * self.omega_0 * cheb_ratio
-            self.ks[j] = 1 - self.nus[0]
+            self.ks[j] = 1 - self.nus[j]
-- 
2.43.0


From 569610338f139584ec3a23a49c092cf5f925fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:21 +0000
Subject: [PATCH 07/44] fix: progress printing does not depend on what is
 tracked

MYULA and SKROCK raised AttributeError when verbosity was on and logposterior,
L2 or prior was not tracked, and SKROCK printed zeros while burning in.
---
 pxmcmc/mcmc.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 02902c2..db2cb32 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -169,12 +169,7 @@ class MYULA(PxMCMC):
                     self._tracking(j, X_curr, curr_preds, logPi, L2, prior)
                     j += 1
                 if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-                    self._print_progress(
-                        j - 1,
-                        self.logPi[j - 1],
-                        L2=self.L2s[j - 1],
-                        prior=self.priors[j - 1],
-                    )
+                    self._print_progress(j - 1, logPi, L2=L2, prior=prior)
             else:
                 if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
                     print("Burning in...")
@@ -324,13 +319,11 @@ class SKROCK(PxMCMC):
                     logPi, L2, prior = self.logpi(X_curr, curr_preds)
                     self._tracking(j, X_curr, curr_preds, logPi, L2, prior)
                     j += 1
-            if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-                self._print_progress(
-                    j - 1,
-                    self.logPi[j - 1],
-                    L2=self.L2s[j - 1],
-                    prior=self.priors[j - 1],
-                )
+                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
+                    self._print_progress(j - 1, logPi, L2=L2, prior=prior)
+            else:
+                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
+                    print("Burning in...")
             i += 1
 
         print("\nDONE")
-- 
2.43.0


From 93fbd3c9688085826bd2b1ea6c63a4e0b9499174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:21 +0000
Subject: [PATCH 08/44] fix: track complex predictions without dropping the
 imaginary part

---
 pxmcmc/mcmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index db2cb32..565b843 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -115,7 +115,8 @@ class PxMCMC:
             self.logPi = np.zeros(self.nsamples)
         if "predictions" in self.track:
             self.preds = np.zeros(
-                (self.nsamples, len(self.forward.data)), dtype=float
+                (self.nsamples, len(self.forward.data)),
+                dtype=complex if np.iscomplexobj(self.forward.data) else float,
             )
         if "chain" in self.track:
             self.chain = np.zeros(
-- 
2.43.0


From 403769bdeab836531e447207b2277eca0eaa833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:21 +0000
Subject: [PATCH 09/44] fix: chains of real parameters stay real with complex
 operators

The gradient with respect to real parameters is the real part.  Without it the
chain drifted into the complex plane while only its real part was saved, so the
saved samples did not have the saved log posterior.
---
 pxmcmc/mcmc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 565b843..b1ba3ac 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -85,8 +85,11 @@ class PxMCMC:
         gradf = (X - self.prior.proxf(X)) / self.lmda
         if preds is None:
             preds = self.forward.forward(X)
+        return -gradf - self._gradg(preds)
+
+    def _gradg(self, preds):
         gradg = self.forward.calc_gradg(preds)
-        return -gradf - gradg
+        return gradg if self.complex else np.real(gradg)
 
     def _print_progress(self, i, logpi, **kwargs):
         print(
@@ -156,7 +159,7 @@ class MYULA(PxMCMC):
         j = 0  # saved samples (excludes burn-in and thinned samples)
         X_curr, curr_preds = self._initial_sample(start_point)
         while j < self.nsamples:
-            gradg = self.forward.calc_gradg(curr_preds)
+            gradg = self._gradg(curr_preds)
             proxf = self.prior.proxf(X_curr)
             X_prop = self.chain_step(X_curr, proxf, gradg)
             prop_preds = self.forward.forward(X_prop)
@@ -220,13 +223,13 @@ class PxMALA(MYULA):
         i = 0
         j = 0
         X_curr, curr_preds = self._initial_sample(start_point)
-        gradg_curr = self.forward.calc_gradg(curr_preds)
+        gradg_curr = self._gradg(curr_preds)
         proxf_curr = self.prior.proxf(X_curr)
         logpiXc, L2Xc, priorXc = self.logpi(X_curr, curr_preds)
         while j < self.nsamples:
             X_prop = self.chain_step(X_curr, proxf_curr, gradg_curr)
             prop_preds = self.forward.forward(X_prop)
-            gradg_prop = self.forward.calc_gradg(prop_preds)
+            gradg_prop = self._gradg(prop_preds)
             proxf_prop = self.prior.proxf(X_prop)
 
             logtransXcXp = self.calc_logtransition(
-- 
2.43.0


From 1eb2ae7e8109eaed178b17dc43b88d02d19f62bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:21 +0000
Subject: [PATCH 10/44] fix: analysis L1 prior is the norm of the transformed
 sample

proxf thresholds adj(X), but prior returned the norm of X itself.
---
 pxmcmc/prior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 661011d..327c64d 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -32,6 +32,8 @@ class L1:
         :param X: MCMC sample
         :return: log prior
         """
+        if self.setting == "analysis":
+            X = self.adj(X)
         return sum(abs(X))
 
     def proxf(self, X):
-- 
2.43.0


From 1e07a4e5d9be50cc8c4811e59389f9823bb4ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 11/44] fix: apply the power weights once, to the prior and to
 its prox alike

The prior used the squared power weights and the threshold the product of the
quadrature and power weights, so proxf was not the prox of the prior.
---
 pxmcmc/prior.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 327c64d..151758c 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -107,10 +107,7 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
             self._get_weights()
         else:
             raise NotImplementedError
-        self.T *= self.map_weights
-
-    def prior(self, X):
-        return super().prior(self.map_weights * X)
+        self.T = T * self.map_weights
 
     def _get_weights(self):
         scaling_weights = self._calculate_scaling_weights()
-- 
2.43.0


From 01b62158ef14bc5e65a28566b14472375ff847e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 12/44] fix: do not overwrite the caller's threshold array with
 the weights

---
 pxmcmc/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 151758c..c10cff4 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -80,7 +80,7 @@ class S2_Wavelets_L1(L1):
             self.map_weights = np.concatenate([mw_map_weights(el) for el in bls])
         else:
             raise NotImplementedError
-        self.T *= self.map_weights
+        self.T = self.T * self.map_weights
 
     def prior(self, X):
         return super().prior(self.map_weights * X)
-- 
2.43.0


From ea8b43d8f8df6248a67a3aa38f44eaa73a0c8a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 13/44] fix: power weights are floats when all wavelet scales
 have one shape

---
 pxmcmc/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index c10cff4..fab04b4 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -145,4 +145,4 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
             thetas, _ = pyssht.sample_positions(effective_L)
             weights = (weights.T * np.sin(thetas)).T
             all_weights.append(weights)
-        return np.array(all_weights, dtype=list)
+        return all_weights
-- 
2.43.0


From 33bba83b9ffff5519bb351999e0fd9b9e8d04fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 14/44] fix: multiresolution bandlimits when a wavelet scale
 vanishes

For many L and B (L = B^k + 1, small B) or even dirs, a scale has no nonzero
coefficient at m = 0 and the bandlimits, hence the priors, raised ValueError.
---
 pxmcmc/utils.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index 5af11de..04b7e80 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -114,15 +114,11 @@ def alm2map(alm, nside, **kwargs):
 
 
 def _multires_bandlimits(L, B, J_min, dirs=1, spin=0):
-    phi_l, psi_lm = pys2let.wavelet_tiling(B, L, dirs, J_min, spin)
-    psi_l = np.zeros((psi_lm.shape[1], L), dtype=complex)
-    for j, psi in enumerate(psi_lm.T):
-        psi_l[j, :] = np.array([psi[el ** 2 + el] for el in range(L)])
-    gamma_l = np.vstack([phi_l, psi_l])
-    bandlimits = np.zeros(gamma_l.shape[0], dtype=int)
-    for j, gamma in enumerate(gamma_l):
-        bandlimits[j] = np.nonzero(gamma)[0].max() + 1
-    return bandlimits
+    # same as S2LET: the scaling function has support up to B^J_min and the
+    # wavelets of scale j up to B^(j+1), whether or not their coefficients vanish
+    J_max = pys2let.pys2let_j_max(B, L, J_min)
+    bandlimits = [np.ceil(B ** j) for j in range(J_min, J_max + 2)]
+    return np.minimum(bandlimits, L).astype(int)
 
 
 def chebyshev1(X, order):
-- 
2.43.0


From 4d83d6885ae6b04e0bbc1dc303fe029354a2ce1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 15/44] fix: count harmonic wavelet coefficients for harmonic
 transforms

The pixel-space counts split the coefficients in the wrong place, so the
harmonic inverse and forward adjoint were wrong.
---
 pxmcmc/transforms.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pxmcmc/transforms.py b/pxmcmc/transforms.py
index ec288b3..a2b12af 100644
--- a/pxmcmc/transforms.py
+++ b/pxmcmc/transforms.py
@@ -76,6 +76,7 @@ class SphericalWaveletTransform(Transform):
         self.nscales = self.J_max - self.J_min + 1
         self.dirs = dirs
         self.spin = spin
+        self.harmonic = harmonic
 
         self.params = {
             "B": B,
@@ -157,10 +158,8 @@ class SphericalWaveletTransform(Transform):
         """
         Counts the number of wavelet and scaling coefs for
         the multiresolution algorithm
-
-        TODO: CHECK THIS FOR HARMONIC
         """
-        f_mw = np.empty(pyssht.sample_length(self.L), dtype=complex)
-        f_wav, f_scal = pys2let.analysis_px2wav(f_mw, **self.params)
+        n = self.L ** 2 if self.harmonic else pyssht.sample_length(self.L)
+        f_wav, f_scal = self.fwd(np.zeros(n, dtype=complex), **self.params)
         self.nwav, self.nscal = (f_wav.shape[0], f_scal.shape[0])
         self.ncoefs = self.nwav + self.nscal
-- 
2.43.0


From eb09f4864e3f458a935954bb37b7b283e4efc8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 16/44] fix: weak lensing masks reject NaN signals as
 documented

"f is not f" is never true.
---
 pxmcmc/measurements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/measurements.py b/pxmcmc/measurements.py
index 207b88f..0bd32b0 100644
--- a/pxmcmc/measurements.py
+++ b/pxmcmc/measurements.py
@@ -252,7 +252,7 @@ class WeakLensing(WeakLensingHarmonic):
                 ValueError: Raised if signal is of incorrect shape.
 
         """
-        if f is not f:
+        if np.isnan(f).any():
             raise ValueError("Signal is NaN.")
 
         if f.shape != self.shape:
@@ -272,7 +272,7 @@ class WeakLensing(WeakLensingHarmonic):
                 ValueError: Raised if signal is nan
 
         """
-        if x is not x:
+        if np.isnan(x).any():
             raise ValueError("Signal is NaN.")
 
         f = np.zeros(self.shape, dtype=complex)
-- 
2.43.0


From c0792e8d14c19c52f48fd209b9f12eed41d33de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 17/44] fix: credible region holds the highest posterior
 samples

Thresholds are on the log posterior, so the region of the 1 - alpha most
probable samples lies above the alpha quantile; the MAP sample was left out.
---
 pxmcmc/uncertainty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/uncertainty.py b/pxmcmc/uncertainty.py
index 36297d5..6e08ff6 100644
--- a/pxmcmc/uncertainty.py
+++ b/pxmcmc/uncertainty.py
@@ -48,9 +48,9 @@ def credible_region_threshold(logpis, alpha=0.05):
     :param float `alpha`: confidence level
     :return: log posterior threshold
     """
-    return np.quantile(logpis, 1 - alpha)
+    return np.quantile(logpis, alpha)
 
 
 def in_credible_region(logpi, threshold):
     """:meta private:"""
-    return True if logpi <= threshold else False
+    return True if logpi >= threshold else False
-- 
2.43.0


From f7215c5cd83270eafe17c67af951cc6e61f5305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 18/44] fix: plot_map works without matplotlib.cm.get_cmap,
 removed in 3.9

---
 pxmcmc/plotting.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index de70c24..d587e45 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -1,7 +1,6 @@
 import numpy as np
 import healpy as hp
 import matplotlib.pyplot as plt
-from matplotlib import cm
 import copy
 import pyssht
 import pys2let
@@ -44,7 +43,7 @@ def plot_map(
 
     :return: matplotlib figure
     """
-    cmap = copy.copy(cm.get_cmap(cmap))
+    cmap = copy.copy(plt.get_cmap(cmap))
     cmap.set_bad(alpha=0)
 
     if oversample:
-- 
2.43.0


From 7c58ef2e42f73445ef68506b91b559b99deecb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 19/44] fix: plot_map does not write the mask into the caller's
 map

---
 pxmcmc/plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index d587e45..906ee80 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -58,6 +58,7 @@ def plot_map(
         vmin = -cbar_end
 
     if mask is not None:
+        f = np.copy(f)
         f[mask] = np.nan
     f_plt, _ = pyssht.mollweide_projection(f, L)
     fig = plt.figure(figsize=(20, 10))
-- 
2.43.0


From 7ae8eb55ab66f50d1fe14676c705f44dd3a4655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 20/44] fix: plot_evolution with repeated maximum posterior
 samples

---
 pxmcmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 906ee80..3f63b9f 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -147,7 +147,7 @@ def plot_evolution(logposteriors, L2s, L1s, figsize=(10, 8)):
 
     :return: matplotlib figure
     """
-    MAP_idx = np.where(logposteriors == max(logposteriors))
+    MAP_idx = np.argmax(logposteriors)
     fig = plt.figure(figsize=figsize)
     plt.subplot(3, 1, 1)
     plt.plot(-logposteriors)
-- 
2.43.0


From 0e3a0b7347b8f353c93af514c20b3d567ae53e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:56 +0000
Subject: [PATCH 21/44] fix: plot_wavelet_maps without oversampling

mollweide_projection returns two projections for a complex map; the maps of a
real signal are real.
---
 pxmcmc/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 3f63b9f..120c69e 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -109,7 +109,7 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
     else:
         base_title = ""
     map_args["title"] = f"{base_title} Scaling function"
-    figs.append(plot_map(f_scal.reshape(pyssht.sample_shape(bls[0])), **map_args))
+    figs.append(plot_map(f_scal.real.copy().reshape(pyssht.sample_shape(bls[0])), **map_args))
 
     if same_scale:
         map_args["vmax"] = np.max(f_wav).real
@@ -119,7 +119,7 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
         scale_length = pyssht.sample_length(bl)
         wav = f_wav[scale_start : scale_start + scale_length]
         map_args["title"] = f"{base_title} Wavelet scale {i}"
-        figs.append(plot_map(wav.reshape(pyssht.sample_shape(bl)), **map_args))
+        figs.append(plot_map(wav.real.copy().reshape(pyssht.sample_shape(bl)), **map_args))
         scale_start += scale_length
 
     return figs
-- 
2.43.0


From 36a62ea60ab6749e35b7fbd58c09bb62a17790bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:56 +0000
Subject: [PATCH 22/44] fix: hard thresholding keeps nothing for T = 0 and
 leaves its input alone

---
 pxmcmc/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index 04b7e80..f724e77 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -74,8 +74,11 @@ def hard(X, T=0.1):
 
     :meta private:
     """
-    X_srt = np.sort(abs(X))
+    X = np.array(X)
     thresh_ind = int(T * len(X))
+    if thresh_ind == 0:
+        return np.zeros_like(X)
+    X_srt = np.sort(abs(X))
     thresh_val = X_srt[-thresh_ind]
     X[abs(X) < thresh_val] = 0
     return X
-- 
2.43.0


From 6da2f90790a368f8440ab28bad6d7cd2de0c754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:56 +0000
Subject: [PATCH 23/44] fix: priors weight every orientation of directional
 wavelets

Transforms with dirs > 1 have 2 * dirs - 1 maps per wavelet scale, so the
weights had the wrong size and the priors could not be evaluated.  The power
weights also looked for the peak at m = 0 only, where wavelets with even dirs
vanish.
---
 pxmcmc/prior.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index fab04b4..63586c6 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -77,7 +77,11 @@ class S2_Wavelets_L1(L1):
         self.spin = spin
         if setting == "synthesis":
             bls = _multires_bandlimits(L, B, J_min, dirs, spin)
-            self.map_weights = np.concatenate([mw_map_weights(el) for el in bls])
+            # one map per wavelet scale and orientation
+            reps = [1] + [2 * dirs - 1] * (len(bls) - 1)
+            self.map_weights = np.concatenate(
+                [np.tile(mw_map_weights(el), n) for el, n in zip(bls, reps)]
+            )
         else:
             raise NotImplementedError
         self.T = self.T * self.map_weights
@@ -113,7 +117,9 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
         scaling_weights = self._calculate_scaling_weights()
         s = scaling_weights.flatten()
         wavelet_weights = self._calculate_wavelet_weights()
-        w = np.concatenate([w.flatten() for w in wavelet_weights])
+        w = np.concatenate(
+            [np.tile(w.flatten(), 2 * self.dirs - 1) for w in wavelet_weights]
+        )
         self.map_weights = np.concatenate([s, w])
 
     def _calculate_scaling_weights(self):
@@ -132,9 +138,11 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
         wavelet_powers = np.array(
             [np.vdot(lm, lm).real for lm in psi_lm.T]
         )
-        psi_l = np.zeros((psi_lm.shape[1], self.L), dtype=complex)
-        for j, psi in enumerate(psi_lm.T):
-            psi_l[j, :] = np.array([psi[el ** 2 + el] for el in range(self.L)])
+        if not wavelet_powers.all():
+            raise ValueError("Power weights are undefined for a vanishing wavelet scale")
+        psi_l = np.zeros((psi_lm.shape[1], self.L))
+        for j, psi in enumerate(np.abs(psi_lm.T)):
+            psi_l[j, :] = [psi[el ** 2 : (el + 1) ** 2].max() for el in range(self.L)]
         peak_ls = np.array(
             [np.argmax(l) for l in psi_l]
         )
-- 
2.43.0


From 4caa3ef1e264a056467212f0b20672676c665516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:34 +0000
Subject: [PATCH 24/44] fix: track complex predictions of complex samples when
 the data are real

---
 pxmcmc/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index b1ba3ac..b9eaa8b 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -119,7 +119,7 @@ class PxMCMC:
         if "predictions" in self.track:
             self.preds = np.zeros(
                 (self.nsamples, len(self.forward.data)),
-                dtype=complex if np.iscomplexobj(self.forward.data) else float,
+                dtype=complex if self.complex or np.iscomplexobj(self.forward.data) else float,
             )
         if "chain" in self.track:
             self.chain = np.zeros(
-- 
2.43.0


From a0adb92650f782f7495cfbf131c8aef2d79a7f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:55 +0000
Subject: [PATCH 25/44] fix: wrongly shaped weak lensing masks raise the
 documented ValueError

---
 pxmcmc/measurements.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pxmcmc/measurements.py b/pxmcmc/measurements.py
index 0bd32b0..d7f5346 100644
--- a/pxmcmc/measurements.py
+++ b/pxmcmc/measurements.py
@@ -196,6 +196,8 @@ class WeakLensing(WeakLensingHarmonic):
             self.mask = np.ones(self.shape, dtype=bool)
         else:
             self.mask = mask.astype(bool)
+        if self.mask.shape != self.shape:
+            raise ValueError("Shape of mask map is incorrect!")
 
         # Define observational covariance
         if ngal is None:
@@ -203,9 +205,6 @@ class WeakLensing(WeakLensingHarmonic):
         else:
             self.inv_cov = self.ngal_to_inv_cov(ngal)
 
-        if self.mask.shape != self.shape:
-            raise ValueError("Shape of mask map is incorrect!")
-
     def forward(self, kappa):
         """Spherical weak lensing measurement operator
 
-- 
2.43.0


From c992a5358035fd2c66989a6776efc4a64dae488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:48 +0000
Subject: [PATCH 26/44] fix: build_mask when rounding puts the last ring beyond
 the pole

---
 pxmcmc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index f724e77..691fed1 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -334,7 +334,7 @@ def build_mask(L, size=20):
                 mask[i, j] = 0
 
     thetaarray, phiarray = pyssht.sample_positions(L, Grid=True)
-    thetaarray = np.degrees(thetaarray) - 90
+    thetaarray = np.clip(np.degrees(thetaarray) - 90, -90, 90)
     phiarray = np.degrees(phiarray) - 180
 
     c = SkyCoord(phiarray, thetaarray, unit="deg")
-- 
2.43.0


From f2e5f596f8c3bd8332dd5c32771d0bbdf434f9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:44 +0000
Subject: [PATCH 27/44] fix: mollview always draws on a figure of its own

---
 pxmcmc/plotting.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 120c69e..4ba40bf 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -126,12 +126,9 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
 
 
 def mollview(image, figsize=(10, 8), **kwargs):
-    i = np.random.randint(1000)
-    fig = plt.figure(
-        num=i, figsize=figsize
-    )  # this figure number thing is a bit hacky...
+    fig = plt.figure(figsize=figsize)
     with suppress_stdout():
-        hp.mollview(image, fig=i, **kwargs)
+        hp.mollview(image, fig=fig.number, **kwargs)
         hp.graticule(30)
     return fig
 
-- 
2.43.0


From f459c7d024c02dffb7834f2df9a7b3576e686f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:44 +0000
Subject: [PATCH 28/44] fix: plot_wavelet_maps finds each scale of directional
 wavelets

---
 pxmcmc/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 4ba40bf..0630d18 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -86,7 +86,8 @@ def plot_map(
 
 def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_args):
     """
-    Plots the scaling and wavelet maps of spherical map :code:`f`.  
+    Plots the scaling and wavelet maps of spherical map :code:`f`.
+    For directional wavelets, the first orientation of each scale is plotted.
     
     :param array f: MW sampled image.  Shape :math:`(L, 2L - 1)`.
     :param int L: angular bandlimit
@@ -120,7 +121,7 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
         wav = f_wav[scale_start : scale_start + scale_length]
         map_args["title"] = f"{base_title} Wavelet scale {i}"
         figs.append(plot_map(wav.real.copy().reshape(pyssht.sample_shape(bl)), **map_args))
-        scale_start += scale_length
+        scale_start += scale_length * (2 * dirs - 1)
 
     return figs
 
-- 
2.43.0


From 57ce8e88af13c539b14d0a724f9ee48a7d4b0801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:04 +0000
Subject: [PATCH 29/44] fix: read_datafile accepts a file with a single path

---
 experiments/phasevel/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/phasevel/main.py b/experiments/phasevel/main.py
index 01a26c0..e1f7026 100644
--- a/experiments/phasevel/main.py
+++ b/experiments/phasevel/main.py
@@ -27,7 +27,7 @@ def read_datafile(datafile):
     Coordinates given in degrees
     """
     start_lat, start_lon, stop_lat, stop_lon, data, sig_d, mima, nsim = np.loadtxt(
-        datafile, unpack=True
+        datafile, unpack=True, ndmin=2
     )
     start = np.stack([start_lat, start_lon], axis=1)
     stop = np.stack([stop_lat, stop_lon], axis=1)
-- 
2.43.0


From 8572e98ffb994dcbe23ea5bf5a14f733f0e3bcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:33 +0000
Subject: [PATCH 30/44] fix: topography example accepts MW input files

---
 experiments/earthtopography/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/earthtopography/main.py b/experiments/earthtopography/main.py
index c751227..17f1675 100644
--- a/experiments/earthtopography/main.py
+++ b/experiments/earthtopography/main.py
@@ -82,7 +82,7 @@ if "_hpx_" in args.infile:
     topo_d = pys2let.alm2map_mw(pys2let.lm_hp2lm(topo_d_lm, L), L, 0)
 elif "_mw_" in args.infile:
     topo = np.load(args.infile)
-    topo_d = topo.reshape((L, 2 * L - 1))
+    topo_d = topo.reshape(L * (2 * L - 1))
 else:
     raise ValueError("Check filename")
 
-- 
2.43.0


From 61eee94dd8513d7f7e6a5e382079eb5395a62fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:28 +0000
Subject: [PATCH 31/44] fix: topography plots can save numpy arrays

---
 experiments/earthtopography/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/earthtopography/plot.py b/experiments/earthtopography/plot.py
index aa92ed7..b3abfbd 100644
--- a/experiments/earthtopography/plot.py
+++ b/experiments/earthtopography/plot.py
@@ -37,8 +37,8 @@ parser.add_argument(
 args = parser.parse_args()
 
 
-def filename(name):
-    return f"{args.directory}/{name}{args.suffix}.png"
+def filename(name, ext="png"):
+    return f"{args.directory}/{name}{args.suffix}.{ext}"
 
 
 # Load results file and extract global parameters
-- 
2.43.0


From a71d7b3d4f44208820c19c4b1565a490cb42806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:28 +0000
Subject: [PATCH 32/44] fix: topography plots of runs with added noise

---
 experiments/earthtopography/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/earthtopography/plot.py b/experiments/earthtopography/plot.py
index b3abfbd..5f8ea76 100644
--- a/experiments/earthtopography/plot.py
+++ b/experiments/earthtopography/plot.py
@@ -135,7 +135,7 @@ diffpmean = plotting.plot_map(
 diffpmean.savefig(filename("diff_mean"))
 
 # If noise was added, plot it
-if "noise" in params and params["noise"]:
+if "noise" in params and np.any(params["noise"]):
     noise = params["noise"].reshape((L, 2 * L - 1)) / 1000
     noise_map = plotting.plot_map(
         noise, title="Added noise", cmap="binary", oversample=False
-- 
2.43.0


From a3c684e6b331d9c94f4c91afb104f0b62de1a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:46 +0000
Subject: [PATCH 33/44] fix: phase velocity plots show the 95% interval their
 title states

---
 experiments/phasevel/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/phasevel/plot.py b/experiments/phasevel/plot.py
index e516077..15808ec 100644
--- a/experiments/phasevel/plot.py
+++ b/experiments/phasevel/plot.py
@@ -103,7 +103,7 @@ for i, sample in enumerate(file["chain"][args.burn :]):
         chain_pix[i] = np.copy(sample)
 
 # Calculate and plot the credible interval range
-alpha = 0.01
+alpha = 0.05
 quantiles = np.quantile(chain_pix, (alpha / 2, 1 - alpha / 2), axis=0)
 in_ci = (truth.flatten() >= quantiles[0]) & (truth.flatten() <= quantiles[1])
 ci_range = np.diff(quantiles, axis=0)[0].reshape(mw_shape)
-- 
2.43.0


From b75f6aa486a644aea23ae120e7caa7397920f0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:01 +0000
Subject: [PATCH 34/44] fix: weak lensing plots of the credible interval range

---
 experiments/weaklensing/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/weaklensing/plot.py b/experiments/weaklensing/plot.py
index 6c0b571..e9950ef 100644
--- a/experiments/weaklensing/plot.py
+++ b/experiments/weaklensing/plot.py
@@ -135,7 +135,7 @@ for i, sample in enumerate(file["chain"][args.burn :]):
         chain_pix[i] = np.copy(sample)
 
 # Get and plot the uncertainty
-ci_range = uncertainty.credible_interval_range(chain_pix).reshape(mw_shape)
+ci_range = uncertainty.credible_interval_range(chain_pix.real).reshape(mw_shape)
 ci_map = plotting.plot_map(
     np.ascontiguousarray(ci_range.real),
     title="95% credible interval range",
-- 
2.43.0


From b6c69c54b56e7541e23068d501902a35461d303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:14 +0000
Subject: [PATCH 35/44] fix: an interrupted or refused download is not taken
 for the simulation

---
 experiments/weaklensing/download_takahasi.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/experiments/weaklensing/download_takahasi.py b/experiments/weaklensing/download_takahasi.py
index 325f732..e820f8c 100644
--- a/experiments/weaklensing/download_takahasi.py
+++ b/experiments/weaklensing/download_takahasi.py
@@ -104,11 +104,16 @@ def download_binary(filename):
     ind = filename.find("nres")
     nres = int(filename[ind + 4 : ind + 6])
     url = f"http://cosmo.phys.hirosaki-u.ac.jp/takahasi/allsky_raytracing/sub1/nres{nres}/{filename}"
+    partial = f"{filename}.part"
     with requests.get(url, stream=True) as r:
+        r.raise_for_status()
         total_length = int(r.headers.get("Content-Length"))
         with tqdm.wrapattr(r.raw, "read", total=total_length, desc="") as raw:
-            with open(filename, "wb") as file:
+            with open(partial, "wb") as file:
                 shutil.copyfileobj(raw, file)
+    if os.path.getsize(partial) != total_length:
+        raise OSError(f"Download of {filename} is incomplete")
+    os.replace(partial, filename)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 13e5e2b16be1f8dd4424bcf76fb004a6f01020b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:14 +0000
Subject: [PATCH 36/44] fix: conversion to fits works after an interrupted
 conversion

---
 experiments/weaklensing/download_takahasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/weaklensing/download_takahasi.py b/experiments/weaklensing/download_takahasi.py
index e820f8c..f44f05e 100644
--- a/experiments/weaklensing/download_takahasi.py
+++ b/experiments/weaklensing/download_takahasi.py
@@ -93,7 +93,7 @@ def binary_to_fits(filename):
     print("loading completed")
 
     # example of saving data as a fits file
-    hp.fitsfunc.write_map("output.fits", kappa)
+    hp.fitsfunc.write_map("output.fits", kappa, overwrite=True)
 
 
 def download_binary(filename):
-- 
2.43.0


From 605b2cf0c53857bb191d014f416c97a0707ea7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:14 +0000
Subject: [PATCH 37/44] fix: an interrupted save does not leave a broken path
 file

---
 experiments/phasevel/main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/experiments/phasevel/main.py b/experiments/phasevel/main.py
index e1f7026..e1f8940 100644
--- a/experiments/phasevel/main.py
+++ b/experiments/phasevel/main.py
@@ -7,7 +7,7 @@ https://doi.org/10.1093/rasti/rzac010
 
 import numpy as np
 import argparse
-from os import path
+from os import path, replace
 from scipy import sparse
 from greatcirclepaths import GreatCirclePath
 from multiprocessing import Pool
@@ -131,7 +131,9 @@ if __name__ == "__main__":
         path_matrix = sparse.load_npz(args.pathsfile)
     else:
         path_matrix = get_path_matrix(start, stop, L)
-        sparse.save_npz(args.pathsfile, path_matrix)
+        with open(f"{args.pathsfile}.part", "wb") as f:
+            sparse.save_npz(f, path_matrix)
+        replace(f"{args.pathsfile}.part", args.pathsfile)
 
     assert path_matrix.shape[0] == len(data)
 
-- 
2.43.0


From bea5a992c1820a0db22b66b9823ca6e7cfde33b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:16 +0000
Subject: [PATCH 38/44] fix: plot wavelet maps on the same colour scale at both
 ends

---
 pxmcmc/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 0630d18..25d8b73 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -114,6 +114,8 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
 
     if same_scale:
         map_args["vmax"] = np.max(f_wav).real
+        if map_args.get("vmin") is None:
+            map_args["vmin"] = np.min(f_wav).real
 
     scale_start = 0
     for i, bl in enumerate(bls[1:], 1):
-- 
2.43.0


From 44e28762575f141ba77978cdfaee3e5783fbdb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:51 +0000
Subject: [PATCH 39/44] fix: plot maps whose bandlimit is above 256

---
 pxmcmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 25d8b73..7e0bb76 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -47,7 +47,7 @@ def plot_map(
     cmap.set_bad(alpha=0)
 
     if oversample:
-        L = 256
+        L = max(256, f.shape[0])
         f = _oversample(f, L)
     else:
         L = f.shape[0]
-- 
2.43.0


From 6931b9d40bc5f0d959f7bf8b9b64a672bb554799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:35 +0000
Subject: [PATCH 40/44] fix: accept numpy scalars of any type as noise level

---
 pxmcmc/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index c836116..586f69b 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -78,7 +78,7 @@ class ForwardOperator:
             return sparse.csr_matrix(np.linalg.inv(sig_d))
 
         var = sig_d ** 2
-        if isinstance(var, float) or isinstance(var, int) or isinstance(var, complex):
+        if np.isscalar(var):
             return sparse.identity(len(self.data)).dot(1 / var)
         elif var.size == len(self.data) and len(var.shape) == 1:
             return sparse.diags(1 / var)
-- 
2.43.0


From 9858fc0627df519dd0a77ffff6e01c2684e586a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:06 +0000
Subject: [PATCH 41/44] fix: save attributes of more than 64 kB

---
 pxmcmc/saving.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/saving.py b/pxmcmc/saving.py
index 4e619f2..e05f84b 100644
--- a/pxmcmc/saving.py
+++ b/pxmcmc/saving.py
@@ -14,7 +14,10 @@ def save_mcmc(
     :param string filename: filename without extension.
     :param \**kwargs: additional bits users want to save.
     """
-    with h5py.File(os.path.join(outpath, f"{filename}.hdf5"), "w") as f:
+    # attributes of more than 64 kB need the file format of HDF5 1.8 or later
+    with h5py.File(
+        os.path.join(outpath, f"{filename}.hdf5"), "w", libver=("v108", "latest")
+    ) as f:
         if hasattr(mcmc, "logPi"):
             f.create_dataset("logposterior", data=mcmc.logPi)
         if hasattr(mcmc, "preds"):
-- 
2.43.0


From 3a9a692483b3e29f3b6338c811c673110a3f22ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:36 +0000
Subject: [PATCH 42/44] fix: power weights accept negative integer decay
 factors

---
 pxmcmc/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 63586c6..f4c76af 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -144,7 +144,7 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
         for j, psi in enumerate(np.abs(psi_lm.T)):
             psi_l[j, :] = [psi[el ** 2 : (el + 1) ** 2].max() for el in range(self.L)]
         peak_ls = np.array(
-            [np.argmax(l) for l in psi_l]
+            [np.argmax(l) for l in psi_l], dtype=float
         )
         all_weights = []
         for effective_L, power, peak_l in zip(bls[1:], wavelet_powers, peak_ls):
-- 
2.43.0


From 463975d405c03e7a3fde66968f2062aabd7817d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:46 +0000
Subject: [PATCH 43/44] fix: Chebyshev polynomials of integer arrays do not
 overflow

---
 pxmcmc/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index 691fed1..340ffa6 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -147,7 +147,7 @@ def chebyshev1(X, order):
     elif order == 1:
         return X
     else:
-        return 2 * X * chebyshev1(X, order - 1) - chebyshev1(X, order - 2)
+        return 2.0 * X * chebyshev1(X, order - 1) - chebyshev1(X, order - 2)
 
 
 def chebyshev2(X, order):
@@ -173,7 +173,7 @@ def chebyshev2(X, order):
     elif order == 1:
         return 2 * X
     else:
-        return 2 * X * chebyshev2(X, order - 1) - chebyshev2(X, order - 2)
+        return 2.0 * X * chebyshev2(X, order - 1) - chebyshev2(X, order - 2)
 
 
 def cheb1der(X, order):
-- 
2.43.0


From db435c32878e86d84056463037dd83978b1b3ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:46 +0000
Subject: [PATCH 44/44] fix: integer noise levels of few bits do not overflow
 when squared

---
 pxmcmc/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index 586f69b..bc5221b 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -77,7 +77,7 @@ class ForwardOperator:
                 raise ValueError("Covariance matrix should be square")
             return sparse.csr_matrix(np.linalg.inv(sig_d))
 
-        var = sig_d ** 2
+        var = np.square(sig_d, dtype=np.result_type(sig_d, float))
         if np.isscalar(var):
             return sparse.identity(len(self.data)).dot(1 / var)
         elif var.size == len(self.data) and len(var.shape) == 1:
-- 
2.43.0

