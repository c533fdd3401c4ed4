From 20c4d7299721d0c0fd0da37d2fbba7f4c299b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 01/59] fix: KuTa12 sampler pivots on the largest entry instead
 of the first nonzero one

---
 dppy/exact_sampling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 7adc95d..d646f82 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -651,8 +651,9 @@ def proj_dpp_sampler_eig_KuTa12(eig_vecs, size=None, random_state=None):
             break
 
         # Cancel the contribution of e_i to the remaining vectors that is, find the subspace of V that is orthogonal to \{e_i ; i \in Y\}
-        # Take the index of a vector that has a non null contribution on e_j
-        k = np.where(V[j, :] != 0)[0][0]
+        # Take the index of the vector that has the largest contribution on e_j
+        # (a contribution that is only numerically non null is not a valid pivot)
+        k = np.argmax(np.abs(V[j, :]))
         # Cancel the contribution of the remaining vectors on e_j, but stay in the subspace spanned by V i.e. get the subspace of V orthogonal to \{e_i ; i \in Y\}
         V -= np.outer(V[:, k] / V[j, k], V[j, :])
         # V_:j is set to 0 so we delete it and we can derive an orthononormal basis of the subspace under consideration
-- 
2.43.0


From e5634b06454d1adc3c8e7cdabf847d55dfcd2c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 02/59] fix: proj_dpp_sampler_eig refuses a size larger than
 the rank, rank 0 included

---
 dppy/exact_sampling.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index d646f82..28ebbe7 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -415,6 +415,11 @@ def proj_dpp_sampler_eig(eig_vecs, mode='GS', size=None,
 
     rng = check_random_state(random_state)
 
+    if size:
+        rank = eig_vecs.shape[1]
+        if size > rank:
+            raise ValueError('size k={} > rank={}'. format(size, rank))
+
     if eig_vecs.shape[1]:
         # Phase 2: Sample from projection kernel VV.T
         # Chain rule, conditionals are updated using:
-- 
2.43.0


From f6005023dd12dc335fa738280811b7e22c9ea5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 03/59] fix: proj_dpp_sampler_eig refuses an unknown mode even
 when no eigenvector is selected

---
 dppy/exact_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 28ebbe7..4ec8b1b 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -420,7 +420,7 @@ def proj_dpp_sampler_eig(eig_vecs, mode='GS', size=None,
         if size > rank:
             raise ValueError('size k={} > rank={}'. format(size, rank))
 
-    if eig_vecs.shape[1]:
+    if eig_vecs.shape[1] or mode not in ('GS', 'GS_bis', 'KuTa12'):
         # Phase 2: Sample from projection kernel VV.T
         # Chain rule, conditionals are updated using:
         if mode == 'GS':  # Gram-Schmidt
-- 
2.43.0


From 6018ad4176df3f182eb8ae1b0f4718539c2263f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 04/59] fix: FiniteDPP leaves numpy's global floating-point
 error settings untouched

---
 dppy/finite_dpps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 9330e2b..7dd2be6 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -661,8 +661,8 @@ class FiniteDPP:
                                          random_state=rng)
 
         elif self.K_eig_vals is not None:
-            np.seterr(divide='raise')
-            self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+            with np.errstate(divide='raise'):
+                self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
@@ -915,8 +915,8 @@ class FiniteDPP:
                 try:  # to compute eigenvalues of kernel L = K(I-K)^-1
                     msg = '- eig_L = eig_K/(1-eig_K)'
                     print(msg)
-                    np.seterr(divide='raise')
-                    self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+                    with np.errstate(divide='raise'):
+                        self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
                     self.compute_L(msg=True)
                 except FloatingPointError:
                     err_print = ['Eigenvalues of L kernel cannot be computed',
-- 
2.43.0


From bf0e6a0715a7f7fe6e22b6ec1ffa76af2ffebb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 05/59] fix: no division by the null eigenvalues of the dual
 kernel of a rank-deficient L_gram_factor

---
 dppy/finite_dpps.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 7dd2be6..3fd3aa1 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -420,10 +420,13 @@ class FiniteDPP:
             # L_dual = Phi Phi.T = W Theta W.T
             # L = Phi.T Phi = V Gamma V
             # implies Gamma = Theta and V = Phi.T W Theta^{-1/2}
-            self.L_eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
-            self.L_eig_vals = np.maximum(is_geq_0(self.L_eig_vals), 0.0)
-            self.eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs
-                                                    / np.sqrt(self.L_eig_vals))
+            # where only the (numerically) positive eigenvalues are kept
+            L_eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
+            tol = np.max(L_eig_vals) * self.L_dual.shape[0] * np.finfo(float).eps
+            pos = is_geq_0(L_eig_vals) > max(tol, 0.0)
+            self.L_eig_vals = L_eig_vals[pos]
+            self.eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs[:, pos]
+                                                     / np.sqrt(self.L_eig_vals))
             return self.sample_exact(mode=self.sampling_mode,
                                      random_state=rng)
 
@@ -671,10 +674,13 @@ class FiniteDPP:
             # L_dual = Phi Phi.T = W Theta W.T
             # L = Phi.T Phi = V Gamma V.T
             # implies Gamma = Theta and V = Phi.T W Theta^{-1/2}
-            self.L_eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
-            self.L_eig_vals = is_geq_0(self.L_eig_vals)
-            self.eig_vecs =self.L_gram_factor.T.dot(L_dual_eig_vecs
-                                                    / np.sqrt(self.L_eig_vals))
+            # where only the (numerically) positive eigenvalues are kept
+            L_eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
+            tol = np.max(L_eig_vals) * self.L_dual.shape[0] * np.finfo(float).eps
+            pos = is_geq_0(L_eig_vals) > max(tol, 0.0)
+            self.L_eig_vals = L_eig_vals[pos]
+            self.eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs[:, pos]
+                                                     / np.sqrt(self.L_eig_vals))
             return self.sample_exact_k_dpp(size, mode=self.sampling_mode,
                                            random_state=rng)
 
-- 
2.43.0


From d72bc05b441323bf6eefe407c5f614bea1a49d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 06/59] fix: the likelihood kernel is refused for eigenvalues
 of K numerically equal to, or slightly above, 1

---
 dppy/finite_dpps.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 3fd3aa1..0828bc3 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -664,8 +664,7 @@ class FiniteDPP:
                                          random_state=rng)
 
         elif self.K_eig_vals is not None:
-            with np.errstate(divide='raise'):
-                self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+            self.L_eig_vals = self.__eig_K_to_eig_L(self.K_eig_vals)
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
@@ -872,6 +871,15 @@ class FiniteDPP:
                 self.compute_L(msg=True)
                 self.compute_K(msg=True)
 
+    @staticmethod
+    def __eig_K_to_eig_L(eig_K):
+        """Compute the eigenvalues of :math:`L = K(I-K)^{-1}`, which does not exist when some eigenvalue of :math:`K` is (numerically) equal to 1"""
+
+        if np.any(eig_K > 1.0 - 1e-12):
+            raise FloatingPointError('eig_L = eig_K/(1-eig_K) is not defined, some eig_K equal 1')
+
+        return eig_K / (1.0 - eig_K)
+
     def compute_L(self, msg=False):
         """ Compute the likelihood kernel :math:`\\mathbf{L}` from the original parametrization of the :class:`FiniteDPP` object.
 
@@ -921,8 +929,7 @@ class FiniteDPP:
                 try:  # to compute eigenvalues of kernel L = K(I-K)^-1
                     msg = '- eig_L = eig_K/(1-eig_K)'
                     print(msg)
-                    with np.errstate(divide='raise'):
-                        self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+                    self.L_eig_vals = self.__eig_K_to_eig_L(self.K_eig_vals)
                     self.compute_L(msg=True)
                 except FloatingPointError:
                     err_print = ['Eigenvalues of L kernel cannot be computed',
-- 
2.43.0


From 3011cbe6ffaf47addfa82c8c6025b9595cec5b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 07/59] fix: the elementary symmetric polynomials are
 recomputed when the k of a k-DPP grows

---
 dppy/finite_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 0828bc3..db8536c 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -650,7 +650,7 @@ class FiniteDPP:
 
             # Phase 1
             # Precompute elementary symmetric polynomials
-            if self.E_poly is None or self.size_k_dpp < size:
+            if self.E_poly is None or self.E_poly.shape[0] <= size:
                 self.E_poly = elementary_symmetric_polynomials(self.L_eig_vals,
                                                                size)
             # Select eigenvectors
-- 
2.43.0


From 8db5b0dd28b4620ec3dbc0bd9cd7371b843d3ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 08/59] fix: an eigendecomposition with eigenvalues out of
 range is not kept after the error it raised

---
 dppy/finite_dpps.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index db8536c..39bc83c 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -437,14 +437,14 @@ class FiniteDPP:
                                             random_state=rng)
 
         elif self.K is not None:
-            self.K_eig_vals, self.eig_vecs = la.eigh(self.K)
-            self.K_eig_vals = is_in_01(self.K_eig_vals)
+            eig_vals, eig_vecs = la.eigh(self.K)
+            self.K_eig_vals, self.eig_vecs = is_in_01(eig_vals), eig_vecs
             return self.sample_exact(mode=self.sampling_mode,
                                      random_state=rng)
 
         elif self.L is not None:
-            self.L_eig_vals, self.eig_vecs = la.eigh(self.L)
-            self.L_eig_vals = is_geq_0(self.L_eig_vals)
+            eig_vals, eig_vecs = la.eigh(self.L)
+            self.L_eig_vals, self.eig_vecs = is_geq_0(eig_vals), eig_vecs
             return self.sample_exact(mode=self.sampling_mode,
                                      random_state=rng)
 
@@ -684,14 +684,14 @@ class FiniteDPP:
                                            random_state=rng)
 
         elif self.L is not None:
-            self.L_eig_vals, self.eig_vecs = la.eigh(self.L)
-            self.L_eig_vals = is_geq_0(self.L_eig_vals)
+            eig_vals, eig_vecs = la.eigh(self.L)
+            self.L_eig_vals, self.eig_vecs = is_geq_0(eig_vals), eig_vecs
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
         elif self.K is not None:
-            self.K_eig_vals, self.eig_vecs = la.eigh(self.K)
-            self.K_eig_vals = is_in_01(self.K_eig_vals)
+            eig_vals, eig_vecs = la.eigh(self.K)
+            self.K_eig_vals, self.eig_vecs = is_in_01(eig_vals), eig_vecs
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
@@ -863,8 +863,8 @@ class FiniteDPP:
             elif self.L is not None:
                 msg = '- eigendecomposition of L'
                 print(msg)
-                self.L_eig_vals, self.eig_vecs = la.eigh(self.L)
-                self.L_eig_vals = is_geq_0(self.L_eig_vals)
+                eig_vals, eig_vecs = la.eigh(self.L)
+                self.L_eig_vals, self.eig_vecs = is_geq_0(eig_vals), eig_vecs
                 self.compute_K(msg=True)
 
             else:
@@ -941,8 +941,8 @@ class FiniteDPP:
             elif self.K is not None:
                 msg = '- eigendecomposition of K'
                 print(msg)
-                self.K_eig_vals, self.eig_vecs = la.eigh(self.K)
-                self.K_eig_vals = is_in_01(self.K_eig_vals)
+                eig_vals, eig_vecs = la.eigh(self.K)
+                self.K_eig_vals, self.eig_vecs = is_in_01(eig_vals), eig_vecs
                 self.compute_L(msg=True)
 
             else:
-- 
2.43.0


From 38f6963f4dc7297d37377e70a4600faf3563bae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 09/59] fix: Chol and Schur modes of projection likelihood
 k-DPPs stay available once L is diagonalized

---
 dppy/finite_dpps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 39bc83c..286ec9b 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -630,7 +630,8 @@ class FiniteDPP:
                                                     random_state=rng)
 
             else:  # self.kernel_type == 'likelihood':
-                if self.L_eig_vals is not None:
+                if (self.L_eig_vals is not None
+                        and self.sampling_mode not in ('Chol', 'Schur')):
                     # L_eig_vals > 0.5 below to get indices where e_vals = 1
                     sampl = proj_dpp_sampler_eig(
                             eig_vecs=self.eig_vecs[:, self.L_eig_vals > 0.5],
-- 
2.43.0


From c9a394988255c2943c751b1619a7783183339834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 10/59] fix: the Chol mode refuses a correlation kernel with
 eigenvalues out of [0, 1] like the other modes

---
 dppy/finite_dpps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 286ec9b..e370efa 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -350,6 +350,8 @@ class FiniteDPP:
                 sampl = proj_dpp_sampler_kernel(self.K, self.sampling_mode,
                                                 random_state=rng)
             else:
+                if self.K_eig_vals is None:
+                    is_in_01(la.eigvalsh(self.K))
                 sampl, _ = dpp_sampler_generic_kernel(self.K, random_state=rng)
 
         elif self.sampling_mode == 'vfx':
-- 
2.43.0


From 62bbf7680a4feb11538b50ede1348b1cc6139f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 11/59] fix: T_max stops the MCMC samplers once it is exceeded,
 not before

---
 dppy/mcmc_sampling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 5dba753..32a9b32 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -234,7 +234,7 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
             chain.append(S0)
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
                 break
 
     return chain
@@ -317,7 +317,7 @@ def add_delete_sampler(kernel, s_init, nb_iter=10, T_max=None,
             chain.append(S0)
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
                 break
 
     return chain
@@ -406,7 +406,7 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
             chain[it] = S0
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
                 break
 
     return chain.tolist()
@@ -608,7 +608,7 @@ def zonotope_sampler(A_zono, **params):
                 chain[it] = B_x0
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
                 break
 
     return chain.tolist()
-- 
2.43.0


From 356fec1e7933e4c233c357d3418c083d8d4376f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 12/59] fix: array-valued MCMC chains stopped by T_max hold no
 fabricated zero states

---
 dppy/mcmc_sampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 32a9b32..d709a15 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -407,6 +407,7 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
 
         if T_max:
             if time.time() - t_start > T_max:
+                chain = chain[:it + 1]
                 break
 
     return chain.tolist()
@@ -609,6 +610,7 @@ def zonotope_sampler(A_zono, **params):
 
         if T_max:
             if time.time() - t_start > T_max:
+                chain = chain[:it + 1]
                 break
 
     return chain.tolist()
-- 
2.43.0


From 1878d44ccb79a0142def13cdc68d692535d2821c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 13/59] fix: the add-exchange-delete chain can leave the full
 ground set

---
 dppy/mcmc_sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index d709a15..5b9c100 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -188,7 +188,8 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
         # Pick one element s in S_0 by index uniformly at random
         s_ind = rng.choice(size_S0 if size_S0 else N)  # , size=1)[0]
         # Unif t in [N]-S0
-        t = rng.choice(np.delete(ground_set, S0))
+        # (unused when S0 = [N], since then only deletions are proposed)
+        t = rng.choice(np.delete(ground_set, S0)) if size_S0 < N else None
 
         U = rng.rand()
         ratio = size_S0 / N  # Proportion of items in current sample
-- 
2.43.0


From 7523b3bc18ca986b1cdab2dff9bdfbdd5407e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 14/59] fix: the exchange chain accepts the empty and the full
 set, which admit no exchange

---
 dppy/mcmc_sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 5b9c100..b1b9ae1 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -118,7 +118,7 @@ def initialize_AD_and_E_sampler(kernel, size=None, random_state=None):
             break
         else:
             S0 = rng.choice(N,
-                            size=size if size else rng.randint(1, N + 1),
+                            size=rng.randint(1, N + 1) if size is None else size,
                             replace=False)
             det_S0 = det_ST(kernel, S0)
     else:
@@ -383,7 +383,7 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
     for it in range(1, nb_iter):
 
         # With proba 1/2 try to swap 2 elements
-        if rng.rand() < 0.5:
+        if rng.rand() < 0.5 and 0 < size < N:
 
             # Perform the potential exchange move S1 = S0 - s + t
             S1 = S0.copy()  # S1 = S0
-- 
2.43.0


From ff68fbd4071ad5b74257b52928ffb6767e51f8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 15/59] fix: BLESS does not start below its final
 regularization, nor loop forever on small data sets

---
 dppy/bless.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dppy/bless.py b/dppy/bless.py
index 329f52c..d6c3e45 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -223,10 +223,10 @@ def bless(X_data,
         nb_iter_bless = np.ceil(np.log(n)).astype('int')
 
     diag_norm = np.asarray(evaluate_L_diagonal(eval_L, X_data))
-    lam_init = n
+    lam_init = max(n, lam_final)
     ucb_init = rls_oversample_param * diag_norm / (diag_norm + lam_init)
-    while ucb_init.sum() <= 10:
-        lam_init /= 1.25
+    while ucb_init.sum() <= 10 and lam_init > lam_final:
+        lam_init = max(lam_init / 1.25, lam_final)
         ucb_init = rls_oversample_param * diag_norm / (diag_norm + lam_init)
 
     rng = check_random_state(random_state)
@@ -243,7 +243,8 @@ def bless(X_data,
                 lam=lam_init,
                 rls_oversample=rls_oversample_param)
 
-    lam_sequence = list(np.geomspace(lam_final, lam_init, nb_iter_bless))
+    lam_sequence = list(np.clip(np.geomspace(lam_final, lam_init, nb_iter_bless),
+                                lam_final, lam_init))
 
     # discard lam_init from the list, we already used it to initialize
     lam_sequence.pop()
-- 
2.43.0


From 1b984dcd3ffc3cd1544171f21546189125849521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 16/59] fix: BLESS reaches the final regularization when it has
 a single iteration

---
 dppy/bless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/bless.py b/dppy/bless.py
index d6c3e45..3262b7f 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -243,7 +243,7 @@ def bless(X_data,
                 lam=lam_init,
                 rls_oversample=rls_oversample_param)
 
-    lam_sequence = list(np.clip(np.geomspace(lam_final, lam_init, nb_iter_bless),
+    lam_sequence = list(np.clip(np.geomspace(lam_final, lam_init, max(nb_iter_bless, 2)),
                                 lam_final, lam_init))
 
     # discard lam_init from the list, we already used it to initialize
-- 
2.43.0


From 5fa2fb651c67de2e44458a25c318c9a6202248f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 17/59] fix: bless_size does not divide by zero for size 1

---
 dppy/bless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/bless.py b/dppy/bless.py
index 3262b7f..de78e5d 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -346,7 +346,7 @@ def bless_size(X_data,
 
     diag_norm = np.asarray(evaluate_L_diagonal(eval_L, X_data))
 
-    lam_init = diag_norm.sum() / (size_final - 1.0)
+    lam_init = diag_norm.sum() / max(size_final - 1.0, size_final / 2.0)
     lam_max = lam_init
 
     lam_final = 1
-- 
2.43.0


From 844461270a70bd6bbf397e46821060593644c077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 18/59] fix: the vfx sampler draws its intermediate size with
 the exact Poisson parameter (rounding it up biased the samples)

---
 dppy/intermediate_sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index 7844c50..4751c34 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -367,8 +367,8 @@ def vfx_sampling_do_sampling_loop(X_data,
     with get_progress_bar(disable=not verbose) as prog_bar:
         for rej_iter in range(max_iter):
             # sample t
-            lam = np.ceil(pc_state.q * np.exp(pc_state.s / pc_state.q))
-            t = rng.poisson(lam=lam.astype('int'))
+            lam = pc_state.q * np.exp(pc_state.s / pc_state.q)
+            t = rng.poisson(lam=lam)
 
             # sample sigma subset
             sigma = rng.choice(n,
-- 
2.43.0


From e1632b679335a3f390c4acbedcd282dea073a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 19/59] fix: the vfx sampler accepts its documented q_func,
 max_iter and max_iter_size_rejection parameters

---
 dppy/intermediate_sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index 4751c34..d95cc0d 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -131,7 +131,8 @@ def vfx_sampling_precompute_constants(X_data,
                                       rls_oversample_dppvfx=4.0,
                                       rls_oversample_bless=4.0,
                                       nb_iter_bless=None,
-                                      verbose=True):
+                                      verbose=True,
+                                      **kwargs):
     """Pre-compute quantities necessary for the vfx rejection sampling loop, such as the inner Nystrom approximation,
     and the RLS of all elements in L.
 
-- 
2.43.0


From bd0a4ebdf513a1045cc53cc240aa156989a7c937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 20/59] fix: precomputed information is not reused across the
 vfx and alpha samplers nor between DPP and k-DPP requests

---
 dppy/exact_sampling.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 4ec8b1b..402ed18 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -12,7 +12,9 @@
 import numpy as np
 import scipy.linalg as la
 from dppy.utils import inner1d, check_random_state, get_progress_bar
-from dppy.intermediate_sampling import (vfx_sampling_precompute_constants,
+from dppy.intermediate_sampling import (_IntermediateSampleInfo,
+                                        _IntermediateSampleInfoAlphaRescale,
+                                        vfx_sampling_precompute_constants,
                                         vfx_sampling_do_sampling_loop,
                                         alpha_dpp_sampling_precompute_constants,
                                         alpha_dpp_sampling_do_sampling_loop)
@@ -767,7 +769,9 @@ def dpp_vfx_sampler(intermediate_sample_info,
     """
     rng = check_random_state(random_state)
 
-    if intermediate_sample_info is None:
+    # (information computed by another sampler, or for a k-DPP i.e. with a rescaled kernel, is of no use)
+    if (not isinstance(intermediate_sample_info, _IntermediateSampleInfo)
+            or intermediate_sample_info.alpha_star != 1.0):
         intermediate_sample_info = vfx_sampling_precompute_constants(
                                     X_data=X_data,
                                     eval_L=eval_L,
@@ -876,7 +880,9 @@ def alpha_dpp_sampler(intermediate_sample_info,
     """
     rng = check_random_state(random_state)
 
-    if intermediate_sample_info is None:
+    # (information computed by another sampler, or for a k-DPP i.e. with a rescaled kernel, is of no use)
+    if (not isinstance(intermediate_sample_info, _IntermediateSampleInfoAlphaRescale)
+            or intermediate_sample_info.k != -1):
         intermediate_sample_info = alpha_dpp_sampling_precompute_constants(
                                     X_data=X_data,
                                     eval_L=eval_L,
@@ -999,7 +1005,7 @@ def k_dpp_vfx_sampler(size,
     """
     rng = check_random_state(random_state)
 
-    if (intermediate_sample_info is None
+    if (not isinstance(intermediate_sample_info, _IntermediateSampleInfo)
         or not np.isclose(intermediate_sample_info.s, size).item()):
         intermediate_sample_info = vfx_sampling_precompute_constants(
                                     X_data=X_data,
@@ -1138,7 +1144,8 @@ def alpha_k_dpp_sampler(size,
     """
     rng = check_random_state(random_state)
 
-    if intermediate_sample_info is None or intermediate_sample_info.k != size:
+    if (not isinstance(intermediate_sample_info, _IntermediateSampleInfoAlphaRescale)
+            or intermediate_sample_info.k != size):
         intermediate_sample_info = alpha_dpp_sampling_precompute_constants(
                                         X_data=X_data,
                                         eval_L=eval_L,
-- 
2.43.0


From a186d3928161e888ee96fcb9c39dc788f24c2398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 21/59] fix: the deletions of the add-exchange-delete chain are
 accepted with the ratio that preserves its target

---
 dppy/mcmc_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index b1b9ae1..7490407 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -224,7 +224,7 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
             del S1[s_ind]  # S0 - s
             # Accept_reject the move
             det_S1 = det_ST(kernel, S1)  # det K_S1
-            if rng.rand() < det_S1 / det_S0 * size_S0 / (N - (size_S0 - 1)):
+            if rng.rand() < det_S1 / det_S0 * (N - (size_S0 - 1)) / size_S0:
                 S0, det_S0 = S1, det_S1
                 chain.append(S1)
                 size_S0 -= 1
-- 
2.43.0


From 1304d7cb04b33fef9fe9f260aec4d7ff9c5781b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 22/59] fix: a null spectrum is filtered to an empty one
 instead of being refused as negative

---
 dppy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/utils.py b/dppy/utils.py
index e69e288..8d55e49 100644
--- a/dppy/utils.py
+++ b/dppy/utils.py
@@ -239,7 +239,7 @@ def stable_filter(eigenvec, eigenval):
     thresh = np.abs(eigenval).max() * max(eigenval.shape) * np.finfo(eigenval.dtype).eps
     stable_eig = np.logical_not(np.isclose(eigenval, 0., atol=thresh))
 
-    if np.any(eigenval <= - thresh):
+    if np.any(eigenval < - thresh):
         raise ValueError('Some eigenvalues of a PSD matrix are negative, this should never happen. '
                          'Minimum eig: {}'.format(np.min(eigenval)))
 
-- 
2.43.0


From 2427a81a335c39d1738826f411143fa42ec27b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 23/59] fix: the Aldous-Broder sampler does not use the numpy
 alias np.int, which no longer exists

---
 dppy/exotic_dpps_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index ee0f80f..e4fedb5 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -118,7 +118,7 @@ def ust_sampler_aldous_broder(list_of_neighbors, root=None,
     visited[n0] = True
     nb_nodes_in_tree = 1
 
-    tree_edges = np.zeros((nb_nodes - 1, 2), dtype=np.int)
+    tree_edges = np.zeros((nb_nodes - 1, 2), dtype=int)
 
     while nb_nodes_in_tree < nb_nodes:
 
-- 
2.43.0


From fc5fca3aec41f98e9cdb629cafbd013daffe4347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 24/59] fix: spanning trees can be sampled from root 0

---
 dppy/exotic_dpps_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index e4fedb5..99fc9dc 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -48,7 +48,7 @@ def ust_sampler_wilson(list_of_neighbors, root=None,
     nb_nodes = len(list_of_neighbors)
 
     # Initialize the root, if root not specified start from any node
-    n0 = root if root else rng.choice(nb_nodes)  # size=1)[0]
+    n0 = rng.choice(nb_nodes) if root is None else root  # size=1)[0]
     # -1 = not visited / 0 = in path / 1 = in tree
     state = -np.ones(nb_nodes, dtype=int)
     state[n0] = 1
@@ -113,7 +113,7 @@ def ust_sampler_aldous_broder(list_of_neighbors, root=None,
     nb_nodes = len(list_of_neighbors)
 
     # Initialize the root, if root not specified start from any node
-    n0 = root if root else rng.choice(nb_nodes)  # size=1)[0]
+    n0 = rng.choice(nb_nodes) if root is None else root  # size=1)[0]
     visited = np.zeros(nb_nodes, dtype=bool)
     visited[n0] = True
     nb_nodes_in_tree = 1
-- 
2.43.0


From b904fb0f68e7168a19b1f1e06bb590605fb95b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 25/59] fix: UST accepts the documented modes GS_bis and KuTa12

---
 dppy/exotic_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index c0ab69e..c4c098b 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -490,7 +490,7 @@ class UST:
 
         self.sampling_mode = 'Wilson'  # Default (avoid eig_vecs computation)
         self._sampling_modes = {'markov-chain': ['Wilson', 'Aldous-Broder'],
-                                'spectral-method': ['GS'],
+                                'spectral-method': ['GS', 'GS_bis', 'KuTa12'],
                                 'projection-K-kernel': ['Schur', 'Chol']}
         self.list_of_samples = []
 
-- 
2.43.0


From 6287c2acf5e74fc972a6914e08ec0dc3a158b67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 26/59] fix: UST refuses an unknown sampling mode with
 ValueError

---
 dppy/exotic_dpps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index c4c098b..2948910 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -585,11 +585,11 @@ class UST:
             sampl.add_edges_from([self.edges[e] for e in dpp_sample])
 
         else:
-            err_print = '\n'.join(
+            err_print = '\n'.join([
                 'Invalid sampling mode',
                 'Chose from: {}'.format(self._sampling_modes.values()),
-                'Given {}'.format(mode))
-            raise ValueError()
+                'Given {}'.format(mode)])
+            raise ValueError(err_print)
 
         self.list_of_samples.append(sampl)
 
-- 
2.43.0


From 81a2548c8fdc2a28b963881b75f62ed568649db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 27/59] fix: UST does not assume that the nodes of the graph
 are 0..n-1

---
 dppy/exotic_dpps.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index 2948910..1d1b555 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -485,8 +485,10 @@ class UST:
         self.edge_labels = {edge: r'$e_{}$'.format(i)
                             for i, edge in enumerate(self.edges)}
 
-        self.neighbors = [list(graph.neighbors(v))
-                          for v in range(self.nb_nodes)]
+        # neighbors of the nodes, in terms of positions in self.nodes
+        node_index = {v: i for i, v in enumerate(self.nodes)}
+        self.neighbors = [[node_index[w] for w in graph.neighbors(v)]
+                          for v in self.nodes]
 
         self.sampling_mode = 'Wilson'  # Default (avoid eig_vecs computation)
         self._sampling_modes = {'markov-chain': ['Wilson', 'Aldous-Broder'],
@@ -564,6 +566,8 @@ class UST:
                 sampl = ust_sampler_aldous_broder(self.neighbors,
                                                   random_state=rng)
 
+            sampl = self.nx.relabel_nodes(sampl, dict(enumerate(self.nodes)))
+
         elif self.sampling_mode in self._sampling_modes['spectral-method']:
 
             self.compute_kernel_eig_vecs()
-- 
2.43.0


From a5437a41ce6ee41bc3ff77c411fa77dfc428dc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 28/59] fix: UST.sample passes the root it is given to the
 samplers

---
 dppy/exotic_dpps.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index 1d1b555..3754a45 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -558,12 +558,19 @@ class UST:
         self.sampling_mode = mode
 
         if self.sampling_mode in self._sampling_modes['markov-chain']:
+            if root is not None:
+                if root not in self.nodes:
+                    raise ValueError('root {} is not a node of the graph'.format(root))
+                root = self.nodes.index(root)
+
             if self.sampling_mode == 'Wilson':
                 sampl = ust_sampler_wilson(self.neighbors,
+                                           root=root,
                                            random_state=rng)
 
             elif self.sampling_mode == 'Aldous-Broder':
                 sampl = ust_sampler_aldous_broder(self.neighbors,
+                                                  root=root,
                                                   random_state=rng)
 
             sampl = self.nx.relabel_nodes(sampl, dict(enumerate(self.nodes)))
-- 
2.43.0


From 9564a6bf3d09f92d9e2a4a82fc6ab7827b1a553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:32 +0000
Subject: [PATCH 29/59] fix: self-loops of the graph do not end up in non-edges
 of the sampled spanning trees

---
 dppy/exotic_dpps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index 3754a45..bfd226b 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -486,8 +486,9 @@ class UST:
                             for i, edge in enumerate(self.edges)}
 
         # neighbors of the nodes, in terms of positions in self.nodes
+        # (a spanning tree has no self-loop)
         node_index = {v: i for i, v in enumerate(self.nodes)}
-        self.neighbors = [[node_index[w] for w in graph.neighbors(v)]
+        self.neighbors = [[node_index[w] for w in graph.neighbors(v) if w != v]
                           for v in self.nodes]
 
         self.sampling_mode = 'Wilson'  # Default (avoid eig_vecs computation)
-- 
2.43.0


From fe3dfc6325faf825c472885c9596019d209662c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 30/59] fix: the virtual descent process draws Bernoulli(x_0)
 variables, hence its advertised marginals

---
 dppy/exotic_dpps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index bfd226b..c04fc71 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -263,12 +263,12 @@ class VirtualDescentProcess(Descent):
         rng = check_random_state(random_state)
 
         self.size = size
+        Y = rng.rand(self.size + 1) < self.x_0  # Bernoulli(x_0) variables
+
         sigma = uniform_permutation(self.size + 1, random_state=rng)
 
         X = sigma[:-1] > sigma[1:]  # Record the descents in permutation
 
-        Y = rng.binomial(n=2, p=self.x_0, size=self.size + 1) != 1
-
         descent = [i for i in range(self.size)
                    if (~Y[i] and Y[i + 1]) or (~Y[i] and ~Y[i + 1] and X[i])]
         # ~ symbol is equivalent to not on boolean numpy array
-- 
2.43.0


From 501ba896065b4369c72c6717dad6a2833cb4790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 31/59] fix: the empty partition of the Poissonized Plancherel
 measure can be plotted

---
 dppy/exotic_dpps.py      | 4 ++--
 dppy/exotic_dpps_core.py | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index c04fc71..1ff3e31 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -361,7 +361,7 @@ class PoissonizedPlancherel:
         ax.spines['right'].set_visible(False)
 
         # Ticks options
-        x_max = np.max(np.abs(sampl)) + 0.5
+        x_max = np.max(np.abs(sampl), initial=0.0) + 0.5
         minor_ticks = np.arange(-x_max, x_max + 1)
         major_ticks = np.arange(-100, 100 + 1, 10)
         ax.set_xticks(major_ticks)
@@ -403,7 +403,7 @@ class PoissonizedPlancherel:
         y_diag = self.list_of_young_diag[-1]
         sampl = self.list_of_samples[-1].copy()
 
-        x_max = 1.1 * max(y_diag.size, y_diag[0])
+        x_max = 1.1 * max(y_diag.size, np.max(y_diag, initial=1))
         xy_young = xy_young_ru(y_diag)
 
         if normalization:
diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index 99fc9dc..1c3180b 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -227,6 +227,10 @@ def xy_young_ru(young_diag):
         inter[0::2], inter[1::2] = arr_1, arr_2
         return inter
 
+    young_diag = np.asarray(young_diag, dtype=int)
+    if young_diag.size == 0:  # empty partition: no box
+        return np.zeros((0, 2))
+
     # horizontal lines
     x_hor = intertwine(np.zeros_like(young_diag), young_diag)
     y_hor = np.repeat(np.arange(1, young_diag.size + 1), repeats=2)
-- 
2.43.0


From 45a13f0b4dae10481b658c93ee2134c3c0398bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 32/59] fix: limit_shape does not truncate its values for
 integer arguments, and accepts any array_like

---
 dppy/exotic_dpps_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index 1c3180b..0d73102 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -278,6 +278,7 @@ def limit_shape(x):
         - :cite:`Ker96`
     """
 
+    x = np.asarray(x, dtype=float)
     w_x = np.zeros_like(x)
 
     abs_x_gt2 = np.abs(x) >= 2.0
-- 
2.43.0


From 085ec119dc28a1bd760a01dbabedf31c2447b49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 33/59] fix: a negative beta is refused with ValueError instead
 of AttributeError

---
 dppy/beta_ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index 09d3fd9..c5731ae 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -50,7 +50,7 @@ class BetaEnsemble(metaclass=ABCMeta):
     def __init__(self, beta=2):
 
         if not (beta >= 0):
-            raise ValueError('`beta` must be >=0. Given: {}'.format(self.beta))
+            raise ValueError('`beta` must be >=0. Given: {}'.format(beta))
         self.beta = beta
 
         # Split object name at uppercase
-- 
2.43.0


From b3ab1ce92e73e9f6db6db27576d465cf456ed0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 34/59] fix: normalize_points does not modify its argument and
 accepts any array_like

---
 dppy/beta_ensembles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index c5731ae..8704dd1 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -258,6 +258,8 @@ class HermiteEnsemble(BetaEnsemble):
             This method is called in :py:meth:`plot` and :py:meth:`hist` when ``normalization=True``
         """
 
+        points = np.array(points, dtype=float)  # do not modify the input
+
         if self.sampling_mode == 'banded':
             # Normalize to fit N(0,2) ref measure of the full matrix model
             points -= self.params['loc']
@@ -588,6 +590,8 @@ class LaguerreEnsemble(BetaEnsemble):
             This method is called in :py:meth:`plot` and :py:meth:`hist` when ``normalization=True``.
         """
 
+        points = np.array(points, dtype=float)  # do not modify the input
+
         if self.sampling_mode == 'banded':
             # Normalize to fit Gamma(*,2) refe measure of the full matrix model
             points /= 0.5 * self.params['scale']
-- 
2.43.0


From a720486521466d1187246509586aad4112e2bde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 35/59] fix: the full matrix models with beta=4 return N
 points, not each of them twice

---
 dppy/random_matrices.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dppy/random_matrices.py b/dppy/random_matrices.py
index 0b7db3f..8655213 100644
--- a/dppy/random_matrices.py
+++ b/dppy/random_matrices.py
@@ -44,7 +44,10 @@ def hermite_sampler_full(N, beta=2,
                      'Given: {}'.format(beta))
         raise ValueError('\n'.join(err_print))
 
-    return la.eigvalsh(A + A.conj().T) / np.sqrt(2.0)
+    eig_vals = la.eigvalsh(A + A.conj().T) / np.sqrt(2.0)
+
+    # for beta=4, each of the N points is an eigenvalue of multiplicity 2
+    return eig_vals[::2] if beta == 4 else eig_vals
 
 
 def semi_circle_law(x, R=2.0):
@@ -110,7 +113,10 @@ def laguerre_sampler_full(M, N, beta=2,
                      'Given: {}'.format(beta))
         raise ValueError('\n'.join(err_print))
 
-    return la.eigvalsh(A.dot(A.conj().T))
+    eig_vals = la.eigvalsh(A.dot(A.conj().T))
+
+    # for beta=4, each of the N points is an eigenvalue of multiplicity 2
+    return eig_vals[::2] if beta == 4 else eig_vals
 
 
 def marcenko_pastur_law(x, M, N, sigma=1.0):
@@ -193,7 +199,10 @@ def jacobi_sampler_full(M_1, M_2, N, beta=2,
     X_tmp = X.dot(X.conj().T)
     Y_tmp = Y.dot(Y.conj().T)
 
-    return la.eigvals(X_tmp.dot(la.inv(X_tmp + Y_tmp))).real
+    eig_vals = la.eigvals(X_tmp.dot(la.inv(X_tmp + Y_tmp))).real
+
+    # for beta=4, each of the N points is an eigenvalue of multiplicity 2
+    return np.sort(eig_vals)[::2] if beta == 4 else eig_vals
 
 
 def wachter_law(x, M_1, M_2, N):
-- 
2.43.0


From f5cc79e174b5f4cf7f0347f5527378a502349690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 36/59] fix: the Hermite way of sampling circular ensembles
 yields Haar distributed matrices

---
 dppy/random_matrices.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dppy/random_matrices.py b/dppy/random_matrices.py
index 8655213..42bf227 100644
--- a/dppy/random_matrices.py
+++ b/dppy/random_matrices.py
@@ -301,6 +301,21 @@ def circular_sampler_full(N, beta=2, haar_mode='QR',
 
         _, U = la.eigh(A + A.conj().T)
 
+        # Eigenvectors are determined up to a phase, a deterministic choice
+        # is not compatible with the Haar measure
+        if beta == 1:
+            U = U * rng.choice([-1.0, 1.0], size=N)
+
+        elif beta == 2:
+            U = U * np.exp(2 * 1j * np.pi * rng.rand(N))
+
+        else:
+            # uniform unit vectors (V_1, V_2) in the N eigenspaces of dim 2
+            c = rng.randn(2, N) + 1j * rng.randn(2, N)
+            V = (U[:, ::2] * c[0] + U[:, 1::2] * c[1]) / la.norm(c, axis=0)
+            V_1, V_2 = V[:N], V[N:]
+            U = np.block([[V_1, -V_2.conj()], [V_2, V_1.conj()]])
+
     elif haar_mode == 'QR':
 
         if beta == 1:  # COE
-- 
2.43.0


From 964589b152185a68420f239f7d242ae94792b4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 37/59] fix: the Marcenko-Pastur and Wachter densities vanish
 at the borders of the half-line and of [0, 1] instead of being nan

---
 dppy/random_matrices.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dppy/random_matrices.py b/dppy/random_matrices.py
index 42bf227..e4d5936 100644
--- a/dppy/random_matrices.py
+++ b/dppy/random_matrices.py
@@ -131,6 +131,8 @@ def marcenko_pastur_law(x, M, N, sigma=1.0):
     c = N / M
     Lm, Lp = (sigma * (1 - np.sqrt(c)))**2, (sigma * (1 + np.sqrt(c)))**2
 
+    x = np.where((Lm < x) & (x < Lp), x, Lp)  # zero density out of the support
+
     return np.sqrt(np.maximum((Lp-x)*(x-Lm),0)) / (c*x) / (2*np.pi*sigma**2)
 
 
@@ -217,7 +219,10 @@ def wachter_law(x, M_1, M_2, N):
     Lm = ((np.sqrt(a * (a + b - 1)) - np.sqrt(b)) / (a + b))**2
     Lp = ((np.sqrt(a * (a + b - 1)) + np.sqrt(b)) / (a + b))**2
 
-    return (a+b)/(2*np.pi) * 1/(x*(1-x)) * np.sqrt(np.maximum((Lp-x)*(x-Lm),0))
+    in_supp = (Lm < x) & (x < Lp)
+    x = np.where(in_supp, x, 0.5)  # 0.5 is a dummy value, to avoid 0/0
+
+    return in_supp * (a+b)/(2*np.pi) * 1/(x*(1-x)) * np.sqrt(np.maximum((Lp-x)*(x-Lm),0))
 
 
 def mu_ref_beta_sampler_tridiag(a, b, beta=2, size=10,
-- 
2.43.0


From ec9d7f5e258609faf72f5745cf5afbbff02af494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 38/59] fix: BetaEnsemblePolynomialPotential does not modify
 the potential of the caller

---
 dppy/beta_ensemble_polynomial_potential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/beta_ensemble_polynomial_potential.py b/dppy/beta_ensemble_polynomial_potential.py
index 4dd5275..d139123 100644
--- a/dppy/beta_ensemble_polynomial_potential.py
+++ b/dppy/beta_ensemble_polynomial_potential.py
@@ -22,7 +22,7 @@ class BetaEnsemblePolynomialPotential(object):
     def __init__(self, beta, potential_V, name=None):
 
         self.beta = beta
-        self.V = potential_V
+        self.V = np.poly1d(np.copy(potential_V.coeffs))  # V[0] may be reset
 
         if not (self.beta > 0):
             raise ValueError('beta = {} <= 0'.format(beta))
-- 
2.43.0


From d7607a0d92f6b8437eecb29a1de260ead50cca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 39/59] fix: the acceptance ratio of MALA accounts for the
 proposal densities in the right order

---
 dppy/beta_ensemble_polynomial_potential.py      | 3 ++-
 dppy/beta_ensemble_polynomial_potential_core.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential.py b/dppy/beta_ensemble_polynomial_potential.py
index d139123..f2c267d 100644
--- a/dppy/beta_ensemble_polynomial_potential.py
+++ b/dppy/beta_ensemble_polynomial_potential.py
@@ -22,7 +22,8 @@ class BetaEnsemblePolynomialPotential(object):
     def __init__(self, beta, potential_V, name=None):
 
         self.beta = beta
-        self.V = np.poly1d(np.copy(potential_V.coeffs))  # V[0] may be reset
+        self.V = np.poly1d(np.copy(potential_V.coeffs),
+                           variable=potential_V.variable)  # V[0] may be reset
 
         if not (self.beta > 0):
             raise ValueError('beta = {} <= 0'.format(beta))
diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index f162505..8fdba7e 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -328,8 +328,8 @@ def sampler_mala(x, V, sigma=0.01, nb_steps=20, random_state=None):
         acceptance = Vx - Vy\
                     + 0.5\
                         / sigma**2\
-                        * ((x_ - y + 0.5 * sigma**2 * grad_Vy)**2
-                            - (y - x_ + 0.5 * sigma**2 * grad_Vx)**2)
+                        * ((y - x_ + 0.5 * sigma**2 * grad_Vx)**2
+                            - (x_ - y + 0.5 * sigma**2 * grad_Vy)**2)
 
         if np.log(rng.rand()) < acceptance:
             x_ = y
-- 
2.43.0


From ba2645bf78a3c0577f2a2de5044ae2ecdbf72466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:15 +0000
Subject: [PATCH 40/59] fix: exact sampler of the conditionals with shape <= 1
 takes the whole polynomial into account

---
 ...beta_ensemble_polynomial_potential_core.py | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index 8fdba7e..08d3aeb 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -148,15 +148,22 @@ def trunc_gaussian_sampler(b, mu, var, random_state=None):
 
 
 def gen_gamma_alpha_lt_1_sampler(shape, P, random_state=None):
+    """Sample from :math:`\\pi(x) \\propto x^{a-1} \\exp^{-P(x)}` with :math:`0 < a \\leq 1` and :math:`P` convex polynomial, by rejection from a Gamma distribution with rate :math:`r = P'(m)`, where :math:`m P'(m) = a`, so that :math:`P(x) - r x` is minimal at :math:`m`
+    """
 
     rng = check_random_state(random_state)
 
-    it_max = int(1e2)
+    m = find_mode_convex_gen_gamma(shape + 1.0, P)
+    rate = shape / m
+    P_rate = P - np.poly1d([rate, 0.0])
+    P_rate_min = P_rate(m)
+
+    it_max = int(1e7)
     for it in range(1, it_max + 1):
 
-        X = rng.gamma(shape=shape, scale=1 / P[1], size=1)
+        X = rng.gamma(shape=shape, scale=1 / rate)
         U = rng.rand()
-        if np.log(U) < -P[2] * X**2:
+        if np.log(U) < P_rate_min - P_rate(X):
             break
 
     else:
@@ -206,21 +213,21 @@ def sampler_exact_convex_quartic(P, shape=None, random_state=None):
 
     else:  # x^(shape-1) exp(-(beta x^2 + gamma x))
 
-        if not P[2]:  # x^(shape-1) exp(- gamma x))
+        if P.order == 1:  # x^(shape-1) exp(- gamma x))
             return rng.gamma(shape, 1 / P[1]), 0
 
         else:
-            if shape < 1.0:  # x^(shape-1) exp(-(beta x^2 + gamma x)): no mode
-                return gen_gamma_alpha_lt_1_sampler(shape, P,
-                                                    random_state=rng)
-
-            elif shape == 1.0 and P[2]:
+            if shape == 1.0 and P.order == 2 and P[1] >= 0.0:
                 # x^0 exp(-(beta x^2 + gamma x)) = truncated Gaussian [0, oo]
                 return trunc_gaussian_sampler(b=0.0,
                                               mu=-0.5 * P[1] / P[2],
                                               var=0.5 / P[2],
                                               random_state=rng)
 
+            elif shape <= 1.0:  # x^(shape-1) exp(-P(x)): no mode
+                return gen_gamma_alpha_lt_1_sampler(shape, P,
+                                                    random_state=rng)
+
         # else there exists a mode, use [Dev12] domination
         mode = find_mode_convex_gen_gamma(shape, P)
 
-- 
2.43.0


From 628db4ecf4549f270e917fc36b5d504144c6fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:15 +0000
Subject: [PATCH 41/59] fix: equilibrium cdfs accept scalars and leave their
 argument unmodified

---
 dppy/beta_ensemble_polynomial_potential_core.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index 08d3aeb..e476263 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -540,9 +540,7 @@ def cdf_equilibrium_x2_x4(g_2, g_4):
 
     def cdf(x):
 
-        x[x < -a] = -a
-        x[x > a] = a
-        X = np.arcsin(x / a)
+        X = np.arcsin(np.clip(x, -a, a) / a)
         # return g_4 * a2 / (8 * np.pi) * ((X + np.pi) * (a2 + 4 * b2) / 4
         #                                  - a2 * np.sin(4 * X) / 8
         #                                  + b2 * np.sin(2 * X))
@@ -619,9 +617,7 @@ def cdf_equilibrium_x2m(m, g_2m):
     if m == 2:
         def cdf(x):
 
-            x[x < -a] = -a
-            x[x > a] = a
-            X = np.arcsin(x / a)
+            X = np.arcsin(np.clip(x, -a, a) / a)
             return m * t * a**4 / (8 * np.pi) \
                    * (3 * (X + np.pi / 2)
                       + np.sin(2 * X)
@@ -630,9 +626,7 @@ def cdf_equilibrium_x2m(m, g_2m):
     elif m == 3:
         def cdf(x):
 
-            x[x < -a] = -a
-            x[x > a] = a
-            X = np.arcsin(x / a)
+            X = np.arcsin(np.clip(x, -a, a) / a)
             return m * t * a**6 / (16 * np.pi) \
                    * (5 * (X + np.pi / 2)
                       + 5 / 4 * np.sin(2 * X)
-- 
2.43.0


From 9df0eaa00b1a36e3f8bf5e64eda9125c955e35ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 42/59] fix: cumulative function of the quartic equilibrium
 measure when the support is made of two intervals

---
 dppy/beta_ensemble_polynomial_potential_core.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index e476263..a070c76 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -533,6 +533,23 @@ def cdf_equilibrium_x2_x4(g_2, g_4):
         V(x) = V_t(x) = \\frac{g_2}{2} x^2 + \\frac{g_4}{4} x^4
     """
 
+    if g_2 <= -4 * np.sqrt(g_4 / 4):  # support in two intervals
+
+        b2, a2 = (-g_2 + 4 * np.sqrt(g_4 / 4) * np.array([-1, 1])) / g_4
+        a, b = np.sqrt(a2), np.sqrt(np.maximum(b2, 0.0))
+        c, r = 0.5 * (a2 + b2), 0.5 * (a2 - b2)
+
+        def cdf(x):
+
+            u = (np.clip(np.abs(x), b, a)**2 - c) / r
+            u = np.clip(u, -1.0, 1.0)
+            mass = g_4 * r**2 / (8 * np.pi)\
+                    * (u * np.sqrt(1.0 - u**2) + np.arcsin(u) + np.pi / 2)
+
+            return 0.5 + np.sign(x) * mass
+
+        return cdf, a * np.array([-1, 1])
+
     a2 = 2 / (3 * g_4) * (np.sqrt(g_2**2 + 12 * g_4) - g_2)
     a = np.sqrt(a2)
 
-- 
2.43.0


From 227cb1faccb814e6d6b204ec0821e18db1f1b29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 43/59] fix: chain of largest eigenvalues of a single point

---
 dppy/beta_ensemble_polynomial_potential.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential.py b/dppy/beta_ensemble_polynomial_potential.py
index f2c267d..7c99f90 100644
--- a/dppy/beta_ensemble_polynomial_potential.py
+++ b/dppy/beta_ensemble_polynomial_potential.py
@@ -189,11 +189,14 @@ class BetaEnsemblePolynomialPotential(object):
                 eig_vals[:, p] = la.eigvalsh_tridiagonal(a[1:N + 1],
                                                          np.sqrt(b[1:N]))
             elif return_chain_of_lambda_max:
-                lambda_max[p] = la.eigvalsh_tridiagonal(
-                                    a[1:N + 1],
-                                    np.sqrt(b[1:N]),
-                                    select='i',
-                                    select_range=(N - 1, N - 1))[0]
+                if N == 1:  # selection is not available for 1x1 matrices
+                    lambda_max[p] = a[1]
+                else:
+                    lambda_max[p] = la.eigvalsh_tridiagonal(
+                                        a[1:N + 1],
+                                        np.sqrt(b[1:N]),
+                                        select='i',
+                                        select_range=(N - 1, N - 1))[0]
 
         if return_chain_of_eig_vals:
             return eig_vals
-- 
2.43.0


From 1358dbe46438566013f628b68d4a4732ef29b668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 44/59] fix: rejection bounds are finite when one of the Jacobi
 parameters equals -1/2

---
 dppy/multivariate_jacobi_ope.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index 1f844d2..f4cc720 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -13,7 +13,7 @@ import itertools as itt
 
 from scipy import stats
 from scipy.special import beta, betaln, factorial, gamma, gammaln
-from scipy.special import eval_jacobi
+from scipy.special import eval_jacobi, xlogy
 # from scipy.special import logsumexp
 import matplotlib.pyplot as plt
 
@@ -890,8 +890,8 @@ def compute_rejection_bounds(jacobi_params, ordering, log_scale=True):
                 (a + b + 1) * np.log(2) + betaln(a + 1, b + 1)
             bounds[0, non_arcsine] =\
                 np.log(np.pi)\
-                + (0.5 + a) * np.log(1 - mode)\
-                + (0.5 + b) * np.log(1 + mode)\
+                + xlogy(0.5 + a, 1 - mode)\
+                + xlogy(0.5 + b, 1 + mode)\
                 - log_square_norm_P_0
         else:
             square_norm_P_0 = 2**(a + b + 1) * beta(a + 1, b + 1)
-- 
2.43.0


From ace494e0dd41522c3e244f637d0dfe3c9304113b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:37 +0000
Subject: [PATCH 45/59] fix: plot samples of the one dimensional Jacobi
 ensemble

---
 dppy/multivariate_jacobi_ope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index f4cc720..b96efc4 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -457,7 +457,8 @@ class MultivariateJacobiOPE:
 
         tols = 5e-2 * np.ones_like(self.jacobi_params)
         tols = np.zeros_like(self.jacobi_params)
-        tols[1, 0] = 8e-2
+        if self.dim == 2:
+            tols[1, 0] = 8e-2
 
         weights = np.ones(len(sample))
 
-- 
2.43.0


From 87d5f40131b44c49d55443585041e320f4339c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:50 +0000
Subject: [PATCH 46/59] fix: chain rule sampler of the one dimensional Jacobi
 ensemble with parameters larger than 1/2 uses valid rejection bounds,
 parameters smaller than -1/2 are refused

---
 dppy/multivariate_jacobi_ope.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index b96efc4..c2a81a9 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -339,6 +339,9 @@ class MultivariateJacobiOPE:
         # norm_Pk = self.poly_multiD_norm[ind]
         rejection_bound = self.rejection_bounds[ind]
 
+        if np.isinf(rejection_bound):
+            raise ValueError('Jacobi parameters must be >= -0.5 to apply the rejection sampling mechanism')
+
         for trial in range(nb_trials_max):
 
             # Propose x ~ w_eq(x) = \prod_{i=1}^{d} 1/pi 1/sqrt(1-(x_i)^2)
@@ -927,6 +930,16 @@ def compute_rejection_bounds(jacobi_params, ordering, log_scale=True):
                 / (n + 0.5 * (a + b + 1))**(2 * max_a_b)\
                 / gamma(n + 1 + min_a_b)
 
+        # The previous bounds are valid for |a|, |b| <= 1/2; otherwise (d=1)
+        # - when a, b >= -1/2, use sup <= 2 e (2 + sqrt(a^2 + b^2)), see
+        #   T. Erdelyi, A. P. Magnus, P. Nevai (1994), Theorem 1
+        # - when a or b < -1/2, the ratio is not bounded
+        col = np.flatnonzero(non_arcsine)
+        large, small = max_a_b > 0.5, min_a_b < -0.5
+        bound = 2 * np.e * (2 + np.sqrt(a**2 + b**2)[large])
+        bounds[1:, col[large]] = np.log(bound) if log_scale else bound
+        bounds[:, col[small]] = np.inf
+
     if log_scale:
         return np.exp(np.sum(bounds[ordering, range(dim)], axis=1))
     else:
-- 
2.43.0


From c61505f21bfc7d03e8b082ad6a747ee6a7bcbd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:50 +0000
Subject: [PATCH 47/59] fix: Jacobi parameters may be any array_like and must
 come as d pairs

---
 dppy/multivariate_jacobi_ope.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index c2a81a9..48f49ce 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -114,6 +114,11 @@ class MultivariateJacobiOPE:
         if type(N) is not int or N < 1:
             raise ValueError('Number of points N={} < 1'.format(N))
 
+        jacobi_params = np.asarray(jacobi_params)
+
+        if jacobi_params.ndim != 2 or jacobi_params.shape[1] != 2 or not jacobi_params.size:
+            raise ValueError('Jacobi parameters must be an array of shape (d, 2), given shape={}'.format(jacobi_params.shape))
+
         dim = jacobi_params.size // 2
 
         if dim == 1 and not np.all(jacobi_params > -1):
-- 
2.43.0


From e66117016d129c8c25ac9260e398489fc67a107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 48/59] fix: the zonotope sampler does not loop forever when
 its initial point lies on the border of a tile

---
 dppy/mcmc_sampling.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 7490407..88c51c4 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -569,6 +569,11 @@ def zonotope_sampler(A_zono, **params):
         # Get the tile
         B_x0 = extract_basis(np.asarray(y_star))
 
+        if len(B_x0) != r:  # x0 is (numerically) on the border of a tile
+            if 'x_0' in params:
+                raise ValueError('The initial point x_0 does not lie in the interior of a tile.')
+            x0 = matrix(A_zono.dot(rng.rand(N)))
+
     # Initialize sequence of sample
     chain = np.zeros((nb_iter, r), dtype=int)
     chain[0] = B_x0
-- 
2.43.0


From f37eaa9e7d563bdfa2cb7a80356afc6d58043f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:47 +0000
Subject: [PATCH 49/59] fix: a refused sampling call does not change the size
 used to plot the recorded carries and descents

---
 dppy/exotic_dpps.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index 1ff3e31..77b9e48 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -162,12 +162,12 @@ class CarriesProcess(Descent):
         """
         rng = check_random_state(random_state)
 
-        self.size = size
-        A = rng.randint(0, self.base, self.size)
+        A = rng.randint(0, self.base, size)
         B = np.mod(np.cumsum(A), self.base)
 
         carries = 1 + np.where(B[:-1] > B[1:])[0]
 
+        self.size = size
         self.list_of_samples.append(carries.tolist())
 
 
@@ -262,17 +262,17 @@ class VirtualDescentProcess(Descent):
 
         rng = check_random_state(random_state)
 
-        self.size = size
-        Y = rng.rand(self.size + 1) < self.x_0  # Bernoulli(x_0) variables
+        Y = rng.rand(size + 1) < self.x_0  # Bernoulli(x_0) variables
 
-        sigma = uniform_permutation(self.size + 1, random_state=rng)
+        sigma = uniform_permutation(size + 1, random_state=rng)
 
         X = sigma[:-1] > sigma[1:]  # Record the descents in permutation
 
-        descent = [i for i in range(self.size)
+        descent = [i for i in range(size)
                    if (~Y[i] and Y[i + 1]) or (~Y[i] and ~Y[i + 1] and X[i])]
         # ~ symbol is equivalent to not on boolean numpy array
 
+        self.size = size
         self.list_of_samples.append(descent)
 
 
-- 
2.43.0


From dc718a98c91698f4b534c29dff739f4a74354eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:47 +0000
Subject: [PATCH 50/59] fix: a refused sampling call does not change the
 parameters used to normalize and plot the recorded points

---
 dppy/beta_ensembles.py | 113 ++++++++++++++++++++---------------------
 1 file changed, 55 insertions(+), 58 deletions(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index 8704dd1..b626b4c 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -151,20 +151,20 @@ class HermiteEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'full'
         params = {'loc': 0.0, 'scale': np.sqrt(2.0), 'size_N': size_N}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # Sample N i.i.d. gaussian N(0,2)
-            sampl = rng.normal(loc=self.params['loc'],
-                               scale=self.params['scale'],
-                               size=self.params['size_N'])
+            sampl = rng.normal(loc=params['loc'],
+                               scale=params['scale'],
+                               size=params['size_N'])
         else:  # if beta > 0
-            sampl = rm.hermite_sampler_full(N=self.params['size_N'],
+            sampl = rm.hermite_sampler_full(N=params['size_N'],
                                             beta=self.beta,
                                             random_state=rng)
 
+        self.sampling_mode = 'full'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -203,23 +203,23 @@ class HermiteEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'banded'
         params = {'loc': loc, 'scale': scale, 'size_N': size_N}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # Sample N i.i.d. gaussian N(mu, sigma^2)
-            sampl = rng.normal(loc=self.params['loc'],
-                               scale=self.params['scale'],
-                               size=self.params['size_N'])
+            sampl = rng.normal(loc=params['loc'],
+                               scale=params['scale'],
+                               size=params['size_N'])
         else:  # if beta > 0
             sampl = rm.mu_ref_normal_sampler_tridiag(
-                        loc=self.params['loc'],
-                        scale=self.params['scale'],
+                        loc=params['loc'],
+                        scale=params['scale'],
                         beta=self.beta,
-                        size=self.params['size_N'],
+                        size=params['size_N'],
                         random_state=rng)
 
+        self.sampling_mode = 'banded'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -422,8 +422,6 @@ class LaguerreEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'full'
-
         if size_M >= size_N:
             # Define the parameters of the associated Gamma distribution
             shape, scale = 0.5 * self.beta * (size_M - size_N + 1), 2.0
@@ -434,26 +432,27 @@ class LaguerreEnsemble(BetaEnsemble):
 
         params = {'shape': shape, 'scale': scale,
                   'size_N': size_N, 'size_M': size_M}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # rng.gamma(shape=0,...) when doesn't return error! contrary to sp.stats.gamma(a=0).rvs(), see https://github.com/numpy/numpy/issues/12367
             # sampl = stats.gamma.rvs(a=params['shape'], loc=0.0, scale=params['scale'],                                       size=params['size_N'])
             if params['shape'] > 0:
-                sampl = rng.gamma(shape=self.params['shape'],
-                                  scale=self.params['scale'],
-                                  size=self.params['size_N'])
+                sampl = rng.gamma(shape=params['shape'],
+                                  scale=params['scale'],
+                                  size=params['size_N'])
             else:
                 err_print = ('shape<=0.',
                              'Here beta=0, hence shape=beta/2*(M-N+1)=0')
                 raise ValueError(' '.join(err_print))
 
         else:  # if beta > 0
-            sampl = rm.laguerre_sampler_full(M=self.params['size_M'],
-                                             N=self.params['size_N'],
+            sampl = rm.laguerre_sampler_full(M=params['size_M'],
+                                             N=params['size_N'],
                                              beta=self.beta,
                                              random_state=rng)
 
+        self.sampling_mode = 'full'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -511,8 +510,6 @@ class LaguerreEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'banded'
-
         if not size_M:  # Default setting
             if self.beta > 0:
                 size_M = 2 / self.beta * shape + size_N - 1
@@ -530,27 +527,28 @@ class LaguerreEnsemble(BetaEnsemble):
 
         params = {'shape': shape, 'scale': scale,
                   'size_N': size_N, 'size_M': size_M}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # rng.gamma(shape=0,...) when doesn't return error! contrary to sp.stats.gamma(a=0).rvs(), see https://github.com/numpy/numpy/issues/12367
             # sampl = stats.gamma.rvs(a=params['shape'], loc=0.0, scale=params['scale'], size=params['size_N'])
             if params['shape'] > 0:
-                sampl = rng.gamma(shape=self.params['shape'],
-                                  scale=self.params['scale'],
-                                  size=self.params['size_N'])
+                sampl = rng.gamma(shape=params['shape'],
+                                  scale=params['scale'],
+                                  size=params['size_N'])
             else:
                 err_print = ('shape<=0.',
                              'Here beta=0, hence shape=beta/2*(M-N+1)=0')
                 raise ValueError(' '.join(err_print))
 
         else:  # if beta > 0
-            sampl = rm.mu_ref_gamma_sampler_tridiag(shape=self.params['shape'],
-                                                    scale=self.params['scale'],
+            sampl = rm.mu_ref_gamma_sampler_tridiag(shape=params['shape'],
+                                                    scale=params['scale'],
                                                     beta=self.beta,
-                                                    size=self.params['size_N'],
+                                                    size=params['size_N'],
                                                     random_state=rng)
 
+        self.sampling_mode = 'banded'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -764,8 +762,6 @@ class JacobiEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'full'
-
         if (size_M1 >= size_N) and (size_M2 >= size_N):
             # all([var >= size_N for var in [size_M1, size_M2]]
             a = 0.5 * self.beta * (size_M1 - size_N + 1)
@@ -780,20 +776,21 @@ class JacobiEnsemble(BetaEnsemble):
 
         params = {'a': a, 'b': b,
                   'size_N': size_N, 'size_M1': size_M1, 'size_M2': size_M2}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # Sample i.i.d. Beta(a,b) if size_M1,2 were used a,b = beta/2 (M_1,2 - N + 1) = 0 => ERROR
-            sampl = rng.beta(a=self.params['a'],
-                             b=self.params['b'],
-                             size=self.params['size_N'])
+            sampl = rng.beta(a=params['a'],
+                             b=params['b'],
+                             size=params['size_N'])
         else:
-            sampl = rm.jacobi_sampler_full(M_1=self.params['size_M1'],
-                                           M_2=self.params['size_M2'],
-                                           N=self.params['size_N'],
+            sampl = rm.jacobi_sampler_full(M_1=params['size_M1'],
+                                           M_2=params['size_M2'],
+                                           N=params['size_N'],
                                            beta=self.beta,
                                            random_state=rng)
 
+        self.sampling_mode = 'full'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -859,8 +856,6 @@ class JacobiEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'banded'
-
         if not (size_M1 and size_M2):  # default setting
 
             if self.beta > 0:
@@ -884,21 +879,22 @@ class JacobiEnsemble(BetaEnsemble):
 
         params = {'a': a, 'b': b,
                   'size_N': size_N, 'size_M1': size_M1, 'size_M2': size_M2}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # Sample i.i.d. Beta(a,b)
             # If size_M1,2 is used a, b = beta/2 (M1,2 - N + 1) = 0 => ERROR
-            sampl = rng.beta(a=self.params['a'],
-                             b=self.params['b'],
-                             size=self.params['size_N'])
+            sampl = rng.beta(a=params['a'],
+                             b=params['b'],
+                             size=params['size_N'])
         else:
-            sampl = rm.mu_ref_beta_sampler_tridiag(a=self.params['a'],
-                                                   b=self.params['b'],
+            sampl = rm.mu_ref_beta_sampler_tridiag(a=params['a'],
+                                                   b=params['b'],
                                                    beta=self.beta,
-                                                   size=self.params['size_N'],
+                                                   size=params['size_N'],
                                                    random_state=rng)
 
+        self.sampling_mode = 'banded'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -1043,20 +1039,20 @@ class CircularEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'full'
         params = {'size_N': size_N, 'haar_mode': haar_mode}
-        self.params.update(params)
 
         if self.beta == 0:  # i.i.d. points uniformly on the circle
             # Answer issue #28 raised by @rbardenet
             sampl = np.exp(2 * 1j * np.pi * rng.rand(params['size_N']))
         else:
             sampl = rm.circular_sampler_full(
-                        N=self.params['size_N'],
+                        N=params['size_N'],
                         beta=self.beta,
-                        haar_mode=self.params['haar_mode'],
+                        haar_mode=params['haar_mode'],
                         random_state=rng)
 
+        self.sampling_mode = 'full'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -1081,9 +1077,7 @@ class CircularEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'banded'
         params = {'size_N': size_N}
-        self.params.update(params)
 
         if self.beta == 0:  # i.i.d. points uniformly on the circle
             # Answer issue #28 raised by @rbardenet
@@ -1091,9 +1085,11 @@ class CircularEnsemble(BetaEnsemble):
         else:
             sampl = rm.mu_ref_unif_unit_circle_sampler_quindiag(
                         beta=self.beta,
-                        size=self.params['size_N'],
+                        size=params['size_N'],
                         random_state=rng)
 
+        self.sampling_mode = 'banded'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -1226,10 +1222,11 @@ class GinibreEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.params.update({'size_N': size_N})
-        sampl = rm.ginibre_sampler_full(N=self.params['size_N'],
+        params = {'size_N': size_N}
+        sampl = rm.ginibre_sampler_full(N=params['size_N'],
                                         random_state=rng)
 
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
-- 
2.43.0


From 62b4de37ce5ee089581c8d9ac0bbe0df76ded407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:12 +0000
Subject: [PATCH 51/59] fix: a projection flag which is not boolean is refused
 with ValueError

---
 dppy/finite_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index e370efa..4de7aca 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -195,7 +195,7 @@ class FiniteDPP:
 
         if not isinstance(self.projection, bool):
             err_print = ['`projection` argument is not boolean',
-                         'Given: {}'.format(self.is_projection)]
+                         'Given: {}'.format(self.projection)]
             raise ValueError('\n'.join(err_print))
 
         K_type, K_params = 'correlation', {'K', 'K_eig_dec', 'A_zono'}
-- 
2.43.0


From d84f9584b694c6e1f42e034e9768e2538ce60a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:12 +0000
Subject: [PATCH 52/59] fix: the exact k-DPP sampler refuses negative sizes and
 returns the empty set when k=0

---
 dppy/exact_sampling.py | 5 +++--
 dppy/finite_dpps.py    | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 402ed18..7c5f17c 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -1306,11 +1306,12 @@ def k_dpp_eig_vecs_selector(eig_vals, eig_vecs, size,
     ind_selected = np.zeros(k, dtype=int)
     for n in range(eig_vals.size, 0, -1):
 
+        if k == 0:
+            break
+
         if rng.rand() < eig_vals[n - 1] * E_poly[k - 1, n - 1] / E_poly[k, n]:
             k -= 1
             ind_selected[k] = n - 1
-            if k == 0:
-                break
 
     return eig_vecs[:, ind_selected]
 
diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 4de7aca..d83e3a7 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -551,6 +551,9 @@ class FiniteDPP:
 
         rng = check_random_state(params.get('random_state', None))
 
+        if size < 0:
+            raise ValueError('size k={} < 0'.format(size))
+
         self.sampling_mode = mode
         self.size_k_dpp = size
 
-- 
2.43.0


From c9a0148153facf74cbe2aaa7763515fe6ece4fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 53/59] fix: descent processes refuse negative sizes

---
 dppy/exotic_dpps.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index 77b9e48..f4b1cf5 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -206,6 +206,9 @@ class DescentProcess(Descent):
 
         rng = check_random_state(random_state)
 
+        if size < 0:
+            raise ValueError('size={} < 0'.format(size))
+
         self.size = size
         sigma = uniform_permutation(self.size, random_state=rng)
 
@@ -262,6 +265,9 @@ class VirtualDescentProcess(Descent):
 
         rng = check_random_state(random_state)
 
+        if size < 0:
+            raise ValueError('size={} < 0'.format(size))
+
         Y = rng.rand(size + 1) < self.x_0  # Bernoulli(x_0) variables
 
         sigma = uniform_permutation(size + 1, random_state=rng)
-- 
2.43.0


From 11374f0bd3c77b719467c6057eb99449fe81ca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 54/59] fix: constant potentials are refused

---
 dppy/beta_ensemble_polynomial_potential.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dppy/beta_ensemble_polynomial_potential.py b/dppy/beta_ensemble_polynomial_potential.py
index 7c99f90..829251b 100644
--- a/dppy/beta_ensemble_polynomial_potential.py
+++ b/dppy/beta_ensemble_polynomial_potential.py
@@ -42,6 +42,9 @@ class BetaEnsemblePolynomialPotential(object):
         if self.V.order % 2:
             raise ValueError('V has odd degree deg(V)={}'.format(self.V.order))
 
+        if self.V.order == 0:
+            raise ValueError('V is constant, exp(-V) is not integrable')
+
         if self.V[self.V.order] < 0:
             raise ValueError('V = g_{} x^{} + ... with g_{} < 0'.format(*[self.V.order] * 3))
 
-- 
2.43.0


From 38993ef9f9f4d4403f58a794e181bd4b66ee49e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:25 +0000
Subject: [PATCH 55/59] fix: exact samplers accept integer valued kernels and
 eigenvectors

---
 dppy/exact_sampling.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 7c5f17c..9925fcd 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -103,6 +103,7 @@ def proj_dpp_sampler_kernel_Chol(K, size=None, random_state=None):
     rng = check_random_state(random_state)
 
     hermitian = True if K.dtype.kind == 'c' else False
+    K = np.asarray(K, dtype=np.result_type(K, np.float32))  # no integers
 
     N, rank = len(K), np.rint(np.trace(K)).astype(int)
     if size is None:  # full projection DPP
@@ -110,7 +111,7 @@ def proj_dpp_sampler_kernel_Chol(K, size=None, random_state=None):
     # else: k-DPP with k = size
 
     A = K.copy()
-    d = np.diagonal(A).astype(float)
+    d = np.diagonal(A).real.copy()
 
     orig_indices = np.arange(N)
 
@@ -190,6 +191,8 @@ def proj_dpp_sampler_kernel_GS(K, size=None, random_state=None):
 
     rng = check_random_state(random_state)
 
+    K = np.asarray(K, dtype=np.result_type(K, np.float32))  # no integers
+
     # Initialization
     # ground set size / rank(K) = Tr(K)
     N, rank = len(K), np.rint(np.trace(K)).astype(int)
@@ -254,6 +257,8 @@ def proj_dpp_sampler_kernel_Schur(K, size=None, random_state=None):
 
     rng = check_random_state(random_state)
 
+    K = np.asarray(K, dtype=np.result_type(K, np.float32))  # no integers
+
     # Initialization
     # ground set size / rank(K) = Tr(K)
     N, rank = len(K), np.rint(np.trace(K)).astype(int)
@@ -342,6 +347,8 @@ def dpp_sampler_generic_kernel(K, random_state=None):
 
     rng = check_random_state(random_state)
 
+    K = np.asarray(K, dtype=np.result_type(K, np.float32))  # no integers
+
     A = K.copy()
     sample = []
 
@@ -472,6 +479,8 @@ def proj_dpp_sampler_eig_GS(eig_vecs, size=None,
 
     rng = check_random_state(random_state)
 
+    eig_vecs = np.asarray(eig_vecs, dtype=np.result_type(eig_vecs, np.float32))
+
     # Initialization
     V = eig_vecs
 
@@ -534,6 +543,8 @@ def proj_dpp_sampler_eig_GS_bis(eig_vecs, size=None, random_state=None):
 
     rng = check_random_state(random_state)
 
+    eig_vecs = np.asarray(eig_vecs, dtype=np.result_type(eig_vecs, np.float32))
+
     # Initialization
     V = eig_vecs.copy()
 
@@ -633,6 +644,8 @@ def proj_dpp_sampler_eig_KuTa12(eig_vecs, size=None, random_state=None):
 
     rng = check_random_state(random_state)
 
+    eig_vecs = np.asarray(eig_vecs, dtype=np.result_type(eig_vecs, np.float32))
+
     # Initialization
     V = eig_vecs.copy()
 
-- 
2.43.0


From 50860aee98df61cdeb6b2e7648e78a0cbf6f5618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:12 +0000
Subject: [PATCH 56/59] fix: alpha sampler does not write in the output of the
 likelihood function

---
 dppy/intermediate_sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index d95cc0d..7c3b0d5 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -109,8 +109,7 @@ def estimate_rls_from_weighted_dict_eigendecomp(X_to_estimate,
         raise ValueError('Input eigendecomposition has wrong shape: {} {} {}'.format(m, eigvec.shape, eigvals.shape))
 
     diag_L_to_estimate = evaluate_L_diagonal(eval_L, X_to_estimate)
-    L_DX = eval_L(dict_alphadpp.X, X_to_estimate)
-    L_DX *= W_sqrt
+    L_DX = W_sqrt * eval_L(dict_alphadpp.X, X_to_estimate)
     E = eigvec.T.dot(L_DX)
     E *= np.sqrt(1.0 / (alpha_hat * eigvals + 1.0)).reshape(-1, 1)
 
-- 
2.43.0


From 89d863e94da95e53b4324a7220f77c1fd3031af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:43 +0000
Subject: [PATCH 57/59] fix: k-DPP selection with ratios of elementary
 symmetric polynomials

The polynomials themselves overflow or underflow for many items, then the
selection of eigenvectors fails or returns a wrong number of items.
---
 dppy/exact_sampling.py | 39 +++++++++++++++++++++++++++++++++++++--
 dppy/finite_dpps.py    |  9 +--------
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 9925fcd..d87941b 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -1314,7 +1314,8 @@ def k_dpp_eig_vecs_selector(eig_vals, eig_vecs, size,
         raise ValueError('size k={} > rank={}'.format(k, rank))
 
     if E_poly is None:
-        E_poly = elementary_symmetric_polynomials(eig_vals, k)
+        # the e_k's may overflow or underflow, unlike their ratios
+        ratios = _ratios_elementary_symmetric_polynomials(eig_vals, k)
 
     ind_selected = np.zeros(k, dtype=int)
     for n in range(eig_vals.size, 0, -1):
@@ -1322,13 +1323,47 @@ def k_dpp_eig_vecs_selector(eig_vals, eig_vecs, size,
         if k == 0:
             break
 
-        if rng.rand() < eig_vals[n - 1] * E_poly[k - 1, n - 1] / E_poly[k, n]:
+        if E_poly is None:
+            # e_k(n) = e_k(n-1) + lambda_n e_{k-1}(n-1)
+            thresh = eig_vals[n - 1] / (ratios[k, n - 1] + eig_vals[n - 1])
+        else:
+            thresh = eig_vals[n - 1] * E_poly[k - 1, n - 1] / E_poly[k, n]
+
+        if rng.rand() < thresh:
             k -= 1
             ind_selected[k] = n - 1
 
     return eig_vecs[:, ind_selected]
 
 
+def _ratios_elementary_symmetric_polynomials(eig_vals, size):
+    """ Evaluate the ratios :math:`e_k(\\lambda_1, \\cdots, \\lambda_n) / e_{k-1}(\\lambda_1, \\cdots, \\lambda_n)`, with the convention 0/0=0
+
+    :return:
+        array with entries :math:`[k, n]` for :math:`1 \\leq k \\leq \\text{size}` and :math:`0 \\leq n \\leq N`
+    :rtype:
+        array_like
+
+    .. seealso::
+
+        - :func:`elementary_symmetric_polynomials <elementary_symmetric_polynomials>`
+    """
+
+    eig_vals = np.maximum(eig_vals, 0.0)
+    R = np.zeros((size + 1, eig_vals.size + 1))
+
+    with np.errstate(divide='ignore', invalid='ignore'):
+        for n, eig_val in enumerate(eig_vals, start=1):
+            if eig_val == 0.0:
+                R[:, n] = R[:, n - 1]
+            else:
+                R[1:2, n] = R[1:2, n - 1] + eig_val
+                R[2:, n] = ((R[2:, n - 1] + eig_val)
+                            / (1.0 + eig_val / R[1:-1, n - 1]))
+
+    return R
+
+
 # Evaluate the elementary symmetric polynomials
 def elementary_symmetric_polynomials(eig_vals, size):
     """ Evaluate the elementary symmetric polynomials :math:`e_k` in the eigenvalues :math:`(\\lambda_1, \\cdots, \\lambda_N)`.
diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index d83e3a7..972a58e 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -27,8 +27,7 @@ from dppy.exact_sampling import (dpp_sampler_generic_kernel,
                                  dpp_eig_vecs_selector,
                                  k_dpp_vfx_sampler,
                                  alpha_k_dpp_sampler,
-                                 k_dpp_eig_vecs_selector,
-                                 elementary_symmetric_polynomials)
+                                 k_dpp_eig_vecs_selector)
 
 from dppy.mcmc_sampling import (dpp_sampler_mcmc,
                                 zonotope_sampler)
@@ -114,7 +113,6 @@ class FiniteDPP:
 
         # when using .sample_k_dpp_*
         self.size_k_dpp = 0
-        self.E_poly = None  # evaluation of the
 
         # Attributes relative to K correlation kernel:
         # K, K_eig_vals, K_eig_vecs, A_zono
@@ -655,14 +653,9 @@ class FiniteDPP:
         elif self.L_eig_vals is not None:
 
             # Phase 1
-            # Precompute elementary symmetric polynomials
-            if self.E_poly is None or self.E_poly.shape[0] <= size:
-                self.E_poly = elementary_symmetric_polynomials(self.L_eig_vals,
-                                                               size)
             # Select eigenvectors
             V = k_dpp_eig_vecs_selector(self.L_eig_vals, self.eig_vecs,
                                         size=size,
-                                        E_poly=self.E_poly,
                                         random_state=rng)
             # Phase 2
             self.size_k_dpp = size
-- 
2.43.0


From cea7d2e888dd2dd4d197cf69f00b435f35e43d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:17 +0000
Subject: [PATCH 58/59] fix: a refused UST.sample call leaves the sampling mode
 unchanged

---
 dppy/exotic_dpps.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index f4b1cf5..c789df9 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -562,41 +562,39 @@ class UST:
 
         rng = check_random_state(random_state)
 
-        self.sampling_mode = mode
-
-        if self.sampling_mode in self._sampling_modes['markov-chain']:
+        if mode in self._sampling_modes['markov-chain']:
             if root is not None:
                 if root not in self.nodes:
                     raise ValueError('root {} is not a node of the graph'.format(root))
                 root = self.nodes.index(root)
 
-            if self.sampling_mode == 'Wilson':
+            if mode == 'Wilson':
                 sampl = ust_sampler_wilson(self.neighbors,
                                            root=root,
                                            random_state=rng)
 
-            elif self.sampling_mode == 'Aldous-Broder':
+            elif mode == 'Aldous-Broder':
                 sampl = ust_sampler_aldous_broder(self.neighbors,
                                                   root=root,
                                                   random_state=rng)
 
             sampl = self.nx.relabel_nodes(sampl, dict(enumerate(self.nodes)))
 
-        elif self.sampling_mode in self._sampling_modes['spectral-method']:
+        elif mode in self._sampling_modes['spectral-method']:
 
             self.compute_kernel_eig_vecs()
             dpp_sample = proj_dpp_sampler_eig(self.kernel_eig_vecs,
-                                              mode=self.sampling_mode,
+                                              mode=mode,
                                               random_state=rng)
 
             sampl = self.nx.Graph()
             sampl.add_edges_from([self.edges[e] for e in dpp_sample])
 
-        elif self.sampling_mode in self._sampling_modes['projection-K-kernel']:
+        elif mode in self._sampling_modes['projection-K-kernel']:
 
             self.compute_kernel()
             dpp_sample = proj_dpp_sampler_kernel(self.kernel,
-                                                 mode=self.sampling_mode,
+                                                 mode=mode,
                                                  random_state=rng)
 
             sampl = self.nx.Graph()
@@ -609,6 +607,7 @@ class UST:
                 'Given {}'.format(mode)])
             raise ValueError(err_print)
 
+        self.sampling_mode = mode
         self.list_of_samples.append(sampl)
 
     def compute_kernel(self):
-- 
2.43.0


From 9594bc715c60a5b54004d17e2a862af8460a92c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:17 +0000
Subject: [PATCH 59/59] fix: a likelihood kernel of large scale and low rank is
 no longer refused for the rounding errors on its zero eigenvalues

---
 dppy/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dppy/utils.py b/dppy/utils.py
index 8d55e49..76f652f 100644
--- a/dppy/utils.py
+++ b/dppy/utils.py
@@ -198,12 +198,14 @@ def is_in_01(array, tol=1e-8):
 
 
 def is_geq_0(array, tol=1e-8):
-    """Check if entries are **all** :math:`\\geq0`, for a given tolerance"""
+    """Check if entries are **all** :math:`\\geq0`, for a given tolerance. Negative entries of the order of the rounding errors on the eigenvalues of a matrix, given the largest of the entries, are replaced by 0"""
 
     if array is None:
         return None
     elif np.all(array >= -tol):
         return array
+    elif np.all(array >= -100 * np.finfo(float).eps * np.size(array) * np.max(array)):
+        return np.maximum(array, 0.0)
     else:
         raise ValueError('array with entries not all >= 0')
 
-- 
2.43.0

