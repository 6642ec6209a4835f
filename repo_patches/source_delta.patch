From 6413bc78073a4929290eea0c9e91e8f3aa1f8cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 01/49] fix: BetaInDirichlet.complete returns the weights and
 validates its size

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 2c92567..6367a29 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -102,6 +102,7 @@ class BetaInDirichlet(BaseWeight):
         return self.w
 
     def complete(self, size):
+        super().complete(size)
         if len(self._v_base) == 0:
             self._v_base = self._rng.beta(1, self.alpha, size=1)
             self._count_base = [1]
@@ -120,3 +121,4 @@ class BetaInDirichlet(BaseWeight):
             self._d_base = np.append(self._d_base, jj)
         self.w = self.v * np.cumprod(np.concatenate(([1],
                                                      1 - self.v[:-1])))
+        return self.w
-- 
2.43.0


From 5dd69f8413d4697f877d7da64caa92c1e1f8b112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 02/49] fix: random_assignment works without a size

---
 pyrichlet/weight_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 9ce64d7..6b10347 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -155,7 +155,7 @@ class BaseWeight(ABC):
         inverse_sampling = np.greater.outer(
             u, self.get_normalized_cumulative_weights()
         )
-        return np.sum(inverse_sampling, axis=1)
+        return np.sum(inverse_sampling, axis=-1)
 
     def fit_variational(self, variational_d):
         """Fits the variational distribution q
-- 
2.43.0


From d5a3c2ae9296b1a7c45944c252d32451bda1af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 03/49] fix: GeometricProcess.tail covers the requested mass

---
 pyrichlet/weight_models/_geometric_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 66852a5..ec39961 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -41,8 +41,8 @@ class GeometricProcess(BaseWeight):
         if x >= 1 or x < 0:
             raise ValueError("Tail parameter not in range [0,1)")
         size = int(np.log(1 - x) / np.log(1 - self.p))
-        self.complete(size)
-        return self.w
+        self.complete(max(size, 1))
+        return super().tail(x)
 
     def fit_variational(self, variational_d):
         self.variational_d = variational_d
-- 
2.43.0


From bc7eb29aad0d51c2ac683054ea93010b804eff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 04/49] fix: Pitman-Yor sticks use the Beta(1 - d, alpha + j *
 d) law with j from one

---
 pyrichlet/weight_models/_pitman_yor_process.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 718211b..7ad1c72 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -17,12 +17,12 @@ class PitmanYorProcess(BaseWeight):
 
     def weighting_log_likelihood(self):
         v = self.w[0]
-        ret = log_likelihood_beta(v, 1 - self.pyd, self.alpha)
+        ret = log_likelihood_beta(v, 1 - self.pyd, self.alpha + self.pyd)
         prod_v = 1 - v
         for j in range(1, len(self.w)):
             v = self.w[j] / prod_v
             ret += log_likelihood_beta(v, 1 - self.pyd,
-                                       self.alpha + j * self.pyd)
+                                       self.alpha + (j + 1) * self.pyd)
             prod_v *= (1 - v)
         return ret
 
@@ -30,7 +30,7 @@ class PitmanYorProcess(BaseWeight):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if len(self.d) == 0:
-            pitman_yor_bias = np.arange(size)
+            pitman_yor_bias = np.arange(1, size + 1)
             self.v = self._rng.beta(a=1 - self.pyd,
                                     b=self.alpha + pitman_yor_bias * self.pyd,
                                     size=size)
@@ -44,7 +44,7 @@ class PitmanYorProcess(BaseWeight):
                 a_c = a_c[:size]
                 b_c = b_c[:size]
 
-            pitman_yor_bias = np.arange(len(a_c))
+            pitman_yor_bias = np.arange(1, len(a_c) + 1)
             self.v = self._rng.beta(
                 a=1 - self.pyd + a_c,
                 b=self.alpha + pitman_yor_bias * self.pyd + b_c
@@ -58,7 +58,7 @@ class PitmanYorProcess(BaseWeight):
     def complete(self, size):
         super().complete(size)
         if self.get_size() < size:
-            pitman_yor_bias = np.arange(self.get_size(), size)
+            pitman_yor_bias = np.arange(self.get_size() + 1, size + 1)
             self.v = np.concatenate(
                 (
                     self.v,
-- 
2.43.0


From 3d6b3ae699747e5fb7d443f327d6f4babe04b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 05/49] fix: Pitman-Yor variational prior term uses the Beta
 normalizing constant

---
 pyrichlet/weight_models/_pitman_yor_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 7ad1c72..16d33fa 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -116,7 +116,7 @@ class PitmanYorProcess(BaseWeight):
                     self.alpha + (j + 1) * self.pyd - 1
             )
             res += loggamma(self.alpha + j * self.pyd + 1)
-            res -= loggamma(self.alpha + (j + 1) * self.pyd + 1)
+            res -= loggamma(self.alpha + (j + 1) * self.pyd)
             res -= loggamma(1 - self.pyd)
         return res
 
-- 
2.43.0


From 3a57154c1137538f95fdf65cd4aab63312a88941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 06/49] fix: Dirichlet distribution variational E[log w_j] is
 digamma(a_j) - digamma(sum a)

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index e7995e3..d0af383 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -56,7 +56,8 @@ class DirichletDistribution(BaseWeight):
         if self.variational_d is None:
             raise NotFittedError
         return mean_log_beta(self.variational_params[j],
-                             self.variational_params.sum())
+                             self.variational_params.sum() -
+                             self.variational_params[j])
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         if variational_d is None:
-- 
2.43.0


From f55b1240c7f28134827c33778d5dab1948573fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 07/49] fix: Dirichlet distribution variational E[log p(w)]
 weighs each log weight by alpha_j - 1

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index d0af383..62e646f 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -76,8 +76,8 @@ class DirichletDistribution(BaseWeight):
             raise NotFittedError
         log_sum_w_j = 0
         for j in range(self.variational_k):
-            log_sum_w_j += self.variational_mean_log_w_j(j)
-        log_sum_w_j *= self.alpha.sum() - 1
+            log_sum_w_j += ((self.alpha[j] - 1) *
+                            self.variational_mean_log_w_j(j))
         res = self._log_normalization_constant(self.alpha)
         res += log_sum_w_j
         return res
-- 
2.43.0


From 79f93297fbcd6ea6c6916366eafc2650ebbb68f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 08/49] fix: Dirichlet process variational E[log p(w)] counts
 the k - 1 free sticks

---
 pyrichlet/weight_models/_dirichlet_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index c493052..318d09e 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -99,7 +99,7 @@ class DirichletProcess(BaseWeight):
         for params in self.variational_params[:-1]:
             res += mean_log_beta(params[1], params[0])
         res *= self.alpha - 1
-        res += self.variational_k * np.log(self.alpha)
+        res += (self.variational_k - 1) * np.log(self.alpha)
         return res
 
     def variational_mean_log_q_w(self):
-- 
2.43.0


From 166134a1144d373566244ac50768bb3deaea8d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 09/49] fix: geometric process variational posterior counts
 every observation

---
 pyrichlet/weight_models/_geometric_process.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index ec39961..bb85058 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -48,8 +48,7 @@ class GeometricProcess(BaseWeight):
         self.variational_d = variational_d
         self.variational_k = len(self.variational_d)
         self.variational_params = np.empty(2, dtype=np.float64)
-        self.variational_params[0] = self.a + max(len(self.variational_d[0]),
-                                                  1) - 1
+        self.variational_params[0] = self.a + np.sum(self.variational_d)
         self.variational_params[1] = (
                 self.b + (self.variational_d[1:].T *
                           range(1, self.variational_k)).sum()
-- 
2.43.0


From 774738f16c2f6031bdcf87ab543dfb40169d95d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 10/49] fix: geometric process E[log p(d|w)] weighs each group
 by its index

---
 pyrichlet/weight_models/_geometric_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index bb85058..559a8bd 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -80,7 +80,7 @@ class GeometricProcess(BaseWeight):
                                     self.variational_params[0]
                                     )
         for j, nj in enumerate(np.sum(_variational_d, 1)):
-            res += nj * e_log_v_bar
+            res += nj * j * e_log_v_bar
         return res
 
     def variational_mean_log_p_w(self):
-- 
2.43.0


From 0dcb171a61062aeb4641c932a151ece59eb1684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 11/49] fix: geometric process E[w_j] is the exact mean and
 zero beyond the truncation

---
 pyrichlet/weight_models/_geometric_process.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 559a8bd..9c2c140 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -3,7 +3,7 @@ from ..exceptions import NotFittedError
 from ..utils.functions import mean_log_beta, log_likelihood_beta
 
 import numpy as np
-from scipy.special import loggamma
+from scipy.special import betaln, loggamma
 
 
 class GeometricProcess(BaseWeight):
@@ -105,9 +105,10 @@ class GeometricProcess(BaseWeight):
 
     def variational_mean_w_j(self, j):
         if j >= self.variational_k:
-            return 1
-        p = self.variational_params[0] / self.variational_params.sum()
-        return p * (1 - p) ** j
+            return 0
+        params = self.variational_params
+        return np.exp(betaln(params[0] + 1, params[1] + j) -
+                      betaln(params[0], params[1]))
 
     def variational_mode_w_j(self, j):
         if j > self.variational_k:
-- 
2.43.0


From 0cb837d6204fa709c04a8187e67e0568be0ae38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 12/49] fix: variational modes and means are zero from the
 truncation on

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 4 ++--
 pyrichlet/weight_models/_frequency.py              | 2 +-
 pyrichlet/weight_models/_geometric_process.py      | 4 ++--
 pyrichlet/weight_models/_pitman_yor_process.py     | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index 62e646f..69433fd 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -95,12 +95,12 @@ class DirichletDistribution(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         return self.variational_params[j] / self.variational_params.sum()
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         alpha = self.variational_params.sum()
         if self.variational_params[j] <= 1:
diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index 05265fd..97098d7 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -64,6 +64,6 @@ class FrequencyWeighting(BaseWeight):
         return self.variational_d.sum(1)[j] / self.variational_d.sum()
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         return self.variational_d.sum(1)[j] / self.variational_d.sum()
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 9c2c140..f8474ff 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -111,8 +111,8 @@ class GeometricProcess(BaseWeight):
                       betaln(params[0], params[1]))
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
-            return
+        if j >= self.variational_k:
+            return 0
         if self.variational_params[0] <= 1:
             if self.variational_params[1] <= 1:
                 raise ValueError('multimodal distribution')
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 16d33fa..862c7e2 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -132,7 +132,7 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         res = 1
         for jj in range(j):
@@ -142,7 +142,7 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         res = 1
         for jj in range(j):
-- 
2.43.0


From c5abb9dfc68f8faac4d5215636371aadc1ddea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 13/49] fix: equal weighting variational log terms use log(1/n)

---
 pyrichlet/weight_models/_equal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_equal.py b/pyrichlet/weight_models/_equal.py
index 46f2a2a..3e864bd 100644
--- a/pyrichlet/weight_models/_equal.py
+++ b/pyrichlet/weight_models/_equal.py
@@ -25,7 +25,7 @@ class EqualWeighting(BaseWeight):
         self.variational_k = self.n
 
     def variational_mean_log_w_j(self, j):
-        return np.log(1 / self.n) * (j < self.n)
+        return np.log(1 / self.n) if j < self.n else -np.inf
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         _variational_d = variational_d
@@ -33,7 +33,7 @@ class EqualWeighting(BaseWeight):
             _variational_d = self.variational_d
             if _variational_d is None:
                 raise NotFittedError
-        return _variational_d.shape[1] * np.log(self.n)
+        return -_variational_d.shape[1] * np.log(self.n)
 
     def variational_mean_log_p_w(self):
         return 0
-- 
2.43.0


From cae97ddabf9eadef7214e034f908392b1c37ba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 14/49] fix: frequency weighting is truncated at the number of
 groups and reports E[log w_j]

---
 pyrichlet/weight_models/_frequency.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index 97098d7..c166c0e 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -25,9 +25,7 @@ class FrequencyWeighting(BaseWeight):
 
     def fit_variational(self, variational_d: np.ndarray):
         self.variational_d = variational_d
-        self.variational_k = variational_d.shape[1]
-        if self.variational_k == 0:
-            self.variational_k = self.n
+        self.variational_k = variational_d.shape[0]
 
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
@@ -35,7 +33,8 @@ class FrequencyWeighting(BaseWeight):
         if j >= self.variational_k:
             return -np.inf
         if self.variational_d.shape[1]:
-            return self.variational_d.sum(1)[j] / self.variational_d.sum()
+            return np.log(self.variational_d.sum(1)[j] /
+                          self.variational_d.sum())
         return np.log(1 / self.variational_k)
 
     def variational_mean_log_p_d__w(self, variational_d=None):
-- 
2.43.0


From bb1f2a97ba5070967966c6a1d9acff6c2ed14e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 15/49] fix: BetaInBeta draws the shared p when a structure
 starts, not when it is extended

---
 pyrichlet/weight_models/_beta_in_beta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index a685a1a..40fb180 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -74,7 +74,7 @@ class BetaInBeta(BaseWeight):
 
     def complete(self, size):
         super().complete(size)
-        if len(self.v == 0):
+        if len(self.v) == 0:
             self.random_p()
         if len(self.v) < size:
             if self.x < 1:
-- 
2.43.0


From 4890d7eba9bdc9235551b62769bc80526e767f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 16/49] fix: frequency weighting does not replace its fit when
 evaluating E[log p(d|w)]

---
 pyrichlet/weight_models/_frequency.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index c166c0e..849b15f 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -38,12 +38,10 @@ class FrequencyWeighting(BaseWeight):
         return np.log(1 / self.variational_k)
 
     def variational_mean_log_p_d__w(self, variational_d=None):
+        if self.variational_d is None:
+            raise NotFittedError
         if variational_d is None:
-            if self.variational_d is None:
-                raise NotFittedError
             variational_d = self.variational_d
-        else:
-            self.variational_d = variational_d
         return np.sum(variational_d.sum(1) * np.log(self.variational_d.sum(1) /
                                                     self.variational_d.sum()))
 
-- 
2.43.0


From 8253a697470f6312034d5f19903b2927c4a06c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 17/49] fix: variational log means are minus infinity from the
 truncation on

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 2 ++
 pyrichlet/weight_models/_geometric_process.py      | 2 ++
 pyrichlet/weight_models/_pitman_yor_process.py     | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index 69433fd..5152469 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -55,6 +55,8 @@ class DirichletDistribution(BaseWeight):
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
+        if j >= self.variational_k:
+            return -np.inf
         return mean_log_beta(self.variational_params[j],
                              self.variational_params.sum() -
                              self.variational_params[j])
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index f8474ff..e4c6dde 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -57,6 +57,8 @@ class GeometricProcess(BaseWeight):
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
+        if j >= self.variational_k:
+            return -np.inf
         res = mean_log_beta(self.variational_params[0],
                             self.variational_params[1]
                             )
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 862c7e2..3212cb3 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -85,6 +85,8 @@ class PitmanYorProcess(BaseWeight):
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
+        if j >= self.variational_k:
+            return -np.inf
         res = 0
         for jj in range(j):
             res += mean_log_beta(self.variational_params[jj][1],
-- 
2.43.0


From 24d53d3dae3e5cbcaedf2969b4c31a801172da27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 18/49] fix: geometric E[log p(d|w)] raises NotFittedError
 before fitting

---
 pyrichlet/weight_models/_geometric_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index e4c6dde..8f56064 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -69,10 +69,10 @@ class GeometricProcess(BaseWeight):
         return res
 
     def variational_mean_log_p_d__w(self, variational_d=None):
+        if self.variational_d is None:
+            raise NotFittedError
         if variational_d is None:
             _variational_d = self.variational_d
-            if _variational_d is None:
-                raise NotFittedError
         else:
             _variational_d = variational_d
         res = mean_log_beta(self.variational_params[0],
-- 
2.43.0


From 33850892efd3234c52e630d17547e59ab2320c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 19/49] fix: BetaInBeta log-likelihood is defined for the
 geometric limit x = 1

---
 pyrichlet/weight_models/_beta_in_beta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 40fb180..69dc6e6 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -24,6 +24,8 @@ class BetaInBeta(BaseWeight):
         self._validate_params()
 
     def weighting_log_likelihood(self):
+        if self.x == 1:
+            return self._internal_beta_log_likelihood()
         v = self.w[0]
         beta_a = 1 + self.x / (1 - self.x) * self.p
         beta_b = self.alpha + self.x / (1 - self.x) * (1 - self.p)
-- 
2.43.0


From 7eda6e7bd83538b492e9e4c7f383708cb81ce799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 20/49] fix: BetaInBeta log-likelihood uses the given alpha

---
 pyrichlet/weight_models/_beta_in_beta.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 69dc6e6..503a67d 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -161,8 +161,7 @@ class BetaInBeta(BaseWeight):
         log_likelihood += self._p_log_likelihood(p=p)
         return log_likelihood
 
-    def _weight_log_likelihood(self, v=None, p=None, x=None, alpha=None,
-                               a=None, b=None):
+    def _weight_log_likelihood(self, v=None, p=None, x=None, alpha=None):
         if v is None:
             v = self.v
         if p is None:
@@ -171,10 +170,6 @@ class BetaInBeta(BaseWeight):
             x = self.x
         if alpha is None:
             alpha = self.alpha
-        if a is None:
-            alpha = self.alpha
-        if b is None:
-            alpha = self.alpha
         if x == 1:
             if len(v) == 0:
                 return 0
-- 
2.43.0


From db6ade47e6e18a1f905370ac85c5a613ac794680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 21/49] fix: BetaBernoulli.complete can complete an empty
 structure to one weight

---
 pyrichlet/weight_models/_beta_bernoulli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 9e4255c..f18118b 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -77,7 +77,7 @@ class BetaBernoulli(BaseWeight):
             mask_change = np.cumsum(mask_change)
             temp_v = np.concatenate((
                 [self.v[-1]],
-                self._rng.beta(a=1, b=self.alpha, size=mask_change[-1])))
+                self._rng.beta(a=1, b=self.alpha, size=mask_change.max(initial=0))))
             self.v = np.concatenate((self.v, temp_v[mask_change]))
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
-- 
2.43.0


From fb9a22f55f2b281ac1805aa9c9669b0930ebe316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 22/49] fix: BetaBernoulli log-likelihood counts the new sticks
 and both indicator outcomes

---
 pyrichlet/weight_models/_beta_bernoulli.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index f18118b..6d9a296 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -2,7 +2,7 @@ from ._base import BaseWeight
 import numpy as np
 from scipy.special import beta as betaf
 
-from ..utils.functions import log_likelihood_beta
+from ..utils.functions import log_likelihood_beta, log_likelihood_binom
 
 
 class BetaBernoulli(BaseWeight):
@@ -20,16 +20,14 @@ class BetaBernoulli(BaseWeight):
 
     def _bernoulli_structure_log_likelihood(self):
         ret = 0
-        if self.p == 0:
-            return ret
-        for b in self.bernoullis:
-            ret += b * np.log(self.p)
+        for b in self.bernoullis[1:]:
+            ret += log_likelihood_binom(b, 1, self.p)
         return ret
 
     def _beta_structure_log_likelihood(self):
         ret = log_likelihood_beta(self.v[0], 1, self.alpha)
         for j in range(1, len(self.v)):
-            if not self.bernoullis[j]:
+            if self.bernoullis[j]:
                 ret += log_likelihood_beta(self.v[j], 1, self.alpha)
         return ret
 
-- 
2.43.0


From aba50002a00c00d330837605d7659990b20ed3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 23/49] fix: BetaBernoulli draws its change indicators from
 their conditional law

---
 pyrichlet/weight_models/_beta_bernoulli.py | 48 ++++++++++------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 6d9a296..2f54d53 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -1,6 +1,6 @@
 from ._base import BaseWeight
 import numpy as np
-from scipy.special import beta as betaf
+from scipy.special import betaln
 
 from ..utils.functions import log_likelihood_beta, log_likelihood_binom
 
@@ -85,34 +85,30 @@ class BetaBernoulli(BaseWeight):
         bernoullis = self._rng.binomial(n=1, p=self.p, size=size)
         self.bernoullis[0] = 1
         if len(self.d) > 0:
-            size_fit = self.d.max()
             a_c = np.bincount(self.d)
             b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
             bernoullis[0] = 0
-            for j in range(1, size_fit):
-                a_j_prime, b_j_prime, g_plus = 0, 0, 1
-                k = j + 1
-                for b in bernoullis[j + 1:]:
-                    if b == 1:
-                        break
-                    a_j_prime += a_c[k]
-                    b_j_prime += b_c[k]
-                    k += 1
-                    g_plus = betaf(a_j_prime, b_j_prime) * self.alpha
-                a_j_prime += a_c[j]
-                b_j_prime += b_c[j]
-                k = j - 1
-                for b in bernoullis[:j][::-1]:
-                    if b == 1:
-                        break
-                    a_j_prime += a_c[k]
-                    b_j_prime += b_c[k]
-                    k -= 1
-                g_minus = betaf(a_j_prime, b_j_prime) * self.alpha
-                p = self.p
-                p_times_plus = p * g_plus if p > 0 else 0
-                not_p_times_minus = (1 - p) * g_minus if p < 1 else 0
-                p = p_times_plus / (p_times_plus + not_p_times_minus)
+            for j in range(1, size):
+                # Sticks tied to j from the left if there is no change at j
+                start = j - 1
+                while start > 0 and not bernoullis[start]:
+                    start -= 1
+                # Sticks tied to j from the right
+                end = j + 1
+                while end < size and not bernoullis[end]:
+                    end += 1
+                log_g_plus = (
+                        2 * np.log(self.alpha)
+                        + betaln(1 + a_c[start:j].sum(),
+                                 self.alpha + b_c[start:j].sum())
+                        + betaln(1 + a_c[j:end].sum(),
+                                 self.alpha + b_c[j:end].sum()))
+                log_g_minus = (
+                        np.log(self.alpha)
+                        + betaln(1 + a_c[start:end].sum(),
+                                 self.alpha + b_c[start:end].sum()))
+                p = self.p / (self.p + (1 - self.p) * np.exp(
+                    np.clip(log_g_minus - log_g_plus, -700, 700)))
                 bernoullis[j] = self._rng.binomial(n=1, p=p)
         self.bernoullis = bernoullis
         return self.bernoullis
-- 
2.43.0


From e99b86bda5cc29597c49af309a01bc10efe2f14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 24/49] fix: BetaBinomial keeps each binomial aligned with its
 stick and counts every stick once

---
 pyrichlet/weight_models/_beta_binomial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 4601f7d..40b9ac4 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -17,11 +17,11 @@ class BetaBinomial(BaseWeight):
     def weighting_log_likelihood(self):
         b = self.binomials[0]
         res = log_likelihood_beta_binom(b, self.n, 1, self.alpha)
-        for j in range(1, len(self.v) - 1):
+        for j in range(len(self.v) - 1):
             v = self.v[j]
             res += log_likelihood_beta(v, 1 + b,
                                        self.alpha + self.n - b)
-            b = self.binomials[j]
+            b = self.binomials[j + 1]
             res += log_likelihood_binom(b, self.n, v)
 
         res += log_likelihood_beta(self.v[-1], 1 + b,
@@ -45,6 +45,8 @@ class BetaBinomial(BaseWeight):
             a = 1 + a_c + beta_phased
             b = self.alpha + b_c + 2 * self.n - beta_phased
             self.v = self._rng.beta(a=a, b=b)
+            # Keep only the binomials that precede each stick
+            self.binomials = self.binomials[:-1]
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
             if size is not None:
-- 
2.43.0


From 889d1637a37913ccd57d0a9de3fdb51ec80a8cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 25/49] fix: BetaInDirichlet ties: single stick, new-tie
 probability and new-tie value

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 6367a29..c3b4ebb 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -62,7 +62,7 @@ class BetaInDirichlet(BaseWeight):
                     self._d_base = np.append(self._d_base, 0)
                 continue
             d_base_reduced = np.delete(self._d_base, j)
-            k = np.max(d_base_reduced)
+            k = np.max(d_base_reduced, initial=-1)
             log_prob = []
             new_base = False
             for dd in range(k + 2):
@@ -70,7 +70,8 @@ class BetaInDirichlet(BaseWeight):
                 if base_count == 0 and not new_base:
                     new_base = True
                     temp_log_prob = (
-                            np.log(self.a) + loggamma(1 + a_c[j])
+                            np.log(self.a) + np.log(self.alpha)
+                            + loggamma(1 + a_c[j])
                             + loggamma(self.alpha + b_c[j])
                             - loggamma(1 + self.alpha + a_c[j] + b_c[j]))
                     log_prob.append(temp_log_prob)
@@ -85,15 +86,15 @@ class BetaInDirichlet(BaseWeight):
                         + b_c[j] * np.log(1 - self._v_base[dd]))
                 log_prob.append(temp_log_prob)
             log_prob = np.array(log_prob)
-            if j < len(self._d_base):
-                self._d_base[j] = gumbel_max_sampling(log_prob, rng=self._rng)
-            else:
-                self._d_base = np.append(self._d_base,
-                                         gumbel_max_sampling(log_prob,
-                                                             rng=self._rng))
-            if max(self._d_base) <= len(self._v_base):
-                self._v_base = np.concatenate((
-                    self._v_base, [self._rng.beta(a=1, b=self.alpha)]))
+            new_d = gumbel_max_sampling(log_prob, rng=self._rng)
+            if not np.any(d_base_reduced == new_d):
+                # The stick is tied to no other, draw its own value
+                new_v = self._rng.beta(a=1 + a_c[j], b=self.alpha + b_c[j])
+                if new_d < len(self._v_base):
+                    self._v_base[new_d] = new_v
+                else:
+                    self._v_base = np.append(self._v_base, new_v)
+            self._d_base[j] = new_d
         self._count_base = [
             np.sum(self._d_base == j) for j in range(len(self._v_base))]
         self.v = self._v_base[self._d_base]
-- 
2.43.0


From c673568d018a3818874a3cc70ca8ed73e06c3d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 26/49] fix: the Ewens partition probability is defined for
 alpha = 0

---
 pyrichlet/utils/functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/utils/functions.py b/pyrichlet/utils/functions.py
index 4d89809..00f4336 100644
--- a/pyrichlet/utils/functions.py
+++ b/pyrichlet/utils/functions.py
@@ -18,6 +18,8 @@ def log_likelihood_binom(x, n, p):
 def dirichlet_log_eppf(alpha, partition):
     k = len(partition)
     n = sum(partition)
+    if alpha == 0:
+        return 0.0 if k == 1 else -np.inf
     res = loggamma(alpha) - loggamma(alpha + n)
     res += k * np.log(alpha)
     res += np.sum(loggamma(partition))
-- 
2.43.0


From 5342bf8b3051fef6d23fae860c3e7df2d741f3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 27/49] fix: Student-t and normal densities use the determinant
 of the precision

---
 pyrichlet/utils/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/utils/functions.py b/pyrichlet/utils/functions.py
index 00f4336..19fea8c 100644
--- a/pyrichlet/utils/functions.py
+++ b/pyrichlet/utils/functions.py
@@ -33,7 +33,7 @@ def mean_log_beta(a, b):
 def density_students_t(x, mu, precision, nu):
     dim = x.shape[1]
     density = np.exp(loggamma((nu + dim) / 2) - loggamma(nu / 2))
-    density *= np.linalg.norm(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)
+    density *= np.linalg.det(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)
     density *= (1 + np.einsum('ij,jk,ik->i',
                               x - mu, precision, x - mu
                               ) / nu) ** (-(nu + dim) / 2)
@@ -42,7 +42,7 @@ def density_students_t(x, mu, precision, nu):
 
 def density_normal(x, mu, precision):
     dim = x.shape[1]
-    density = np.sqrt((2 * np.pi) ** -dim * np.linalg.norm(precision))
+    density = np.sqrt((2 * np.pi) ** -dim * np.linalg.det(precision))
     density *= np.exp(- np.einsum('ij,jk,ik->i',
                                   x - mu, precision, x - mu
                                   ) / 2)
-- 
2.43.0


From 24a42f1a8eeb6fc0bb4e93a58915bce72ac142ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 28/49] fix: Wishart normalizing term and expected
 log-determinant use the determinant

---
 pyrichlet/mixture_models/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 6a7bdef..6cb1150 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -108,7 +108,7 @@ def cluster(x, w, theta):
 
 def log_wishart_normalization_term(precision, scale):
     dim = precision.shape[0]
-    res = np.log(np.linalg.norm(precision)) * (-scale / 2)
+    res = np.linalg.slogdet(precision)[1] * (-scale / 2)
     inverse_term = np.log(2) * (scale * dim / 2)
     inverse_term += np.log(np.pi) * (dim * (dim - 1) / 4)
     for i in range(dim):
@@ -119,7 +119,7 @@ def log_wishart_normalization_term(precision, scale):
 
 def e_log_norm_wishart(precision, scale):
     dim = precision.shape[0]
-    res = np.log(np.linalg.norm(precision))
+    res = np.linalg.slogdet(precision)[1]
     res += dim * np.log(2)
     for i in range(dim):
         res += digamma((scale - i) / 2)
-- 
2.43.0


From 1ad8bb43c414bf48434c810c0e6b7919f6fe75b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 29/49] fix: rejection sampling redraws both coordinates of
 every rejected point

---
 pyrichlet/mixture_models/_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 6cb1150..bd4b80b 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -55,9 +55,11 @@ def rejection_sample(f, max_y, a=0, b=1, size=None, *, rng=None):
     else:
         x = rng.uniform(a, b, size)
         y = rng.uniform(0, max_y, size)
-        while np.any(y > f(x)):
-            x[y > f(x)] = rng.uniform(a, b, np.sum(y > f(x)))
-            y[y > f(x)] = rng.uniform(0, max_y, np.sum(y > f(x)))
+        rejected = y > f(x)
+        while np.any(rejected):
+            x[rejected] = rng.uniform(a, b, np.sum(rejected))
+            y[rejected] = rng.uniform(0, max_y, np.sum(rejected))
+            rejected = y > f(x)
         return x
 
 
-- 
2.43.0


From a7fefe77ba47e96ae62ee16c2ed004306e09a4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 30/49] fix: a single point can be clustered

---
 pyrichlet/mixture_models/_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index bd4b80b..1a46565 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -95,10 +95,8 @@ def cluster(x, w, theta):
     k = len(w)
     assign_prob = []
     for j in range(k):
-        assign_prob.append(multivariate_normal.pdf(x,
-                                                   theta[j][0],
-                                                   theta[j][1],
-                                                   1))
+        assign_prob.append(np.atleast_1d(
+            multivariate_normal.pdf(x, theta[j][0], theta[j][1], 1)))
     assign_prob = np.array(assign_prob).T
     assign_prob = assign_prob * w
     assign_prob /= assign_prob.sum(1)[:, None]
-- 
2.43.0


From e8db893c16ef4e4fc5eb8530fee05c3b9987fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 31/49] fix: a single observation can be assigned in a Gibbs
 step

---
 pyrichlet/mixture_models/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 42edc80..5d39346 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -920,10 +920,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
     def _d_log_likelihood_vector(self):
         with np.errstate(divide='ignore'):
             log_probability = np.array(
-                [multivariate_normal.logpdf(self.y,
-                                            self.theta[j][0],
-                                            self.theta[j][1],
-                                            1)
+                [np.atleast_1d(multivariate_normal.logpdf(self.y,
+                                                          self.theta[j][0],
+                                                          self.theta[j][1],
+                                                          1))
                  for j in range(self.weight_model.get_size())]
             )
             log_probability += np.log(np.greater.outer(
-- 
2.43.0


From 8efec3eace85cdb570454a3df73be91555d9ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 32/49] fix: variational atom update uses the total scatter and
 the outer product of the mean shift

---
 pyrichlet/mixture_models/_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 5d39346..90514cd 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -997,7 +997,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             x_bar_j = (vd_j / n_j) @ self.y
             ns_j = np.einsum('i,ij,ik->jk',
                              vd_j, (self.y - x_bar_j), (self.y - x_bar_j)
-                             ) / n_j
+                             )
             v_lambda_j = self.lambda_prior + n_j
             v_scale_j = self.nu_prior + n_j
             v_mu_j = (self.lambda_prior * self.mu_prior +
@@ -1005,8 +1005,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             v_precision_j = (self.psi_prior + ns_j +
                              self.lambda_prior * n_j / (self.lambda_prior +
                                                         n_j) *
-                             (x_bar_j - self.mu_prior) @ (x_bar_j -
-                                                          self.mu_prior))
+                             np.outer(x_bar_j - self.mu_prior,
+                                      x_bar_j - self.mu_prior))
             v_precision_j = np.linalg.inv(v_precision_j)
             var_theta.append([v_mu_j, v_lambda_j, v_precision_j, v_scale_j])
         self.var_theta = var_theta
-- 
2.43.0


From 0b60b9751b2fb5697481c2b9599d3848772a3059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 33/49] fix: E[log p(y|d, theta)] weighs each group by its
 responsibilities

---
 pyrichlet/mixture_models/_base.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 90514cd..642d42f 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1039,13 +1039,14 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             x_bar_j = (vd_j / n_j) @ self.y
             s_j = (vd_j / n_j * (self.y - x_bar_j).T) @ (self.y - x_bar_j)
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
-            res += _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
-            res -= dim / v_lambda_j
-            res -= v_scale_j * np.einsum('ij,ji->', s_j, v_precision_j)
-            res -= (v_scale_j *
-                    (x_bar_j - v_mu_j) @ v_precision_j @ (x_bar_j - v_mu_j)
-                    )
-        res -= dim * np.log(2 * np.pi) * self.var_k
+            res_j = _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
+            res_j -= dim / v_lambda_j
+            res_j -= v_scale_j * np.einsum('ij,ji->', s_j, v_precision_j)
+            res_j -= (v_scale_j *
+                      (x_bar_j - v_mu_j) @ v_precision_j @ (x_bar_j - v_mu_j)
+                      )
+            res_j -= dim * np.log(2 * np.pi)
+            res += n_j * res_j
         res /= 2
         return res
 
-- 
2.43.0


From 9aa075b6eec10bac409d6cccb363d0020711a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 34/49] fix: E[log q(theta)] has the sign and scale of the
 normal-Wishart entropy

---
 pyrichlet/mixture_models/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 642d42f..29e2f26 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1092,8 +1092,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             _, v_lambda_j, v_precision_j, v_scale_j = vt_j
             res += _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
             res += dim * (np.log(v_lambda_j / (2 * np.pi)))
-            res -= _utils.entropy_wishart(v_precision_j, v_scale_j)
-        res += dim * self.var_k
+            res -= 2 * _utils.entropy_wishart(v_precision_j, v_scale_j)
+        res -= dim * self.var_k
         res /= 2
         return res
 
-- 
2.43.0


From 02e5e20ee3ec118c495b798df8a16f0a6a1b8741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 35/49] fix: the evidence bound subtracts E[log q(w)]

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 29e2f26..67fd0d4 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1083,7 +1083,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         return np.sum(self.var_d * np.log(self.var_d))
 
     def _e_loq_q_w(self):
-        return self.weight_model.variational_mean_log_p_w()
+        return self.weight_model.variational_mean_log_q_w()
 
     def _e_log_q_theta(self):
         dim = self.y.shape[1]
-- 
2.43.0


From 2ca061904e70ef86019d224db579bc55a54ea59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 36/49] fix: the convergence flag reports the last variational
 fit

---
 pyrichlet/mixture_models/_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 67fd0d4..2409375 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -230,8 +230,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             if t is not None:
                 t.update()
         self.var_fitted = True
-        if iterations < self.total_iter:
-            self.var_converged = True
+        self.var_converged = bool(elbo_diff <= tol)
 
     def gibbs_eap_density(self, y=None, dim=None, component=None,
                           periods=None):
-- 
2.43.0


From 64f6f91f7c5f277eca20e5bfb26ce0c67ce613e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 37/49] fix: variational densities accept default, integer and
 partial dimensions

---
 pyrichlet/mixture_models/_base.py  | 27 +++++++++++----------------
 pyrichlet/mixture_models/_utils.py |  8 ++++++++
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 2409375..864ea68 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -512,10 +512,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         _y = self._cast_observations(y)
         if dim is None:
             dim = np.arange(_y.shape[1])
-        if isinstance(dim, int):
-            len_dim = 1
-        else:
-            len_dim = len(dim)
+        dim = np.atleast_1d(dim)
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -523,13 +520,13 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             iterator = [(component, self.var_theta[component])]
         for j, vt_j in iterator:
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
+            v_dof_j = v_scale_j + 1 - len(v_mu_j)
             v_mu_j = v_mu_j[dim]
-            v_precision_j = v_precision_j[:, dim][dim, :]
+            v_precision_j = _utils.marginal_precision(v_precision_j, dim)
             f_x += density_students_t(
                 _y, v_mu_j,
-                v_precision_j * (v_scale_j + 1 -
-                                 len_dim) * v_lambda_j / (1 + v_lambda_j),
-                v_scale_j + 1 - len_dim
+                v_precision_j * v_dof_j * v_lambda_j / (1 + v_lambda_j),
+                v_dof_j
             ) * self.weight_model.variational_mean_w_j(j)
         return f_x
 
@@ -552,10 +549,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
         _y = self._cast_observations(y)
-        if isinstance(dim, int):
-            len_dim = 1
-        else:
-            len_dim = len(dim)
+        if dim is None:
+            dim = np.arange(_y.shape[1])
+        dim = np.atleast_1d(dim)
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -563,10 +559,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             iterator = [(component, self.var_theta[component])]
         for j, vt_j in iterator:
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
-            v_mu_j = v_mu_j[dim]
-            v_precision_j = v_precision_j[:, dim][dim, :]
-            map_mu = v_mu_j
-            map_precision = (v_scale_j - len_dim) * v_precision_j
+            map_mu = v_mu_j[dim]
+            map_precision = _utils.marginal_precision(
+                (v_scale_j - len(v_mu_j)) * v_precision_j, dim)
             f_x += density_normal(_y, map_mu, map_precision
                                   ) * self.weight_model.variational_mode_w_j(j)
         return f_x
diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 1a46565..df5036f 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -126,6 +126,14 @@ def e_log_norm_wishart(precision, scale):
     return res
 
 
+def marginal_precision(precision, dim):
+    """Precision of the marginal over `dim` given the joint precision"""
+    if len(dim) == precision.shape[0] and np.all(
+            dim == np.arange(precision.shape[0])):
+        return precision
+    return np.linalg.inv(np.linalg.inv(precision)[:, dim][dim, :])
+
+
 def entropy_wishart(precision, scale):
     dim = precision.shape[0]
     res = -log_wishart_normalization_term(precision, scale)
-- 
2.43.0


From b47d842e4b32ead177e8dbe285c26c72801102f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 38/49] fix: variational clustering of new points reports their
 uncertainty and does not overflow

---
 pyrichlet/mixture_models/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 864ea68..77f3b50 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -676,7 +676,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                                  v_precision_j @ (_y - v_mu_j).T)).sum(0)
                          )
             var_d[j, :] = log_d_ji
-        var_d -= var_d.mean(0)
+        var_d -= var_d.max(0)
         var_d = np.exp(var_d)
         var_d += np.finfo(np.float64).eps
         var_d /= var_d.sum(0)
@@ -684,7 +684,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             return var_d.argmax(0)
         else:
             d = var_d.argmax(0)
-            return d, var_d[d]
+            return d, 1 - var_d[d, range(len(d))]
 
     def get_n_groups(self):
         return self.n_groups
-- 
2.43.0


From 3e9c0cd7f498ac39202acfef39b118e5a9ce5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 39/49] fix: the variational affinity matrix accepts every data
 container

---
 pyrichlet/mixture_models/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 77f3b50..8cd2511 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -589,8 +589,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             var_d = self.var_d
         else:
             _y = self._cast_observations(y)
-            dim = y.shape[1]
-            var_d = np.zeros((self.var_k, y.shape[0]), dtype=np.float64)
+            dim = _y.shape[1]
+            var_d = np.zeros((self.var_k, _y.shape[0]), dtype=np.float64)
             for j, vt_j in enumerate(self.var_theta):
                 v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
                 log_d_ji = self.weight_model.variational_mean_log_w_j(j)
@@ -599,8 +599,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 log_d_ji -= dim * np.log(2 * np.pi) / 2
                 log_d_ji -= dim / v_lambda_j / 2
                 log_d_ji -= (v_scale_j *
-                             ((y - v_mu_j).T * (
-                                     v_precision_j @ (y - v_mu_j).T)).sum(
+                             ((_y - v_mu_j).T * (
+                                     v_precision_j @ (_y - v_mu_j).T)).sum(
                                  0)
                              ) / 2
                 var_d[j, :] = log_d_ji
-- 
2.43.0


From 2db390e1502af6c985450564601898d2be3928e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 40/49] fix: Series are fitted and queried as one feature

---
 pyrichlet/mixture_models/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 8cd2511..12a51ca 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -703,7 +703,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             self.y = y.to_numpy()
             self._column_names = y.columns
         elif isinstance(y, pd.Series):
-            self.y = y.to_numpy()
+            self.y = np.array(y).reshape(-1, 1)
             if y.name is None:
                 self._column_names = np.array([0])
             else:
@@ -1097,6 +1097,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         else:
             if isinstance(y, pd.DataFrame):
                 _y = y.to_numpy()
+            elif isinstance(y, pd.Series):
+                _y = y.to_numpy().reshape(-1, 1)
             elif isinstance(y, list):
                 _y = np.array(y)
                 if _y.ndim == 1:
-- 
2.43.0


From f302bbddbf848e9256eeecd29c0c3bfdfe3063b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 41/49] fix: fitted frames are copied

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 12a51ca..0fddcfd 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -700,7 +700,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         Initialize the prior variables if not given
         """
         if isinstance(y, pd.DataFrame):
-            self.y = y.to_numpy()
+            self.y = np.array(y)
             self._column_names = y.columns
         elif isinstance(y, pd.Series):
             self.y = np.array(y).reshape(-1, 1)
-- 
2.43.0


From 031e4473c8ec65f62d6a768b299e2046f54abec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 42/49] fix: priors that were not given follow the data being
 fitted

---
 pyrichlet/mixture_models/_base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 0fddcfd..5812209 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -68,6 +68,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.lambda_prior = lambda_prior
         self.psi_prior = psi_prior
         self.nu_prior = nu_prior
+        # Priors left to the data are computed again for every fitted dataset
+        self._data_priors = {name for name in
+                             ("mu_prior", "psi_prior", "nu_prior")
+                             if getattr(self, name) is None}
 
         self.weight_model = weight_model
         self.y = np.array([])
@@ -725,15 +729,15 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         else:
             raise TypeError('Invalid type for variable y')
 
-        if self.mu_prior is None:
+        if "mu_prior" in self._data_priors:
             self.mu_prior = self.y.mean(axis=0)
         else:
             self.mu_prior = np.array(self.mu_prior)
-        if self.psi_prior is None:
+        if "psi_prior" in self._data_priors:
             self.psi_prior = np.atleast_2d(np.cov(self.y.T))
         else:
             self.psi_prior = np.atleast_2d(self.psi_prior)
-        if self.nu_prior is None:
+        if "nu_prior" in self._data_priors:
             self.nu_prior = self.y.shape[1]
 
     def _initialize_gibbs_params(self, init_groups=None, method="kmeans"):
-- 
2.43.0


From 2bf5a09892979170bc852ef60cd57f9bc7c354c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 43/49] fix: a cold Gibbs fit discards the earlier MAP state

---
 pyrichlet/mixture_models/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 5812209..a83e901 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -775,6 +775,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.n_groups = []
         self.n_atoms = []
         self.total_saved_steps = 0
+        self.map_sim_params = None
+        self.map_log_likelihood = -np.inf
 
         self.theta = defaultdict(atom_generator)
         self.affinity_matrix = np.zeros((len(self.y), len(self.y)))
-- 
2.43.0


From caf00d99e6e7633618421f09d41299520c86c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 44/49] fix: recorded Gibbs states hold an atom for every
 weight

---
 pyrichlet/mixture_models/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index a83e901..bca3981 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -858,6 +858,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.weight_model.fit_variational(self.var_d)
 
     def _get_run_params(self):
+        for j in range(self.weight_model.get_size()):
+            self.theta[j]  # draws the atom from the prior if missing
         return {"w": self.weight_model.get_weights(),
                 "theta": dict(self.theta),
                 "u": self.u,
-- 
2.43.0


From a5b479d8b4a167c2336b12e5064dc0f76425989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 45/49] fix: a cold Gibbs fit starts from prior weights

---
 pyrichlet/mixture_models/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index bca3981..9fd0281 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -782,10 +782,12 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.affinity_matrix = np.zeros((len(self.y), len(self.y)))
         self.u = self.rng.uniform(0 + np.finfo(np.float64).eps, 1,
                                   len(self.y))
+        self.weight_model.reset()
         if init_groups is None:
+            self.weight_model.random(1)
             self.weight_model.tail(1 - min(self.u))
         else:
-            self.weight_model.complete(init_groups)
+            self.weight_model.random(int(init_groups))
 
         if method == "kmeans":
             if hasattr(self, 'n'):
-- 
2.43.0


From c9a092595ead00ba52519eedcb8dd7aaa1884ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 46/49] fix: Gibbs densities accept every integer and sequence
 type for dim

---
 pyrichlet/mixture_models/_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index df5036f..13a5002 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -65,6 +65,10 @@ def rejection_sample(f, max_y, a=0, b=1, size=None, *, rng=None):
 
 def mixture_density(x, w, theta, dim=None, component=None):
     k = len(w)
+    if isinstance(dim, np.integer):
+        dim = int(dim)
+    elif isinstance(dim, tuple):
+        dim = list(dim)
 
     ret = []
     if component is None:
-- 
2.43.0


From 56728d966b3df55e87406042a029ae3b3e9a6255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 47/49] fix: clustering points far from every component does
 not underflow

---
 pyrichlet/mixture_models/_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 13a5002..9678697 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -100,9 +100,11 @@ def cluster(x, w, theta):
     assign_prob = []
     for j in range(k):
         assign_prob.append(np.atleast_1d(
-            multivariate_normal.pdf(x, theta[j][0], theta[j][1], 1)))
+            multivariate_normal.logpdf(x, theta[j][0], theta[j][1], 1)))
     assign_prob = np.array(assign_prob).T
-    assign_prob = assign_prob * w
+    with np.errstate(divide='ignore'):
+        assign_prob = assign_prob + np.log(w)
+    assign_prob = np.exp(assign_prob - assign_prob.max(1)[:, None])
     assign_prob /= assign_prob.sum(1)[:, None]
     grp = np.argmax(assign_prob, axis=1)
     uncertainty = 1 - assign_prob[range(len(x)), grp]
-- 
2.43.0


From cf66d34bfd7edea811bcdcd7c9de6e2bfc603647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 48/49] fix: a fitted BetaInDirichlet honours the requested
 size

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index c3b4ebb..3a095bc 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -100,6 +100,8 @@ class BetaInDirichlet(BaseWeight):
         self.v = self._v_base[self._d_base]
         self.w = self.v * np.cumprod(np.concatenate(([1],
                                                      1 - self.v[:-1])))
+        if size is not None:
+            self.complete(size)
         return self.w
 
     def complete(self, size):
-- 
2.43.0


From b585709ebb696a8c8cf6e3d269714cc9e79073de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:41 +0000
Subject: [PATCH 49/49] fix: a prior draw of BetaInDirichlet forgets the ties
 of earlier draws

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 3a095bc..346f782 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -33,6 +33,7 @@ class BetaInDirichlet(BaseWeight):
         self.v = self.v[:0]
         self._v_base = self._v_base[:0]
         if len(self.d) == 0:
+            self._d_base = self._d_base[:0]
             self.complete(size)
             return self.w
         n = max(self.d) + 1
-- 
2.43.0

