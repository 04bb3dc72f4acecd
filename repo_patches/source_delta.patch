From f189206bcbbbd561cb91e35ca184130a8d0fc711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 01/62] fix: use the determinant of the precision in the normal
 and Student-t densities

---
 pyrichlet/utils/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/utils/functions.py b/pyrichlet/utils/functions.py
index 4d89809..49e77ef 100644
--- a/pyrichlet/utils/functions.py
+++ b/pyrichlet/utils/functions.py
@@ -31,7 +31,7 @@ def mean_log_beta(a, b):
 def density_students_t(x, mu, precision, nu):
     dim = x.shape[1]
     density = np.exp(loggamma((nu + dim) / 2) - loggamma(nu / 2))
-    density *= np.linalg.norm(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)
+    density *= np.linalg.det(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)
     density *= (1 + np.einsum('ij,jk,ik->i',
                               x - mu, precision, x - mu
                               ) / nu) ** (-(nu + dim) / 2)
@@ -40,7 +40,7 @@ def density_students_t(x, mu, precision, nu):
 
 def density_normal(x, mu, precision):
     dim = x.shape[1]
-    density = np.sqrt((2 * np.pi) ** -dim * np.linalg.norm(precision))
+    density = np.sqrt((2 * np.pi) ** -dim * np.linalg.det(precision))
     density *= np.exp(- np.einsum('ij,jk,ik->i',
                                   x - mu, precision, x - mu
                                   ) / 2)
-- 
2.43.0


From b5da3440b9cfdd086ef7d04b9f7498e058c00b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 02/62] fix: use the log-determinant in the Wishart
 expectations

---
 pyrichlet/mixture_models/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 6a7bdef..6cb1150 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -108,7 +108,7 @@ def cluster(x, w, theta):
 
 def log_wishart_normalization_term(precision, scale):
     dim = precision.shape[0]
-    res = np.log(np.linalg.norm(precision)) * (-scale / 2)
+    res = np.linalg.slogdet(precision)[1] * (-scale / 2)
     inverse_term = np.log(2) * (scale * dim / 2)
     inverse_term += np.log(np.pi) * (dim * (dim - 1) / 4)
     for i in range(dim):
@@ -119,7 +119,7 @@ def log_wishart_normalization_term(precision, scale):
 
 def e_log_norm_wishart(precision, scale):
     dim = precision.shape[0]
-    res = np.log(np.linalg.norm(precision))
+    res = np.linalg.slogdet(precision)[1]
     res += dim * np.log(2)
     for i in range(dim):
         res += digamma((scale - i) / 2)
-- 
2.43.0


From 9c76269675684be45a23fcf6df0e6772fb2cc79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 03/62] fix: variational scale matrix must use the full scatter
 and an outer product

---
 pyrichlet/mixture_models/_base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 42edc80..2aca03c 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -996,8 +996,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             n_j = vd_j.sum()
             x_bar_j = (vd_j / n_j) @ self.y
             ns_j = np.einsum('i,ij,ik->jk',
-                             vd_j, (self.y - x_bar_j), (self.y - x_bar_j)
-                             ) / n_j
+                             vd_j, (self.y - x_bar_j), (self.y - x_bar_j))
             v_lambda_j = self.lambda_prior + n_j
             v_scale_j = self.nu_prior + n_j
             v_mu_j = (self.lambda_prior * self.mu_prior +
@@ -1005,8 +1004,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             v_precision_j = (self.psi_prior + ns_j +
                              self.lambda_prior * n_j / (self.lambda_prior +
                                                         n_j) *
-                             (x_bar_j - self.mu_prior) @ (x_bar_j -
-                                                          self.mu_prior))
+                             np.outer(x_bar_j - self.mu_prior,
+                                      x_bar_j - self.mu_prior))
             v_precision_j = np.linalg.inv(v_precision_j)
             var_theta.append([v_mu_j, v_lambda_j, v_precision_j, v_scale_j])
         self.var_theta = var_theta
-- 
2.43.0


From aa4dbbada522db452514acdbe492da951f680691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 04/62] fix: evidence lower bound terms of the variational fit

---
 pyrichlet/mixture_models/_base.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 2aca03c..dc286b3 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1038,13 +1038,14 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             x_bar_j = (vd_j / n_j) @ self.y
             s_j = (vd_j / n_j * (self.y - x_bar_j).T) @ (self.y - x_bar_j)
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
-            res += _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
-            res -= dim / v_lambda_j
-            res -= v_scale_j * np.einsum('ij,ji->', s_j, v_precision_j)
-            res -= (v_scale_j *
-                    (x_bar_j - v_mu_j) @ v_precision_j @ (x_bar_j - v_mu_j)
-                    )
-        res -= dim * np.log(2 * np.pi) * self.var_k
+            res_j = _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
+            res_j -= dim / v_lambda_j
+            res_j -= v_scale_j * np.einsum('ij,ji->', s_j, v_precision_j)
+            res_j -= (v_scale_j *
+                      (x_bar_j - v_mu_j) @ v_precision_j @ (x_bar_j - v_mu_j)
+                      )
+            res_j -= dim * np.log(2 * np.pi)
+            res += n_j * res_j
         res /= 2
         return res
 
@@ -1081,7 +1082,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         return np.sum(self.var_d * np.log(self.var_d))
 
     def _e_loq_q_w(self):
-        return self.weight_model.variational_mean_log_p_w()
+        return self.weight_model.variational_mean_log_q_w()
 
     def _e_log_q_theta(self):
         dim = self.y.shape[1]
@@ -1090,8 +1091,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             _, v_lambda_j, v_precision_j, v_scale_j = vt_j
             res += _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
             res += dim * (np.log(v_lambda_j / (2 * np.pi)))
-            res -= _utils.entropy_wishart(v_precision_j, v_scale_j)
-        res += dim * self.var_k
+            res -= 2 * _utils.entropy_wishart(v_precision_j, v_scale_j)
+        res -= dim * self.var_k
         res /= 2
         return res
 
-- 
2.43.0


From 1d799949d2eb92f71ff5a507926a9a01ac49efbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 05/62] fix: expectations of the variational Dirichlet
 distribution weights

---
 .../weight_models/_dirichlet_distribution.py    | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index e7995e3..b728634 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -55,8 +55,11 @@ class DirichletDistribution(BaseWeight):
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
+        if j >= self.variational_k:
+            return -np.inf
         return mean_log_beta(self.variational_params[j],
-                             self.variational_params.sum())
+                             self.variational_params.sum() -
+                             self.variational_params[j])
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         if variational_d is None:
@@ -73,12 +76,10 @@ class DirichletDistribution(BaseWeight):
     def variational_mean_log_p_w(self):
         if self.variational_d is None:
             raise NotFittedError
-        log_sum_w_j = 0
-        for j in range(self.variational_k):
-            log_sum_w_j += self.variational_mean_log_w_j(j)
-        log_sum_w_j *= self.alpha.sum() - 1
         res = self._log_normalization_constant(self.alpha)
-        res += log_sum_w_j
+        for j in range(self.variational_k):
+            res += ((self.alpha[j] - 1) *
+                    self.variational_mean_log_w_j(j))
         return res
 
     def variational_mean_log_q_w(self):
@@ -94,12 +95,12 @@ class DirichletDistribution(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         return self.variational_params[j] / self.variational_params.sum()
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         alpha = self.variational_params.sum()
         if self.variational_params[j] <= 1:
-- 
2.43.0


From 888379a0a41eb997bdaa9dd71b08832a0c5ec5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 06/62] fix: expected log weights of the equal weighting model

---
 pyrichlet/weight_models/_equal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_equal.py b/pyrichlet/weight_models/_equal.py
index 46f2a2a..fd3c09f 100644
--- a/pyrichlet/weight_models/_equal.py
+++ b/pyrichlet/weight_models/_equal.py
@@ -25,7 +25,9 @@ class EqualWeighting(BaseWeight):
         self.variational_k = self.n
 
     def variational_mean_log_w_j(self, j):
-        return np.log(1 / self.n) * (j < self.n)
+        if j >= self.n:
+            return -np.inf
+        return np.log(1 / self.n)
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         _variational_d = variational_d
@@ -33,7 +35,7 @@ class EqualWeighting(BaseWeight):
             _variational_d = self.variational_d
             if _variational_d is None:
                 raise NotFittedError
-        return _variational_d.shape[1] * np.log(self.n)
+        return -_variational_d.shape[1] * np.log(self.n)
 
     def variational_mean_log_p_w(self):
         return 0
-- 
2.43.0


From 8e8aa61c8fa0ef2a040c3ec7b8312375b5846421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 07/62] fix: variational expectations of the frequency
 weighting model

---
 pyrichlet/weight_models/_frequency.py | 29 ++++++++++++++-------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index 05265fd..e62dcf4 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -25,9 +25,7 @@ class FrequencyWeighting(BaseWeight):
 
     def fit_variational(self, variational_d: np.ndarray):
         self.variational_d = variational_d
-        self.variational_k = variational_d.shape[1]
-        if self.variational_k == 0:
-            self.variational_k = self.n
+        self.variational_k = variational_d.shape[0]
 
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
@@ -35,18 +33,21 @@ class FrequencyWeighting(BaseWeight):
         if j >= self.variational_k:
             return -np.inf
         if self.variational_d.shape[1]:
-            return self.variational_d.sum(1)[j] / self.variational_d.sum()
+            with np.errstate(divide='ignore'):
+                return np.log(self.variational_d.sum(1)[j] /
+                              self.variational_d.sum())
         return np.log(1 / self.variational_k)
 
     def variational_mean_log_p_d__w(self, variational_d=None):
+        if self.variational_d is None:
+            raise NotFittedError
         if variational_d is None:
-            if self.variational_d is None:
-                raise NotFittedError
             variational_d = self.variational_d
-        else:
-            self.variational_d = variational_d
-        return np.sum(variational_d.sum(1) * np.log(self.variational_d.sum(1) /
-                                                    self.variational_d.sum()))
+        res = 0
+        for j, nj in enumerate(np.sum(variational_d, 1)):
+            if nj > 0:
+                res += nj * self.variational_mean_log_w_j(j)
+        return res
 
     def variational_mean_log_p_w(self):
         if self.variational_d is None:
@@ -61,9 +62,9 @@ class FrequencyWeighting(BaseWeight):
     def variational_mean_w_j(self, j):
         if j >= self.variational_k:
             return 0
-        return self.variational_d.sum(1)[j] / self.variational_d.sum()
+        if self.variational_d.shape[1]:
+            return self.variational_d.sum(1)[j] / self.variational_d.sum()
+        return 1 / self.variational_k
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
-            return 0
-        return self.variational_d.sum(1)[j] / self.variational_d.sum()
+        return self.variational_mean_w_j(j)
-- 
2.43.0


From 6ebf779edaa7b132741bb226f09236ee1ea41bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 08/62] fix: count only the free sticks in the Dirichlet
 process mean log prior

---
 pyrichlet/weight_models/_dirichlet_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index c493052..318d09e 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -99,7 +99,7 @@ class DirichletProcess(BaseWeight):
         for params in self.variational_params[:-1]:
             res += mean_log_beta(params[1], params[0])
         res *= self.alpha - 1
-        res += self.variational_k * np.log(self.alpha)
+        res += (self.variational_k - 1) * np.log(self.alpha)
         return res
 
     def variational_mean_log_q_w(self):
-- 
2.43.0


From 11aeb2b6eb6fe60b1ea9eb17b6ecec5ad903d6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 09/62] fix: Pitman-Yor sticks are Beta(1 - d, alpha + j d) for
 j = 1, 2, ...

---
 pyrichlet/weight_models/_pitman_yor_process.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 718211b..a8ef0ec 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -17,12 +17,12 @@ class PitmanYorProcess(BaseWeight):
 
     def weighting_log_likelihood(self):
         v = self.w[0]
-        ret = log_likelihood_beta(v, 1 - self.pyd, self.alpha)
+        ret = log_likelihood_beta(v, 1 - self.pyd, self.alpha + self.pyd)
         prod_v = 1 - v
         for j in range(1, len(self.w)):
             v = self.w[j] / prod_v
             ret += log_likelihood_beta(v, 1 - self.pyd,
-                                       self.alpha + j * self.pyd)
+                                       self.alpha + (j + 1) * self.pyd)
             prod_v *= (1 - v)
         return ret
 
@@ -30,7 +30,7 @@ class PitmanYorProcess(BaseWeight):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if len(self.d) == 0:
-            pitman_yor_bias = np.arange(size)
+            pitman_yor_bias = 1 + np.arange(size)
             self.v = self._rng.beta(a=1 - self.pyd,
                                     b=self.alpha + pitman_yor_bias * self.pyd,
                                     size=size)
@@ -44,7 +44,7 @@ class PitmanYorProcess(BaseWeight):
                 a_c = a_c[:size]
                 b_c = b_c[:size]
 
-            pitman_yor_bias = np.arange(len(a_c))
+            pitman_yor_bias = 1 + np.arange(len(a_c))
             self.v = self._rng.beta(
                 a=1 - self.pyd + a_c,
                 b=self.alpha + pitman_yor_bias * self.pyd + b_c
@@ -58,7 +58,7 @@ class PitmanYorProcess(BaseWeight):
     def complete(self, size):
         super().complete(size)
         if self.get_size() < size:
-            pitman_yor_bias = np.arange(self.get_size(), size)
+            pitman_yor_bias = 1 + np.arange(self.get_size(), size)
             self.v = np.concatenate(
                 (
                     self.v,
-- 
2.43.0


From b6496f36675976a2c34946ec93b966b8b5fc8697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 10/62] fix: truncate the variational Pitman-Yor process as
 documented

The base class documents that q fixes the last stick to one; as it was the
expected weights did not sum to one, the variational density did not
integrate to one, and the mean log prior used the wrong constant.
---
 .../weight_models/_pitman_yor_process.py      | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index a8ef0ec..ec39a93 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -85,13 +85,15 @@ class PitmanYorProcess(BaseWeight):
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
+        if j >= self.variational_k:
+            return -np.inf
         res = 0
         for jj in range(j):
             res += mean_log_beta(self.variational_params[jj][1],
                                  self.variational_params[jj][0])
-        res += mean_log_beta(self.variational_params[j, 0],
-                             self.variational_params[j, 1]
-                             )
+        if j < self.variational_k - 1:
+            res += mean_log_beta(self.variational_params[j, 0],
+                                 self.variational_params[j, 1])
         return res
 
     def variational_mean_log_p_d__w(self, variational_d=None):
@@ -110,13 +112,13 @@ class PitmanYorProcess(BaseWeight):
         if self.variational_d is None:
             raise NotFittedError
         res = 0
-        for j, params in enumerate(self.variational_params):
+        for j, params in enumerate(self.variational_params[:-1]):
             res += mean_log_beta(params[0], params[1]) * -self.pyd
             res += mean_log_beta(params[1], params[0]) * (
                     self.alpha + (j + 1) * self.pyd - 1
             )
             res += loggamma(self.alpha + j * self.pyd + 1)
-            res -= loggamma(self.alpha + (j + 1) * self.pyd + 1)
+            res -= loggamma(self.alpha + (j + 1) * self.pyd)
             res -= loggamma(1 - self.pyd)
         return res
 
@@ -124,7 +126,7 @@ class PitmanYorProcess(BaseWeight):
         if self.variational_d is None:
             raise NotFittedError
         res = 0
-        for params in self.variational_params:
+        for params in self.variational_params[:-1]:
             res += (params[0] - 1) * mean_log_beta(params[0], params[1])
             res += (params[1] - 1) * mean_log_beta(params[1], params[0])
             res += loggamma(params[0] + params[1])
@@ -132,17 +134,19 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         res = 1
         for jj in range(j):
             res *= (self.variational_params[jj][1] /
                     self.variational_params[jj].sum())
-        res *= self.variational_params[j, 0] / self.variational_params[j].sum()
+        if j < self.variational_k - 1:
+            res *= self.variational_params[j, 0] / self.variational_params[
+                j].sum()
         return res
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         res = 1
         for jj in range(j):
@@ -155,7 +159,8 @@ class PitmanYorProcess(BaseWeight):
                 continue
             res *= ((self.variational_params[jj, 1] - 1) /
                     (self.variational_params[jj].sum() - 2))
-
+        if j == self.variational_k - 1:
+            return res
         if self.variational_params[j, 0] <= 1:
             if self.variational_params[j, 1] <= 1:
                 raise ValueError('multimodal distribution')
-- 
2.43.0


From c602fbca2b4a81084076a9bd4be17c2bf1e00d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 11/62] fix: truncate the variational geometric process as
 documented

The base class documents that q fixes the last stick to one. The fitted
parameters counted N - 1 trials, the mean log likelihood ignored the label,
the expected weight was a plug-in value (1 or None beyond the truncation),
so that the variational density did not integrate to one.
---
 pyrichlet/weight_models/_geometric_process.py | 51 ++++++++++---------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 66852a5..37a73e8 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -3,7 +3,7 @@ from ..exceptions import NotFittedError
 from ..utils.functions import mean_log_beta, log_likelihood_beta
 
 import numpy as np
-from scipy.special import loggamma
+from scipy.special import betaln, loggamma
 
 
 class GeometricProcess(BaseWeight):
@@ -48,8 +48,7 @@ class GeometricProcess(BaseWeight):
         self.variational_d = variational_d
         self.variational_k = len(self.variational_d)
         self.variational_params = np.empty(2, dtype=np.float64)
-        self.variational_params[0] = self.a + max(len(self.variational_d[0]),
-                                                  1) - 1
+        self.variational_params[0] = self.a + self.variational_d[:-1].sum()
         self.variational_params[1] = (
                 self.b + (self.variational_d[1:].T *
                           range(1, self.variational_k)).sum()
@@ -58,9 +57,13 @@ class GeometricProcess(BaseWeight):
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        res = mean_log_beta(self.variational_params[0],
-                            self.variational_params[1]
-                            )
+        if j >= self.variational_k:
+            return -np.inf
+        res = 0
+        if j < self.variational_k - 1:
+            res += mean_log_beta(self.variational_params[0],
+                                 self.variational_params[1]
+                                 )
         if j > 0:
             res += mean_log_beta(self.variational_params[1],
                                  self.variational_params[0]
@@ -74,14 +77,9 @@ class GeometricProcess(BaseWeight):
                 raise NotFittedError
         else:
             _variational_d = variational_d
-        res = mean_log_beta(self.variational_params[0],
-                            self.variational_params[1]
-                            ) * len(_variational_d[0])
-        e_log_v_bar = mean_log_beta(self.variational_params[1],
-                                    self.variational_params[0]
-                                    )
+        res = 0
         for j, nj in enumerate(np.sum(_variational_d, 1)):
-            res += nj * e_log_v_bar
+            res += nj * self.variational_mean_log_w_j(j)
         return res
 
     def variational_mean_log_p_w(self):
@@ -106,21 +104,28 @@ class GeometricProcess(BaseWeight):
 
     def variational_mean_w_j(self, j):
         if j >= self.variational_k:
-            return 1
-        p = self.variational_params[0] / self.variational_params.sum()
-        return p * (1 - p) ** j
+            return 0
+        a, b = self.variational_params
+        if j < self.variational_k - 1:
+            return np.exp(betaln(a + 1, b + j) - betaln(a, b))
+        return np.exp(betaln(a, b + j) - betaln(a, b))
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
-            return
+        if j >= self.variational_k:
+            return 0
+        if self.variational_k == 1:
+            return 1
         if self.variational_params[0] <= 1:
             if self.variational_params[1] <= 1:
                 raise ValueError('multimodal distribution')
             else:
-                return 0
+                p = 0
         elif self.variational_params[1] <= 1:
-            return 1 * (j == 0)
-        p = ((self.variational_params[0] - 1) /
-             (self.variational_params.sum() - 2))
-        res = (1 - p) ** j * p
+            p = 1
+        else:
+            p = ((self.variational_params[0] - 1) /
+                 (self.variational_params.sum() - 2))
+        res = (1 - p) ** j
+        if j < self.variational_k - 1:
+            res *= p
         return res
-- 
2.43.0


From 7a3b5984f2d995df975b97bd6163975f97fc2952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 12/62] fix: random_assignment without a size

---
 pyrichlet/weight_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 9ce64d7..6b10347 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -155,7 +155,7 @@ class BaseWeight(ABC):
         inverse_sampling = np.greater.outer(
             u, self.get_normalized_cumulative_weights()
         )
-        return np.sum(inverse_sampling, axis=1)
+        return np.sum(inverse_sampling, axis=-1)
 
     def fit_variational(self, variational_d):
         """Fits the variational distribution q
-- 
2.43.0


From 34594878863bacdd5e2e83749c3b608e1661a20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 13/62] fix: geometric process tail must reach the requested
 mass

The number of weights was rounded down, so the sum of the returned weights
was always below x (and the array could be empty).
---
 pyrichlet/weight_models/_geometric_process.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 37a73e8..758cdfc 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -40,9 +40,10 @@ class GeometricProcess(BaseWeight):
     def tail(self, x):
         if x >= 1 or x < 0:
             raise ValueError("Tail parameter not in range [0,1)")
-        size = int(np.log(1 - x) / np.log(1 - self.p))
-        self.complete(size)
-        return self.w
+        with np.errstate(divide='ignore'):
+            size = int(np.ceil(np.log1p(-x) / np.log1p(-self.p)))
+        self.complete(max(size, 1))
+        return super().tail(x)
 
     def fit_variational(self, variational_d):
         self.variational_d = variational_d
-- 
2.43.0


From 8fc95cb2942c5015cc59e63ab71c4e2f7e4ffccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 14/62] fix: draw p of Beta-in-Beta once per realization

The misplaced parenthesis left p at its initial value for the first weights
and redrew it in the middle of a realization.
---
 pyrichlet/weight_models/_beta_in_beta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index a685a1a..40fb180 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -74,7 +74,7 @@ class BetaInBeta(BaseWeight):
 
     def complete(self, size):
         super().complete(size)
-        if len(self.v == 0):
+        if len(self.v) == 0:
             self.random_p()
         if len(self.v) < size:
             if self.x < 1:
-- 
2.43.0


From 4b2210b2a60ca1fc0cd25038b4007025d18240f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 15/62] fix: Beta-in-Beta p must be drawn before discarding the
 sticks

The max-likelihood and inverse-sampling methods condition on the sticks but
these had already been emptied.
---
 pyrichlet/weight_models/_beta_in_beta.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 40fb180..e870ecc 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -42,12 +42,13 @@ class BetaInBeta(BaseWeight):
     def random(self, size=None):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
+        if len(self.d) > 0 and self.x > 0:
+            # p is drawn given the sticks of the current realization
+            self.random_p()
         self.v = self.v[:0]
         if len(self.d) == 0:
             self.complete(size)
         else:
-            if self.x > 0:
-                self.random_p()
             a_c = np.bincount(self.d)
             b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
 
-- 
2.43.0


From 300ca068afa815a7b8dd1972ff2050bf52a88281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 16/62] fix: Beta-in-Beta weighting log-likelihood at x = 0 and
 x = 1

---
 pyrichlet/weight_models/_beta_in_beta.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index e870ecc..d5a7829 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -24,6 +24,9 @@ class BetaInBeta(BaseWeight):
         self._validate_params()
 
     def weighting_log_likelihood(self):
+        if self.x == 1:
+            # every stick equals p
+            return self._internal_beta_log_likelihood()
         v = self.w[0]
         beta_a = 1 + self.x / (1 - self.x) * self.p
         beta_b = self.alpha + self.x / (1 - self.x) * (1 - self.p)
@@ -33,7 +36,8 @@ class BetaInBeta(BaseWeight):
             v = wj / prod_v
             ret += log_likelihood_beta(v, beta_a, beta_b)
             prod_v *= (1 - v)
-        ret += self._internal_beta_log_likelihood()
+        if self.x > 0:
+            ret += self._internal_beta_log_likelihood()
         return ret
 
     def _internal_beta_log_likelihood(self):
-- 
2.43.0


From 5eaf1b9a1eced740d82dbf39b4df1061f83d49de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 17/62] fix: implement the accepted Beta-in-Beta p method
 "rejection-sampling"

---
 pyrichlet/weight_models/_beta_in_beta.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index d5a7829..d9d4c0d 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.optimize import minimize, brentq
+from scipy.optimize import minimize, minimize_scalar, brentq
 from scipy.integrate import quad
 from scipy.stats import beta
 
@@ -140,6 +140,19 @@ class BetaInBeta(BaseWeight):
             except ValueError:
                 pass
             return self.p
+        elif self.p_method == "rejection-sampling":
+            # The log-likelihood is concave in p, propose from the prior
+            max_ll = minimize_scalar(
+                lambda p: -self._weight_log_likelihood(p=p),
+                bounds=(0, 1), method="bounded").x
+            max_ll = max(self._weight_log_likelihood(p=p)
+                         for p in (0, max_ll, 1))
+            p = self._rng.beta(a=self.a, b=self.b)
+            while (np.log(self._rng.uniform()) >
+                   self._weight_log_likelihood(p=p) - max_ll):
+                p = self._rng.beta(a=self.a, b=self.b)
+            self.p = p
+            return self.p
         else:
             raise ValueError(f"unknown p-method")
 
-- 
2.43.0


From bc154dc7d6bc0eb346448b3c399917a53ad14d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 18/62] fix: weights completed after a fit follow the posterior

BaseWeight.fit documents that tail and complete draw from the posterior
distribution, but sticks appended to an empty or truncated realization
ignored the fitted labels.
---
 pyrichlet/weight_models/_base.py               | 10 ++++++++++
 pyrichlet/weight_models/_beta_in_beta.py       |  6 +++---
 pyrichlet/weight_models/_dirichlet_process.py  |  4 ++--
 pyrichlet/weight_models/_geometric_process.py  | 16 +++++++++++++---
 pyrichlet/weight_models/_pitman_yor_process.py |  7 +++++--
 5 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 6b10347..34d231a 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -132,6 +132,16 @@ class BaseWeight(ABC):
         """Resets the conditional vector `d` to None"""
         self.d = np.array([], dtype=np.int64)
 
+    def _label_counts(self, start, stop):
+        """Returns the number of fitted labels equal to and greater than each
+        of the integers in `range(start, stop)`"""
+        a_c = np.zeros(stop, dtype=np.int64)
+        b_c = a_c
+        if len(self.d) > 0:
+            a_c = np.bincount(self.d, minlength=stop)
+            b_c = len(self.d) - np.cumsum(a_c)
+        return a_c[start:stop], b_c[start:stop]
+
     def get_weights(self):
         """Returns the last weighting structure drawn"""
         return self.w
diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index d9d4c0d..ac93967 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -83,10 +83,10 @@ class BetaInBeta(BaseWeight):
             self.random_p()
         if len(self.v) < size:
             if self.x < 1:
+                a_c, b_c = self._label_counts(len(self.v), size)
                 concat_value = self._rng.beta(
-                    a=1 + self.x / (1 - self.x) * self.p,
-                    b=self.alpha + self.x / (1 - self.x) * (1 - self.p),
-                    size=size - len(self.v)
+                    a=1 + self.x / (1 - self.x) * self.p + a_c,
+                    b=self.alpha + self.x / (1 - self.x) * (1 - self.p) + b_c
                 )
             else:
                 concat_value = np.repeat(self.p, size - len(self.v))
diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index 318d09e..117e2c6 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -49,9 +49,9 @@ class DirichletProcess(BaseWeight):
     def complete(self, size):
         super().complete(size)
         if len(self.v) < size:
+            a_c, b_c = self._label_counts(len(self.v), size)
             self.v = np.concatenate(
-                (self.v,
-                 self._rng.beta(a=1, b=self.alpha, size=size - len(self.v))))
+                (self.v, self._rng.beta(a=1 + a_c, b=self.alpha + b_c)))
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
         return self.w
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 758cdfc..5761241 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -24,22 +24,32 @@ class GeometricProcess(BaseWeight):
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if size is None:
             size = max(self.d) + 1
+        super().complete(size)
         self.v = self.v[:0]
-        self.p = self._rng.beta(self.a + len(self.d), self.b + self.d.sum())
-        self.complete(size)
+        self._random_p()
+        self._extend(size)
         return self.w
 
     def complete(self, size):
         super().complete(size)
+        if len(self.v) == 0 and len(self.d) > 0:
+            self._random_p()
+        self._extend(size)
+        return self.w
+
+    def _random_p(self):
+        self.p = self._rng.beta(self.a + len(self.d), self.b + self.d.sum())
+
+    def _extend(self, size):
         if len(self.v) < size:
             self.v = np.repeat(self.p, size)
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
-        return self.w
 
     def tail(self, x):
         if x >= 1 or x < 0:
             raise ValueError("Tail parameter not in range [0,1)")
+        self.complete(1)
         with np.errstate(divide='ignore'):
             size = int(np.ceil(np.log1p(-x) / np.log1p(-self.p)))
         self.complete(max(size, 1))
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index ec39a93..067f397 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -59,11 +59,14 @@ class PitmanYorProcess(BaseWeight):
         super().complete(size)
         if self.get_size() < size:
             pitman_yor_bias = 1 + np.arange(self.get_size(), size)
+            a_c, b_c = self._label_counts(self.get_size(), size)
             self.v = np.concatenate(
                 (
                     self.v,
-                    self._rng.beta(a=1 - self.pyd,
-                                   b=self.alpha + pitman_yor_bias * self.pyd)
+                    self._rng.beta(
+                        a=1 - self.pyd + a_c,
+                        b=self.alpha + pitman_yor_bias * self.pyd + b_c
+                    )
                 )
             )
             self.w = self.v * np.cumprod(np.concatenate(([1],
-- 
2.43.0


From 6d9cca41a8811341248529a699f768fcf0d739a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 19/62] fix: Beta-in-Dirichlet complete and random honour their
 contract

complete returned None and ignored fitted labels on an empty realization,
random ignored the requested size once fitted and kept the ties of earlier
prior realizations.
---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 2c92567..8be3c63 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -33,6 +33,7 @@ class BetaInDirichlet(BaseWeight):
         self.v = self.v[:0]
         self._v_base = self._v_base[:0]
         if len(self.d) == 0:
+            self._d_base = self._d_base[:0]
             self.complete(size)
             return self.w
         n = max(self.d) + 1
@@ -99,9 +100,14 @@ class BetaInDirichlet(BaseWeight):
         self.v = self._v_base[self._d_base]
         self.w = self.v * np.cumprod(np.concatenate(([1],
                                                      1 - self.v[:-1])))
+        if size is not None:
+            self.complete(size)
         return self.w
 
     def complete(self, size):
+        super().complete(size)
+        if len(self.v) == 0 and len(self.d) > 0:
+            self.random()
         if len(self._v_base) == 0:
             self._v_base = self._rng.beta(1, self.alpha, size=1)
             self._count_base = [1]
@@ -120,3 +126,4 @@ class BetaInDirichlet(BaseWeight):
             self._d_base = np.append(self._d_base, jj)
         self.w = self.v * np.cumprod(np.concatenate(([1],
                                                      1 - self.v[:-1])))
+        return self.w
-- 
2.43.0


From d2330f01025cdff3935343a8f9d8f432fa0f5bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 20/62] fix: Beta-in-Dirichlet inner Gibbs step

A new inner weight was weighed without the normalizing constant of its
Beta(1, alpha) prior and then drawn from that prior (or an unrelated stale
value was used) instead of its posterior, and the step failed with a single
label.
---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 8be3c63..8a9654b 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -63,15 +63,16 @@ class BetaInDirichlet(BaseWeight):
                     self._d_base = np.append(self._d_base, 0)
                 continue
             d_base_reduced = np.delete(self._d_base, j)
-            k = np.max(d_base_reduced)
+            k = np.max(d_base_reduced, initial=-1)
             log_prob = []
-            new_base = False
+            new_base = None
             for dd in range(k + 2):
                 base_count = sum(d_base_reduced == dd)
-                if base_count == 0 and not new_base:
-                    new_base = True
+                if base_count == 0 and new_base is None:
+                    new_base = dd
                     temp_log_prob = (
-                            np.log(self.a) + loggamma(1 + a_c[j])
+                            np.log(self.a) + np.log(self.alpha)
+                            + loggamma(1 + a_c[j])
                             + loggamma(self.alpha + b_c[j])
                             - loggamma(1 + self.alpha + a_c[j] + b_c[j]))
                     log_prob.append(temp_log_prob)
@@ -92,9 +93,11 @@ class BetaInDirichlet(BaseWeight):
                 self._d_base = np.append(self._d_base,
                                          gumbel_max_sampling(log_prob,
                                                              rng=self._rng))
-            if max(self._d_base) <= len(self._v_base):
-                self._v_base = np.concatenate((
-                    self._v_base, [self._rng.beta(a=1, b=self.alpha)]))
+            if self._d_base[j] == new_base:
+                # A new inner weight is drawn given what it has to explain
+                self._v_base = np.append(self._v_base[:new_base], np.append(
+                    self._rng.beta(a=1 + a_c[j], b=self.alpha + b_c[j]),
+                    self._v_base[new_base + 1:]))
         self._count_base = [
             np.sum(self._d_base == j) for j in range(len(self._v_base))]
         self.v = self._v_base[self._d_base]
-- 
2.43.0


From 80c0808fb93db47e4b4a79c73be44d59fe4b57ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 21/62] fix: Beta-Bernoulli posterior draws and log-likelihood

The conditional of the changes ignored the Beta(1, alpha) prior and half of
the sticks involved, divided inf by inf whenever the last label was tied to
the previous one (ValueError), skipped the last change and restarted from the
prior at every draw. The log-likelihood counted the sticks that did not
change instead of those that did and no probability for unchanged ones.
---
 pyrichlet/weight_models/_beta_bernoulli.py | 72 ++++++++++------------
 1 file changed, 32 insertions(+), 40 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 9e4255c..28722c2 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -1,6 +1,6 @@
 from ._base import BaseWeight
 import numpy as np
-from scipy.special import beta as betaf
+from scipy.special import betaln, expit, xlogy, xlog1py
 
 from ..utils.functions import log_likelihood_beta
 
@@ -19,17 +19,13 @@ class BetaBernoulli(BaseWeight):
         return ret
 
     def _bernoulli_structure_log_likelihood(self):
-        ret = 0
-        if self.p == 0:
-            return ret
-        for b in self.bernoullis:
-            ret += b * np.log(self.p)
-        return ret
+        b = self.bernoullis[1:]
+        return np.sum(xlogy(b, self.p) + xlog1py(1 - b, -self.p))
 
     def _beta_structure_log_likelihood(self):
         ret = log_likelihood_beta(self.v[0], 1, self.alpha)
         for j in range(1, len(self.v)):
-            if not self.bernoullis[j]:
+            if self.bernoullis[j]:
                 ret += log_likelihood_beta(self.v[j], 1, self.alpha)
         return ret
 
@@ -67,6 +63,8 @@ class BetaBernoulli(BaseWeight):
 
     def complete(self, size):
         super().complete(size)
+        if len(self.v) == 0 and len(self.d) > 0:
+            self.random()
         if len(self.v) < size:
             if len(self.v) == 0:
                 self.v = self._rng.beta(a=1, b=self.alpha, size=1)
@@ -84,37 +82,31 @@ class BetaBernoulli(BaseWeight):
         return self.w
 
     def _random_bernoullis(self, size):
-        bernoullis = self._rng.binomial(n=1, p=self.p, size=size)
-        self.bernoullis[0] = 1
-        if len(self.d) > 0:
-            size_fit = self.d.max()
-            a_c = np.bincount(self.d)
-            b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
-            bernoullis[0] = 0
-            for j in range(1, size_fit):
-                a_j_prime, b_j_prime, g_plus = 0, 0, 1
-                k = j + 1
-                for b in bernoullis[j + 1:]:
-                    if b == 1:
-                        break
-                    a_j_prime += a_c[k]
-                    b_j_prime += b_c[k]
-                    k += 1
-                    g_plus = betaf(a_j_prime, b_j_prime) * self.alpha
-                a_j_prime += a_c[j]
-                b_j_prime += b_c[j]
-                k = j - 1
-                for b in bernoullis[:j][::-1]:
-                    if b == 1:
-                        break
-                    a_j_prime += a_c[k]
-                    b_j_prime += b_c[k]
-                    k -= 1
-                g_minus = betaf(a_j_prime, b_j_prime) * self.alpha
-                p = self.p
-                p_times_plus = p * g_plus if p > 0 else 0
-                not_p_times_minus = (1 - p) * g_minus if p < 1 else 0
-                p = p_times_plus / (p_times_plus + not_p_times_minus)
-                bernoullis[j] = self._rng.binomial(n=1, p=p)
+        if len(self.d) == 0:
+            self.bernoullis = self._rng.binomial(n=1, p=self.p, size=size)
+            return self.bernoullis
+        # Gibbs sweep over the changes of the current realization, with the
+        # values of `self.v` integrated out
+        bernoullis = self.bernoullis[:size]
+        bernoullis = np.concatenate((
+            bernoullis,
+            self._rng.binomial(n=1, p=self.p, size=size - len(bernoullis))))
+        bernoullis[0] = 0
+        a_c, b_c = self._label_counts(0, size)
+        with np.errstate(divide='ignore'):
+            log_p = np.log(self.p) + np.log(self.alpha)
+            log_not_p = np.log1p(-self.p)
+        for j in range(1, size):
+            changes = np.flatnonzero(bernoullis)
+            start = max(changes[changes < j], default=0)
+            stop = min(changes[changes > j], default=size)
+            a_l, b_l = a_c[start:j].sum(), b_c[start:j].sum()
+            a_r, b_r = a_c[j:stop].sum(), b_c[j:stop].sum()
+            log_change = (log_p + betaln(1 + a_l, self.alpha + b_l) +
+                          betaln(1 + a_r, self.alpha + b_r))
+            log_keep = log_not_p + betaln(1 + a_l + a_r,
+                                          self.alpha + b_l + b_r)
+            bernoullis[j] = self._rng.binomial(
+                n=1, p=expit(log_change - log_keep))
         self.bernoullis = bernoullis
         return self.bernoullis
-- 
2.43.0


From 88e3d20a0c0c1dbd89cbbe8a270164d70b0fae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 22/62] fix: Beta-Binomial log-likelihood skipped the first
 stick

---
 pyrichlet/weight_models/_beta_binomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 4601f7d..4e0b376 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -17,8 +17,8 @@ class BetaBinomial(BaseWeight):
     def weighting_log_likelihood(self):
         b = self.binomials[0]
         res = log_likelihood_beta_binom(b, self.n, 1, self.alpha)
-        for j in range(1, len(self.v) - 1):
-            v = self.v[j]
+        for j in range(1, len(self.v)):
+            v = self.v[j - 1]
             res += log_likelihood_beta(v, 1 + b,
                                        self.alpha + self.n - b)
             b = self.binomials[j]
-- 
2.43.0


From edf228d4e2320a1c1a14815a60915f40308bf14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 23/62] fix: Beta-Binomial posterior draws

The binomials were drawn ignoring the sticks next to them, so for n > 0 the
draws did not follow the posterior; fitted labels were ignored when completing
an empty realization.
---
 pyrichlet/weight_models/_beta_binomial.py | 41 ++++++++++++++++-------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 4e0b376..7fa7890 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -1,6 +1,8 @@
 from ._base import BaseWeight
 import numpy as np
+from scipy.special import betaln, xlogy
 
+from ..mixture_models._utils import gumbel_max_sampling
 from ..utils.functions import log_likelihood_beta, log_likelihood_beta_binom, \
     log_likelihood_binom
 
@@ -34,16 +36,22 @@ class BetaBinomial(BaseWeight):
                 raise ValueError(
                     "Weight structure not fitted and `n` not passed.")
             size = 1
-        self.v = self.v[:0]
         if len(self.d) == 0:
+            self.v = self.v[:0]
             self.complete(size)
         else:
+            n_sticks = self.d.max() + 1
+            self._extend(n_sticks)
+            self.v = self.v[:n_sticks]
             self._random_binomials()
-            a_c = np.bincount(self.d)
-            b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
-            beta_phased = self.binomials[:-1] + self.binomials[1:]
+            a_c, b_c = self._label_counts(0, n_sticks)
+            # Each stick has the binomials before and after it as neighbours
+            # but the last one, which only has the one before
+            beta_phased = np.append(self.binomials[:-1] + self.binomials[1:],
+                                    self.binomials[-1])
+            n_phased = np.append(np.repeat(2 * self.n, n_sticks - 1), self.n)
             a = 1 + a_c + beta_phased
-            b = self.alpha + b_c + 2 * self.n - beta_phased
+            b = self.alpha + b_c + n_phased - beta_phased
             self.v = self._rng.beta(a=a, b=b)
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
@@ -53,6 +61,12 @@ class BetaBinomial(BaseWeight):
 
     def complete(self, size):
         super().complete(size)
+        if len(self.v) == 0 and len(self.d) > 0:
+            self.random()
+        self._extend(size)
+        return self.w
+
+    def _extend(self, size):
         if len(self.v) == 0:
             v0 = self._rng.beta(1, self.alpha)
             self.binomials = self._rng.binomial(self.n, v0, size=1)
@@ -69,13 +83,16 @@ class BetaBinomial(BaseWeight):
             )
         self.w = self.v * np.cumprod(np.concatenate(([1],
                                                      1 - self.v[:-1])))
-        return self.w
 
     def _random_binomials(self):
-        a_c = np.bincount(self.d)
-        b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
-        a_c = np.append(0, a_c)
-        b_c = np.append(0, b_c)
-        beta_rv = self._rng.beta(1 + a_c, self.alpha + b_c)
-        self.binomials = self._rng.binomial(self.n, beta_rv)
+        # Draws each binomial given the sticks before and after it
+        v_prev, v_next = self.v[:-1], self.v[1:]
+        b = np.arange(self.n + 1)[:, None]
+        log_prob = (-betaln(1 + b, 1 + self.n - b)
+                    - betaln(1 + b, self.alpha + self.n - b)
+                    + xlogy(b, v_prev * v_next)
+                    + xlogy(self.n - b, (1 - v_prev) * (1 - v_next)))
+        self.binomials = np.append(
+            self._rng.binomial(self.n, self.v[0]),
+            gumbel_max_sampling(log_prob, rng=self._rng))
         return self.binomials
-- 
2.43.0


From 4ad4116637bb0f5d7c1df546ac2b26d6a911ff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 24/62] fix: Beta-in-Dirichlet inner weights equal to 0 or 1
 gave NaN probabilities

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 8a9654b..53b9b9c 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.special import loggamma
+from scipy.special import loggamma, xlogy, xlog1py
 
 from ._base import BaseWeight
 from ..mixture_models._utils import gumbel_max_sampling
@@ -83,8 +83,8 @@ class BetaInDirichlet(BaseWeight):
                     continue
                 temp_log_prob = (
                         np.log(base_count)
-                        + a_c[j] * np.log(self._v_base[dd])
-                        + b_c[j] * np.log(1 - self._v_base[dd]))
+                        + xlogy(a_c[j], self._v_base[dd])
+                        + xlog1py(b_c[j], -self._v_base[dd]))
                 log_prob.append(temp_log_prob)
             log_prob = np.array(log_prob)
             if j < len(self._d_base):
-- 
2.43.0


From 84e76b4b4f22f27bd24825c9f3c4dad672d44f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 25/62] fix: Dirichlet distribution accepts any scalar or
 sequence alpha

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index b728634..a3a43fa 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -12,11 +12,10 @@ class DirichletDistribution(BaseWeight):
         super().__init__(rng=rng)
         assert type(n) == int, "parameter n must be of type int"
         self.n = n
-        if type(alpha) in (list, np.ndarray):
-            self.n = n
-            self.alpha = np.array(alpha, dtype=np.float64)
-        elif type(alpha) in (int, float):
+        if np.ndim(alpha) == 0:
             self.alpha = np.array([alpha] * self.n, dtype=np.float64)
+        else:
+            self.alpha = np.array(alpha, dtype=np.float64)
 
     def weighting_log_likelihood(self):
         if len(self.w) == 0:
-- 
2.43.0


From 4da82f81e2e29de19e358a916759e07d64339303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 26/62] fix: Series, numpy scalars and caller owned DataFrames
 as observations

---
 pyrichlet/mixture_models/_base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index dc286b3..7467194 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -706,10 +706,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         Initialize the prior variables if not given
         """
         if isinstance(y, pd.DataFrame):
-            self.y = y.to_numpy()
+            self.y = y.to_numpy(copy=True)
             self._column_names = y.columns
         elif isinstance(y, pd.Series):
-            self.y = y.to_numpy()
+            self.y = y.to_numpy(copy=True).reshape(-1, 1)
             if y.name is None:
                 self._column_names = np.array([0])
             else:
@@ -1102,6 +1102,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         else:
             if isinstance(y, pd.DataFrame):
                 _y = y.to_numpy()
+            elif isinstance(y, pd.Series):
+                _y = y.to_numpy().reshape(-1, 1)
             elif isinstance(y, list):
                 _y = np.array(y)
                 if _y.ndim == 1:
@@ -1112,7 +1114,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                     _y = y.reshape(-1, 1)
                 else:
                     _y = y
-            elif isinstance(y, (int, float)):
+            elif isinstance(y, (int, float, np.integer, np.floating)):
                 _y = np.array([[y]])
             else:
                 raise TypeError("Invalid type for variable y")
-- 
2.43.0


From 58af10c49dcc2d29b731c07d327da33bd26f4ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 27/62] fix: do not alias the caller's prior scale matrix

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 7467194..9eac530 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -738,7 +738,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if self.psi_prior is None:
             self.psi_prior = np.atleast_2d(np.cov(self.y.T))
         else:
-            self.psi_prior = np.atleast_2d(self.psi_prior)
+            self.psi_prior = np.array(self.psi_prior, ndmin=2)
         if self.nu_prior is None:
             self.nu_prior = self.y.shape[1]
 
-- 
2.43.0


From e729e1be72bf4ce6eb33792057af848b87aaa500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 28/62] fix: do not alias the caller's responsibilities

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 2 +-
 pyrichlet/weight_models/_dirichlet_process.py      | 2 +-
 pyrichlet/weight_models/_equal.py                  | 2 +-
 pyrichlet/weight_models/_frequency.py              | 2 +-
 pyrichlet/weight_models/_geometric_process.py      | 2 +-
 pyrichlet/weight_models/_pitman_yor_process.py     | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index a3a43fa..068965a 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -48,7 +48,7 @@ class DirichletDistribution(BaseWeight):
                                              "Dirichlet distribution's" \
                                              "dimension"
         self.variational_k = self.n
-        self.variational_d = variational_d
+        self.variational_d = np.array(variational_d)
         self.variational_params = self.alpha + np.sum(self.variational_d, 1)
 
     def variational_mean_log_w_j(self, j):
diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index 117e2c6..2f21ea6 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -57,7 +57,7 @@ class DirichletProcess(BaseWeight):
         return self.w
 
     def fit_variational(self, variational_d):
-        self.variational_d = variational_d
+        self.variational_d = np.array(variational_d)
         self.variational_k = len(self.variational_d)
         self.variational_params = np.empty((self.variational_k, 2),
                                            dtype=np.float64)
diff --git a/pyrichlet/weight_models/_equal.py b/pyrichlet/weight_models/_equal.py
index fd3c09f..2b6af27 100644
--- a/pyrichlet/weight_models/_equal.py
+++ b/pyrichlet/weight_models/_equal.py
@@ -20,7 +20,7 @@ class EqualWeighting(BaseWeight):
         return self.random(size)
 
     def fit_variational(self, variational_d: np.ndarray):
-        self.variational_d = variational_d
+        self.variational_d = np.array(variational_d)
         self.n = self.variational_d.shape[0]
         self.variational_k = self.n
 
diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index e62dcf4..e6081f7 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -24,7 +24,7 @@ class FrequencyWeighting(BaseWeight):
         return self.random(size)
 
     def fit_variational(self, variational_d: np.ndarray):
-        self.variational_d = variational_d
+        self.variational_d = np.array(variational_d)
         self.variational_k = variational_d.shape[0]
 
     def variational_mean_log_w_j(self, j):
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 5761241..ab5e812 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -56,7 +56,7 @@ class GeometricProcess(BaseWeight):
         return super().tail(x)
 
     def fit_variational(self, variational_d):
-        self.variational_d = variational_d
+        self.variational_d = np.array(variational_d)
         self.variational_k = len(self.variational_d)
         self.variational_params = np.empty(2, dtype=np.float64)
         self.variational_params[0] = self.a + self.variational_d[:-1].sum()
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 067f397..113c229 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -74,7 +74,7 @@ class PitmanYorProcess(BaseWeight):
         return self.w
 
     def fit_variational(self, variational_d):
-        self.variational_d = variational_d
+        self.variational_d = np.array(variational_d)
         self.variational_k = len(self.variational_d)
         self.variational_params = np.empty((self.variational_k, 2),
                                            dtype=np.float64)
-- 
2.43.0


From 8ce8a5ec6395170942267221341de66fd934fbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 29/62] fix: a variational fit must not change the size of
 equal weights

The truncation of the variational fit replaced the number of weights used by
later draws and Gibbs fits.
---
 pyrichlet/weight_models/_equal.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyrichlet/weight_models/_equal.py b/pyrichlet/weight_models/_equal.py
index 2b6af27..5c2900b 100644
--- a/pyrichlet/weight_models/_equal.py
+++ b/pyrichlet/weight_models/_equal.py
@@ -21,13 +21,15 @@ class EqualWeighting(BaseWeight):
 
     def fit_variational(self, variational_d: np.ndarray):
         self.variational_d = np.array(variational_d)
-        self.n = self.variational_d.shape[0]
-        self.variational_k = self.n
+        self.variational_k = self.variational_d.shape[0]
+
+    def _variational_size(self):
+        return self.n if self.variational_k is None else self.variational_k
 
     def variational_mean_log_w_j(self, j):
-        if j >= self.n:
+        if j >= self._variational_size():
             return -np.inf
-        return np.log(1 / self.n)
+        return np.log(1 / self._variational_size())
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         _variational_d = variational_d
@@ -35,7 +37,7 @@ class EqualWeighting(BaseWeight):
             _variational_d = self.variational_d
             if _variational_d is None:
                 raise NotFittedError
-        return -_variational_d.shape[1] * np.log(self.n)
+        return -_variational_d.shape[1] * np.log(self._variational_size())
 
     def variational_mean_log_p_w(self):
         return 0
@@ -44,7 +46,7 @@ class EqualWeighting(BaseWeight):
         return 0
 
     def variational_mean_w_j(self, j):
-        return 1 / self.n * (j < self.n)
+        return 1 / self._variational_size() * (j < self._variational_size())
 
     def variational_mode_w_j(self, j):
-        return 1 / self.n * (j < self.n)
+        return self.variational_mean_w_j(j)
-- 
2.43.0


From 231131d6598ddcbd77ba48f2619154a2305f0924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 30/62] fix: a cold start forgets the previous fit

The MAP state, the weights and labels of the weighting model and the prior
parameters deduced from the earlier data survived into the new fit.
---
 pyrichlet/mixture_models/_base.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 9eac530..649b01a 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -68,6 +68,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.lambda_prior = lambda_prior
         self.psi_prior = psi_prior
         self.nu_prior = nu_prior
+        self._data_priors = {}
 
         self.weight_model = weight_model
         self.y = np.array([])
@@ -133,7 +134,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             "variational": fits the variational distribution an uses the MAP
             parameters as initialization
         """
-        self._initialize_common_params(y)
+        self._initialize_common_params(y, warm_start=warm_start)
         if not warm_start:
             self._initialize_gibbs_params(init_groups=init_groups,
                                           method=init_method)
@@ -204,7 +205,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if show_progress is not None:
             self.show_progress = show_progress
-        self._initialize_common_params(y)
+        self._initialize_common_params(y, warm_start=warm_start)
         if not warm_start:
             if hasattr(self, 'n') and n_groups is None:
                 var_k = self.n
@@ -701,7 +702,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
     def get_sim_params(self):
         return self.sim_params
 
-    def _initialize_common_params(self, y):
+    def _initialize_common_params(self, y, warm_start=False):
         """
         Initialize the prior variables if not given
         """
@@ -731,16 +732,24 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         else:
             raise TypeError('Invalid type for variable y')
 
+        if not warm_start:
+            # Discard the prior parameters deduced from other observations
+            for name, value in self._data_priors.items():
+                if getattr(self, name) is value:
+                    setattr(self, name, None)
         if self.mu_prior is None:
             self.mu_prior = self.y.mean(axis=0)
-        else:
+            self._data_priors["mu_prior"] = self.mu_prior
+        elif self.mu_prior is not self._data_priors.get("mu_prior"):
             self.mu_prior = np.array(self.mu_prior)
         if self.psi_prior is None:
             self.psi_prior = np.atleast_2d(np.cov(self.y.T))
-        else:
+            self._data_priors["psi_prior"] = self.psi_prior
+        elif self.psi_prior is not self._data_priors.get("psi_prior"):
             self.psi_prior = np.array(self.psi_prior, ndmin=2)
         if self.nu_prior is None:
             self.nu_prior = self.y.shape[1]
+            self._data_priors["nu_prior"] = self.nu_prior
 
     def _initialize_gibbs_params(self, init_groups=None, method="kmeans"):
         """
@@ -777,6 +786,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.n_groups = []
         self.n_atoms = []
         self.total_saved_steps = 0
+        self.map_sim_params = None
+        self.map_log_likelihood = -np.inf
+        self.weight_model.reset()
+        self.weight_model.random(1)
 
         self.theta = defaultdict(atom_generator)
         self.affinity_matrix = np.zeros((len(self.y), len(self.y)))
-- 
2.43.0


From 113287c1f6f15d099b0f7191a5a8aa539add3342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 31/62] fix: every weight of a visited state has its atom

The MAP state could hold weights without atoms (KeyError in the MAP
queries) when it was the initial state.
---
 pyrichlet/mixture_models/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 649b01a..c37169f 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -871,6 +871,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.weight_model.fit_variational(self.var_d)
 
     def _get_run_params(self):
+        for j in range(self.weight_model.get_size()):
+            self.theta[j]  # draws the atom from the prior if missing
         return {"w": self.weight_model.get_weights(),
                 "theta": dict(self.theta),
                 "u": self.u,
-- 
2.43.0


From 55ef1495d0a963f6b3c2ae8e968681f5fd9c89f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 32/62] fix: marginal Gibbs densities for any index type, query
 and component

---
 pyrichlet/mixture_models/_base.py  | 12 +++++++++--
 pyrichlet/mixture_models/_utils.py | 33 ++++++++++++++++++++----------
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index c37169f..047b919 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -259,7 +259,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y)
+        _y = self._cast_marginal_observations(y, dim)
         y_sim = []
         if periods is None:
             sim_params = self.sim_params
@@ -295,7 +295,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y)
+        _y = self._cast_marginal_observations(y, dim)
         return _utils.mixture_density(_y,
                                       self.map_sim_params["w"],
                                       self.map_sim_params["theta"],
@@ -1111,6 +1111,14 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         res /= 2
         return res
 
+    def _cast_marginal_observations(self, y, dim):
+        _y = self._cast_observations(y)
+        if dim is None:
+            return _y
+        if y is None:
+            return _y[:, np.atleast_1d(dim)]
+        return _utils.marginal_observations(_y, dim, self.y.shape[1])
+
     def _cast_observations(self, y):
         if y is None:
             _y = self.y
diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 6cb1150..72f3b8a 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -1,4 +1,4 @@
-from scipy.stats import invwishart, multivariate_normal, norm
+from scipy.stats import invwishart, multivariate_normal
 from scipy.special import digamma, loggamma
 from sklearn.cluster import KMeans
 import numpy as np
@@ -61,32 +61,43 @@ def rejection_sample(f, max_y, a=0, b=1, size=None, *, rng=None):
         return x
 
 
+def marginal_observations(x, dim, n_features):
+    """Returns the columns of x over which the marginal in dim is evaluated
+
+    If x has as many columns as listed dimensions, they are the coordinates in
+    those dimensions. If x has all the features, the columns are selected.
+    """
+    dim = np.atleast_1d(dim)
+    if x.shape[1] != len(dim) and x.shape[1] == n_features:
+        return x[:, dim]
+    return x
+
+
 def mixture_density(x, w, theta, dim=None, component=None):
     k = len(w)
+    if dim is not None:
+        dim = np.atleast_1d(dim)
 
-    ret = []
     if component is None:
         iterator = range(k)
-    else:
+    elif component < k:
         iterator = [component]
+    else:
+        # This state has no such component
+        return np.zeros(len(x))
+    ret = []
     for j in iterator:
         if dim is None:
             ret.append(multivariate_normal.pdf(x,
                                                theta[j][0],
                                                theta[j][1],
                                                1)*w[j])
-        elif type(dim) in [list, np.ndarray]:
+        else:
             ret.append(multivariate_normal.pdf(x,
                                                theta[j][0][dim],
                                                theta[j][1][:, dim][dim, :],
                                                1)*w[j])
-        elif type(dim) is int:
-            ret.append(norm.pdf(x[:, 0],
-                                theta[j][0][dim],
-                                np.sqrt(theta[j][1][dim, dim]))*w[j])
-    ret = np.array(ret).T
-    ret = np.atleast_2d(ret).sum(1)
-    return ret
+    return np.reshape(ret, (len(ret), len(x))).sum(0)
 
 
 def cluster(x, w, theta):
-- 
2.43.0


From 40f0c37ca3be7f56c02ac088a00a409a84dcf22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 33/62] fix: marginals and default arguments of the variational
 densities

The marginal of a normal or Student-t has the inverse of the sub-block of
the covariance as its precision and keeps the degrees of freedom.
---
 pyrichlet/mixture_models/_base.py  | 30 ++++++++++++++----------------
 pyrichlet/mixture_models/_utils.py |  5 +++++
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 047b919..cdf41c2 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -511,13 +511,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_observations(y)
+        _y = self._cast_marginal_observations(y, dim)
+        n_feats = self.y.shape[1]
         if dim is None:
-            dim = np.arange(_y.shape[1])
-        if isinstance(dim, int):
-            len_dim = 1
-        else:
-            len_dim = len(dim)
+            dim = np.arange(n_feats)
+        dim = np.atleast_1d(dim)
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -526,12 +524,12 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         for j, vt_j in iterator:
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
             v_mu_j = v_mu_j[dim]
-            v_precision_j = v_precision_j[:, dim][dim, :]
+            v_precision_j = _utils.marginal_precision(v_precision_j, dim)
             f_x += density_students_t(
                 _y, v_mu_j,
                 v_precision_j * (v_scale_j + 1 -
-                                 len_dim) * v_lambda_j / (1 + v_lambda_j),
-                v_scale_j + 1 - len_dim
+                                 n_feats) * v_lambda_j / (1 + v_lambda_j),
+                v_scale_j + 1 - n_feats
             ) * self.weight_model.variational_mean_w_j(j)
         return f_x
 
@@ -553,11 +551,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_observations(y)
-        if isinstance(dim, int):
-            len_dim = 1
-        else:
-            len_dim = len(dim)
+        _y = self._cast_marginal_observations(y, dim)
+        n_feats = self.y.shape[1]
+        if dim is None:
+            dim = np.arange(n_feats)
+        dim = np.atleast_1d(dim)
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -566,9 +564,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         for j, vt_j in iterator:
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
             v_mu_j = v_mu_j[dim]
-            v_precision_j = v_precision_j[:, dim][dim, :]
+            v_precision_j = _utils.marginal_precision(v_precision_j, dim)
             map_mu = v_mu_j
-            map_precision = (v_scale_j - len_dim) * v_precision_j
+            map_precision = (v_scale_j - n_feats) * v_precision_j
             f_x += density_normal(_y, map_mu, map_precision
                                   ) * self.weight_model.variational_mode_w_j(j)
         return f_x
diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 72f3b8a..d2a6d0e 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -73,6 +73,11 @@ def marginal_observations(x, dim, n_features):
     return x
 
 
+def marginal_precision(precision, dim):
+    """Returns the precision matrix of the marginal distribution in dim"""
+    return np.linalg.inv(np.linalg.inv(precision)[:, dim][dim, :])
+
+
 def mixture_density(x, w, theta, dim=None, component=None):
     k = len(w)
     if dim is not None:
-- 
2.43.0


From 123fc2547c4a845e6bd728e5b2576a63f23fc4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 34/62] fix: MAP clustering of single points and of points far
 from every component

---
 pyrichlet/mixture_models/_utils.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index d2a6d0e..6210afe 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -106,20 +106,27 @@ def mixture_density(x, w, theta, dim=None, component=None):
 
 
 def cluster(x, w, theta):
+    grp, uncertainty = most_probable_component(x, w, theta)
+    u_grp, ret = np.unique(grp, return_inverse=True)
+    return ret, uncertainty
+
+
+def most_probable_component(x, w, theta):
     k = len(w)
-    assign_prob = []
+    log_prob = np.empty((len(x), k))
     for j in range(k):
-        assign_prob.append(multivariate_normal.pdf(x,
-                                                   theta[j][0],
-                                                   theta[j][1],
-                                                   1))
-    assign_prob = np.array(assign_prob).T
-    assign_prob = assign_prob * w
+        log_prob[:, j] = multivariate_normal.logpdf(x,
+                                                    theta[j][0],
+                                                    theta[j][1],
+                                                    1)
+    with np.errstate(divide='ignore'):
+        log_prob += np.log(w)
+    # Work in log scale, the density of far away points underflows
+    assign_prob = np.exp(log_prob - log_prob.max(axis=1)[:, None])
     assign_prob /= assign_prob.sum(1)[:, None]
-    grp = np.argmax(assign_prob, axis=1)
+    grp = np.argmax(log_prob, axis=1)
     uncertainty = 1 - assign_prob[range(len(x)), grp]
-    u_grp, ret = np.unique(grp, return_inverse=True)
-    return ret, uncertainty
+    return grp, uncertainty
 
 
 def log_wishart_normalization_term(precision, scale):
-- 
2.43.0


From b0566fcc54e09785359b32308ff41a54725b7d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 35/62] fix: variational clustering and affinity of new
 observations

---
 pyrichlet/mixture_models/_base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index cdf41c2..92696b6 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -594,8 +594,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             var_d = self.var_d
         else:
             _y = self._cast_observations(y)
-            dim = y.shape[1]
-            var_d = np.zeros((self.var_k, y.shape[0]), dtype=np.float64)
+            dim = _y.shape[1]
+            var_d = np.zeros((self.var_k, _y.shape[0]), dtype=np.float64)
             for j, vt_j in enumerate(self.var_theta):
                 v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
                 log_d_ji = self.weight_model.variational_mean_log_w_j(j)
@@ -604,8 +604,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 log_d_ji -= dim * np.log(2 * np.pi) / 2
                 log_d_ji -= dim / v_lambda_j / 2
                 log_d_ji -= (v_scale_j *
-                             ((y - v_mu_j).T * (
-                                     v_precision_j @ (y - v_mu_j).T)).sum(
+                             ((_y - v_mu_j).T * (
+                                     v_precision_j @ (_y - v_mu_j).T)).sum(
                                  0)
                              ) / 2
                 var_d[j, :] = log_d_ji
@@ -681,7 +681,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                                  v_precision_j @ (_y - v_mu_j).T)).sum(0)
                          )
             var_d[j, :] = log_d_ji
-        var_d -= var_d.mean(0)
+        var_d -= var_d.max(0)
         var_d = np.exp(var_d)
         var_d += np.finfo(np.float64).eps
         var_d /= var_d.sum(0)
@@ -689,7 +689,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             return var_d.argmax(0)
         else:
             d = var_d.argmax(0)
-            return d, var_d[d]
+            return d, 1 - var_d[d, range(len(d))]
 
     def get_n_groups(self):
         return self.n_groups
-- 
2.43.0


From 0c3694e293a62e7b5030b744ee14ee7216b359c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 36/62] fix: report the convergence of the last variational fit
 truly

---
 pyrichlet/mixture_models/_base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 92696b6..0b60e62 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -216,23 +216,22 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             self._initialize_variational_params(var_k=var_k,
                                                 init_method=init_method)
         elbo = -np.inf
-        elbo_diff = np.inf
         iterations = 0
+        self.var_converged = False
         t = None
         if self.show_progress:
             from tqdm import tqdm
             t = tqdm()
-        while elbo_diff > tol and iterations < self.total_iter:
+        while not self.var_converged and iterations < self.total_iter:
             self._maximize_variational()
             prev_elbo = elbo
             elbo = self._calc_elbo()
             elbo_diff = abs(prev_elbo - elbo)
+            self.var_converged = bool(elbo_diff <= tol)
             iterations += 1
             if t is not None:
                 t.update()
         self.var_fitted = True
-        if iterations < self.total_iter:
-            self.var_converged = True
 
     def gibbs_eap_density(self, y=None, dim=None, component=None,
                           periods=None):
-- 
2.43.0


From c9c3e559ef41f91ecb0e9f4aca4b7796696fce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 37/62] fix: k-means initialization with more groups than
 distinct points

---
 pyrichlet/mixture_models/_base.py  | 3 +++
 pyrichlet/mixture_models/_utils.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 0b60e62..eb4a567 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -844,6 +844,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             var_d = np.zeros((self.var_k, self.y.shape[0]),
                              dtype=np.float64)
             var_d[d, range(len(d))] = 1
+            # No group can be completely empty
+            var_d += np.finfo(np.float64).eps
+            var_d /= var_d.sum(axis=0)
             self.var_d = var_d
             self.weight_model.fit_variational(np.empty(shape=(self.var_k, 0)))
             self._update_var_theta()
diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 6210afe..b430136 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -161,7 +161,7 @@ def kmeans_cluster_size_biased(y, k, rng):
     # TODO wait for sklearn to implement Generator as random_state
     # input https://github.com/scikit-learn/scikit-learn/issues/16988
     km = KMeans(
-        n_clusters=k,
+        n_clusters=min(k, len(y)),
         n_init=10,
         random_state=np.random.RandomState(rng.bit_generator)
     )
-- 
2.43.0


From 0743d3506b170f2f872c9c2ce492a323e4e4c649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 38/62] fix: Gibbs sampling of a single observation

---
 pyrichlet/mixture_models/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index eb4a567..3fcfad7 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -935,10 +935,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
     def _d_log_likelihood_vector(self):
         with np.errstate(divide='ignore'):
             log_probability = np.array(
-                [multivariate_normal.logpdf(self.y,
-                                            self.theta[j][0],
-                                            self.theta[j][1],
-                                            1)
+                [np.atleast_1d(multivariate_normal.logpdf(self.y,
+                                                          self.theta[j][0],
+                                                          self.theta[j][1],
+                                                          1))
                  for j in range(self.weight_model.get_size())]
             )
             log_probability += np.log(np.greater.outer(
-- 
2.43.0


From 6de9f9291becbba12ac32d66b626b29a5222cef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 39/62] fix: consensus clustering does not use the global
 random state

---
 pyrichlet/mixture_models/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 3fcfad7..c2752f8 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -351,7 +351,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.gibbs_fitted:
             raise NotFittedError(
                 "Object must be fitted with the fit_gibbs method")
-        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed')
+        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed',
+                                random_state=0)
         return sc.fit_predict(self.gibbs_eap_affinity_matrix(y))
 
     def gibbs_map_cluster(self, y=None, full=False):
@@ -636,7 +637,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError(
                 "Object must be fitted with fit_variational init_method")
-        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed')
+        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed',
+                                random_state=0)
         return sc.fit_predict(self.var_eap_affinity_matrix(y))
 
     def var_map_cluster(self, y=None, full=False):
-- 
2.43.0


From 063f268fbf5afa65e3c556702f23bc9ab483fb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 40/62] fix: accept show_progress in every mixture

---
 pyrichlet/mixture_models/_beta_binomial_mixture.py | 10 ++--------
 pyrichlet/mixture_models/_beta_in_beta_mixture.py  | 12 +++---------
 2 files changed, 5 insertions(+), 17 deletions(-)

diff --git a/pyrichlet/mixture_models/_beta_binomial_mixture.py b/pyrichlet/mixture_models/_beta_binomial_mixture.py
index b5b69b1..d77dec4 100644
--- a/pyrichlet/mixture_models/_beta_binomial_mixture.py
+++ b/pyrichlet/mixture_models/_beta_binomial_mixture.py
@@ -3,12 +3,6 @@ from ..weight_models import BetaBinomial
 
 
 class BetaBinomialMixture(BaseGaussianMixture):
-    def __init__(self, *, n=0, alpha=1, mu_prior=None, lambda_prior=1,
-                 psi_prior=None, nu_prior=None, total_iter=1000, burn_in=100,
-                 subsample_steps=1, rng=None):
+    def __init__(self, *, n=0, alpha=1, rng=None, **kwargs):
         weight_model = BetaBinomial(n=n, alpha=alpha, rng=rng)
-        super().__init__(weight_model=weight_model, mu_prior=mu_prior,
-                         lambda_prior=lambda_prior, psi_prior=psi_prior,
-                         nu_prior=nu_prior, total_iter=total_iter,
-                         burn_in=burn_in, subsample_steps=subsample_steps,
-                         rng=rng)
+        super().__init__(weight_model=weight_model, rng=rng, **kwargs)
diff --git a/pyrichlet/mixture_models/_beta_in_beta_mixture.py b/pyrichlet/mixture_models/_beta_in_beta_mixture.py
index 07cba21..78f8b6e 100644
--- a/pyrichlet/mixture_models/_beta_in_beta_mixture.py
+++ b/pyrichlet/mixture_models/_beta_in_beta_mixture.py
@@ -3,14 +3,8 @@ from ..weight_models import BetaInBeta
 
 
 class BetaInBetaMixture(BaseGaussianMixture):
-    def __init__(self, *, x=0, alpha=1, a=1, b=1, mu_prior=None,
-                 lambda_prior=1, psi_prior=None, nu_prior=None,
-                 p_method="geometric", total_iter=1000,
-                 burn_in=100, subsample_steps=1, rng=None):
+    def __init__(self, *, x=0, alpha=1, a=1, b=1, p_method="geometric",
+                 rng=None, **kwargs):
         weight_model = BetaInBeta(x=x, alpha=alpha, a=a, b=b,
                                   p_method=p_method, rng=rng)
-        super().__init__(weight_model=weight_model, mu_prior=mu_prior,
-                         lambda_prior=lambda_prior, psi_prior=psi_prior,
-                         nu_prior=nu_prior, total_iter=total_iter,
-                         burn_in=burn_in, subsample_steps=subsample_steps,
-                         rng=rng)
+        super().__init__(weight_model=weight_model, rng=rng, **kwargs)
-- 
2.43.0


From a726891e6e2e6e920d22caab6bb7480414f1a950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 41/62] fix: accept any integer type as size

Labels with a dtype other than int64 made the completions raise TypeError.
---
 pyrichlet/weight_models/_base.py              | 2 +-
 pyrichlet/weight_models/_beta_in_dirichlet.py | 2 +-
 pyrichlet/weight_models/_dirichlet_process.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 34d231a..09759ba 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -63,7 +63,7 @@ class BaseWeight(ABC):
         np.array
             Array of the weighted structure.
         """
-        if size is not None and type(size) not in (int, np.int64):
+        if size is not None and not isinstance(size, (int, np.integer)):
             raise TypeError("size parameter must be integer or None")
 
     def weighting_log_likelihood(self):
diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 53b9b9c..e1ad069 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -28,7 +28,7 @@ class BetaInDirichlet(BaseWeight):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if size is not None:
-            if type(size) is not int:
+            if not isinstance(size, (int, np.integer)):
                 raise TypeError("size parameter must be integer or None")
         self.v = self.v[:0]
         self._v_base = self._v_base[:0]
diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index 2f21ea6..6a1adb3 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -26,7 +26,7 @@ class DirichletProcess(BaseWeight):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if size is not None:
-            if type(size) is not int:
+            if not isinstance(size, (int, np.integer)):
                 raise TypeError("size parameter must be integer or None")
         self.v = self.v[:0]
         if len(self.d) == 0:
-- 
2.43.0


From 08e960d690a5b82f3c1af318a4a5128091275e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 42/62] fix: pair plot of the MAP model

The contours and densities used the relabelled groups as component
indices, the contour was not that of the covariance, and one feature or
eleven groups raised an error.
---
 pyrichlet/mixture_models/_base.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index c2752f8..18e5ab8 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -389,20 +389,23 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         import matplotlib.ticker as ticker
         from matplotlib.ticker import FormatStrFormatter
         from scipy.stats import chi2
-        from scipy.linalg import ldl
 
         names = self._column_names
         n_feats = self.y.shape[1]
-        grp = self.gibbs_map_cluster()
+        # The component of each observation, and its group for the colors
+        comp, _ = _utils.most_probable_component(
+            self.y, self.map_sim_params['w'], self.map_sim_params['theta'])
+        u_comp, grp = np.unique(comp, return_inverse=True)
 
         fig, axes = plt.subplots(nrows=n_feats, ncols=n_feats, sharex='col',
+                                 squeeze=False,
                                  figsize=(n_feats * 2, n_feats * 2))
         fig.set_dpi(150)
         alpha = 0.05
         alpha_radius = np.sqrt(chi2.ppf(1 - alpha, 2))
         color = plt.get_cmap('tab10')
-        if max(grp) > 10:
-            color = color(np.linspace(0, 1, len(np.unique(grp)) + 1))
+        if len(u_comp) > 10:
+            color = color(np.linspace(0, 1, len(u_comp)))
         else:
             color = color(np.linspace(0, 1, 10))
 
@@ -447,14 +450,14 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                     y_range = np.linspace(y_min - y_ptp / 4,
                                           y_max + y_ptp / 4,
                                           100)
-                    for j in np.unique(grp):
+                    for g, j in enumerate(u_comp):
                         dens = self.gibbs_map_density(y_range, dim=it,
                                                       component=j)
-                        # ax.plot(y_range, dens, c=color[j])
+                        # ax.plot(y_range, dens, c=color[g])
                         ax.fill_between(y_range, dens, interpolate=True,
-                                        color=color[j], alpha=0.5)
+                                        color=color[g], alpha=0.5)
                     for j in range(len(self.map_sim_params['w'])):
-                        if j in grp:
+                        if j in u_comp:
                             continue
                         dens = self.gibbs_map_density(y_range, dim=it,
                                                       component=j)
@@ -470,21 +473,19 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 else:
                     ax.scatter(self.y[:, it], self.y[:, it2], s=10,
                                c=color[grp], alpha=0.5)
-                    for j in np.unique(grp):
+                    for g, j in enumerate(u_comp):
                         mu = self.map_sim_params['theta'][j][0]
                         mu = mu[[it, it2]]
                         sigma = self.map_sim_params['theta'][j][1]
                         sigma = sigma[[it, it2], :][:, [it, it2]]
-                        ldl_sigma = ldl(sigma)
-                        sig_sq = ldl_sigma[0] @ np.sqrt(
-                            ldl_sigma[1]) @ ldl_sigma[0].T
+                        sig_sq = np.linalg.cholesky(sigma).T
                         circle_points = np.array(
                             [np.cos(np.linspace(0, 2 * np.pi, 100)),
                              np.sin(np.linspace(0, 2 * np.pi,
                                                 100))]).T * alpha_radius
                         circle_points = np.matmul(circle_points, sig_sq) + mu
                         ax.plot(circle_points[:, 0], circle_points[:, 1],
-                                linestyle='--', c=color[j])
+                                linestyle='--', c=color[g])
                         # break
 
     def var_eap_density(self, y=None, dim=None, component=None):
-- 
2.43.0


From 72bf2d1e3c06488f9ad314dd577882c131207cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 43/62] fix: reject non-integer sizes before touching the
 realization

---
 pyrichlet/weight_models/_beta_bernoulli.py | 1 +
 pyrichlet/weight_models/_beta_binomial.py  | 1 +
 pyrichlet/weight_models/_beta_in_beta.py   | 1 +
 pyrichlet/weight_models/_equal.py          | 1 +
 pyrichlet/weight_models/_frequency.py      | 1 +
 5 files changed, 5 insertions(+)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 28722c2..ab6d7d1 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -35,6 +35,7 @@ class BetaBernoulli(BaseWeight):
                 raise ValueError(
                     "Weight structure not fitted and `n` not passed.")
             size = 1
+        super().complete(size)
         self.v = self.v[:0]
         if len(self.d) == 0:
             self._random_bernoullis(size)
diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 7fa7890..4bc6b15 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -36,6 +36,7 @@ class BetaBinomial(BaseWeight):
                 raise ValueError(
                     "Weight structure not fitted and `n` not passed.")
             size = 1
+        super().complete(size)
         if len(self.d) == 0:
             self.v = self.v[:0]
             self.complete(size)
diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index ac93967..4874bc9 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -46,6 +46,7 @@ class BetaInBeta(BaseWeight):
     def random(self, size=None):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
+        super().complete(size)
         if len(self.d) > 0 and self.x > 0:
             # p is drawn given the sticks of the current realization
             self.random_p()
diff --git a/pyrichlet/weight_models/_equal.py b/pyrichlet/weight_models/_equal.py
index 5c2900b..52df9cb 100644
--- a/pyrichlet/weight_models/_equal.py
+++ b/pyrichlet/weight_models/_equal.py
@@ -17,6 +17,7 @@ class EqualWeighting(BaseWeight):
         return self.w
 
     def complete(self, size):
+        super().complete(size)
         return self.random(size)
 
     def fit_variational(self, variational_d: np.ndarray):
diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index e6081f7..05de871 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -21,6 +21,7 @@ class FrequencyWeighting(BaseWeight):
         return self.w
 
     def complete(self, size):
+        super().complete(size)
         return self.random(size)
 
     def fit_variational(self, variational_d: np.ndarray):
-- 
2.43.0


From 0e01b05d8a052f36c9b16b3e28e3a356e3a754dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 44/62] fix: validate the arguments of a fit before changing
 the fitted state

---
 pyrichlet/mixture_models/_base.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 18e5ab8..1bcff60 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -134,6 +134,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             "variational": fits the variational distribution an uses the MAP
             parameters as initialization
         """
+        if not warm_start and init_method not in ("kmeans", "random",
+                                                  "variational"):
+            raise AttributeError("init_method param must be one of 'kmeans', "
+                                 "'random', 'variational'")
         self._initialize_common_params(y, warm_start=warm_start)
         if not warm_start:
             self._initialize_gibbs_params(init_groups=init_groups,
@@ -203,16 +207,19 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             "random": initialize variational parameters using a random
             assignment
         """
+        var_k = n_groups
+        if not warm_start:
+            if n_groups is None:
+                var_k = getattr(self, 'n', None)
+            if var_k is None:
+                raise AttributeError("n_groups must be a positive integer")
+            if init_method not in ("kmeans", "random"):
+                raise AttributeError("init_method param must be one of "
+                                     "'kmeans', 'random'")
         if show_progress is not None:
             self.show_progress = show_progress
         self._initialize_common_params(y, warm_start=warm_start)
         if not warm_start:
-            if hasattr(self, 'n') and n_groups is None:
-                var_k = self.n
-            elif n_groups is None:
-                raise AttributeError("n_groups must be a positive integer")
-            else:
-                var_k = n_groups
             self._initialize_variational_params(var_k=var_k,
                                                 init_method=init_method)
         elbo = -np.inf
@@ -815,9 +822,6 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             self.fit_variational(self.y,
                                  n_groups=self.weight_model.get_size())
             self.d = self.var_map_cluster()
-        else:
-            raise AttributeError("init_method param must be one of 'kmeans', "
-                                 "'random', 'variational'")
 
     def _initialize_variational_params(self, var_k, init_method="kmeans"):
         """
@@ -868,9 +872,6 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 self.var_theta.append([mu_j, self.lambda_prior,
                                        np.linalg.inv(temp_psi), self.nu_prior])
             self.var_d = np.tile(1 / self.var_k, (self.var_k, self.y.shape[0]))
-        else:
-            raise AttributeError("init_method param must be one of 'kmeans', "
-                                 "'random'")
         self.weight_model.fit_variational(self.var_d)
 
     def _get_run_params(self):
-- 
2.43.0


From 7e30f35d35ee61c7e7c95bf53c4458fe0ee843b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 45/62] fix: Beta-in-Dirichlet weighting log-likelihood was NaN
 for a = 0

---
 pyrichlet/utils/functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/utils/functions.py b/pyrichlet/utils/functions.py
index 49e77ef..e2902a7 100644
--- a/pyrichlet/utils/functions.py
+++ b/pyrichlet/utils/functions.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.special import digamma, loggamma
+from scipy.special import digamma, loggamma, xlogy
 from scipy.stats import beta, betabinom, binom
 
 
@@ -18,8 +18,9 @@ def log_likelihood_binom(x, n, p):
 def dirichlet_log_eppf(alpha, partition):
     k = len(partition)
     n = sum(partition)
-    res = loggamma(alpha) - loggamma(alpha + n)
-    res += k * np.log(alpha)
+    # Gamma(alpha) * alpha = Gamma(alpha + 1), so that alpha can be zero
+    res = loggamma(alpha + 1) - loggamma(alpha + n)
+    res += xlogy(k - 1, alpha)
     res += np.sum(loggamma(partition))
     return res
 
-- 
2.43.0


From c4c991567eb32b4c28ea40f76c33d9f7c1ac8c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 46/62] fix: Beta-Bernoulli could not complete an empty
 realization to one weight

---
 pyrichlet/weight_models/_beta_bernoulli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index ab6d7d1..795e508 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -73,10 +73,11 @@ class BetaBernoulli(BaseWeight):
                                              p=self.p,
                                              size=size - len(self.v))
             self.bernoullis = np.concatenate((self.bernoullis, mask_change))
+            n_changes = mask_change.sum()
             mask_change = np.cumsum(mask_change)
             temp_v = np.concatenate((
                 [self.v[-1]],
-                self._rng.beta(a=1, b=self.alpha, size=mask_change[-1])))
+                self._rng.beta(a=1, b=self.alpha, size=n_changes)))
             self.v = np.concatenate((self.v, temp_v[mask_change]))
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
-- 
2.43.0


From 076ee3824bfd369dc08dd221baf588fe4b6fd345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 47/62] fix: normal densities of features in very different
 units

---
 pyrichlet/mixture_models/_base.py  | 15 ++++++-------
 pyrichlet/mixture_models/_utils.py | 34 +++++++++++++++++++-----------
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 1bcff60..dc89843 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1,5 +1,4 @@
 from sklearn.cluster import SpectralClustering
-from scipy.stats import multivariate_normal
 from collections import defaultdict
 import pandas as pd
 import numpy as np
@@ -939,10 +938,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
     def _d_log_likelihood_vector(self):
         with np.errstate(divide='ignore'):
             log_probability = np.array(
-                [np.atleast_1d(multivariate_normal.logpdf(self.y,
-                                                          self.theta[j][0],
-                                                          self.theta[j][1],
-                                                          1))
+                [_utils.normal_logpdf(self.y,
+                                      self.theta[j][0],
+                                      self.theta[j][1])
                  for j in range(self.weight_model.get_size())]
             )
             log_probability += np.log(np.greater.outer(
@@ -961,10 +959,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         ret = 0
         with np.errstate(divide='ignore'):
             for j in np.unique(self.d):
-                ret += np.sum(multivariate_normal.logpdf(self.y[self.d == j],
-                                                         self.theta[j][0],
-                                                         self.theta[j][1],
-                                                         1))
+                ret += np.sum(_utils.normal_logpdf(self.y[self.d == j],
+                                                   self.theta[j][0],
+                                                   self.theta[j][1]))
         return ret
 
     def _d_log_likelihood(self):
diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index b430136..9d21994 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -20,6 +20,20 @@ def log_likelihood_normal_invw(mu, sigma, mu0, lam0, psi0, nu0):
     return log_sigma + log_mu
 
 
+def normal_logpdf(x, mean, cov):
+    """Log density of the normal distribution at the rows of x
+
+    The features are first scaled to unit variance. Otherwise the covariance
+    of features in very different units would be taken as singular.
+    """
+    sd = np.sqrt(np.diag(np.atleast_2d(cov)))
+    sd = np.where(sd > 0, sd, 1)
+    log_density = multivariate_normal.logpdf(x / sd, mean / sd,
+                                             cov / np.outer(sd, sd),
+                                             allow_singular=True)
+    return np.atleast_1d(log_density) - np.log(sd).sum()
+
+
 def posterior_norm_invw_params(y, mu, lam, psi, nu):
     n = len(y)
     ret_mu = (lam * mu + n * y.mean(axis=0)) / (lam + n)
@@ -93,15 +107,14 @@ def mixture_density(x, w, theta, dim=None, component=None):
     ret = []
     for j in iterator:
         if dim is None:
-            ret.append(multivariate_normal.pdf(x,
-                                               theta[j][0],
-                                               theta[j][1],
-                                               1)*w[j])
+            ret.append(np.exp(normal_logpdf(x,
+                                            theta[j][0],
+                                            theta[j][1]))*w[j])
         else:
-            ret.append(multivariate_normal.pdf(x,
-                                               theta[j][0][dim],
-                                               theta[j][1][:, dim][dim, :],
-                                               1)*w[j])
+            ret.append(np.exp(normal_logpdf(x,
+                                            theta[j][0][dim],
+                                            theta[j][1][:, dim][dim, :])
+                              )*w[j])
     return np.reshape(ret, (len(ret), len(x))).sum(0)
 
 
@@ -115,10 +128,7 @@ def most_probable_component(x, w, theta):
     k = len(w)
     log_prob = np.empty((len(x), k))
     for j in range(k):
-        log_prob[:, j] = multivariate_normal.logpdf(x,
-                                                    theta[j][0],
-                                                    theta[j][1],
-                                                    1)
+        log_prob[:, j] = normal_logpdf(x, theta[j][0], theta[j][1])
     with np.errstate(divide='ignore'):
         log_prob += np.log(w)
     # Work in log scale, the density of far away points underflows
-- 
2.43.0


From b4efb6565d68203ddcf26d3828099417436971bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 48/62] fix: data of any numeric type are handled in double
 precision

---
 pyrichlet/mixture_models/_base.py  | 9 +++++----
 pyrichlet/mixture_models/_utils.py | 8 ++++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index dc89843..ea4dcab 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -713,23 +713,23 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         Initialize the prior variables if not given
         """
         if isinstance(y, pd.DataFrame):
-            self.y = y.to_numpy(copy=True)
+            self.y = _utils.as_float_array(y.to_numpy())
             self._column_names = y.columns
         elif isinstance(y, pd.Series):
-            self.y = y.to_numpy(copy=True).reshape(-1, 1)
+            self.y = _utils.as_float_array(y.to_numpy()).reshape(-1, 1)
             if y.name is None:
                 self._column_names = np.array([0])
             else:
                 self._column_names = np.array([y.name])
         elif isinstance(y, list):
-            self.y = np.array(y)
+            self.y = _utils.as_float_array(y)
             if self.y.ndim == 1:
                 self.y = self.y.reshape(-1, 1)
                 self._column_names = np.array([0])
             else:
                 self._column_names = np.arange(self.y.shape[1])
         elif isinstance(y, np.ndarray):
-            self.y = np.copy(y)
+            self.y = _utils.as_float_array(y)
             if self.y.ndim == 1:
                 self.y = self.y.reshape(-1, 1)
                 self._column_names = np.array([0])
@@ -1142,4 +1142,5 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 _y = np.array([[y]])
             else:
                 raise TypeError("Invalid type for variable y")
+            _y = _utils.as_float_array(_y)
         return _y
diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 9d21994..2eb377d 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -4,6 +4,14 @@ from sklearn.cluster import KMeans
 import numpy as np
 
 
+def as_float_array(y):
+    """Returns a copy of the observations y in double precision"""
+    y = np.asarray(y)
+    if y.dtype.kind not in "biufO":
+        raise TypeError("Invalid type for variable y")
+    return np.array(y, dtype=np.float64, order="C")
+
+
 def random_normal_invw(mu, lam, psi, nu, rng=None):
     if rng is None:
         rng = np.random.default_rng()
-- 
2.43.0


From c20c6a5d08332c5fc2959c6a3635ecc8a2f49f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 49/62] fix: keep the feature names in a variational
 initialization

---
 pyrichlet/mixture_models/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index ea4dcab..bf2209e 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -818,8 +818,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         elif method == "random":
             self.d = self.weight_model.random_assignment(len(self.y))
         elif method == "variational":
+            column_names = self._column_names
             self.fit_variational(self.y,
                                  n_groups=self.weight_model.get_size())
+            self._column_names = column_names
             self.d = self.var_map_cluster()
 
     def _initialize_variational_params(self, var_k, init_method="kmeans"):
-- 
2.43.0


From e911a476c19fbcde76d6d5899a96bd67481caf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 50/62] fix: refuse an incompatible n_groups before changing
 the fitted state

---
 pyrichlet/mixture_models/_base.py                  |  1 +
 pyrichlet/weight_models/_base.py                   |  4 ++++
 pyrichlet/weight_models/_dirichlet_distribution.py | 10 ++++++----
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index bf2209e..c1f1b9a 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -212,6 +212,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 var_k = getattr(self, 'n', None)
             if var_k is None:
                 raise AttributeError("n_groups must be a positive integer")
+            self.weight_model._validate_variational_k(var_k)
             if init_method not in ("kmeans", "random"):
                 raise AttributeError("init_method param must be one of "
                                      "'kmeans', 'random'")
diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 09759ba..415228a 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -167,6 +167,10 @@ class BaseWeight(ABC):
         )
         return np.sum(inverse_sampling, axis=-1)
 
+    def _validate_variational_k(self, k):
+        """Raises an error if the model cannot have `k` groups"""
+        pass
+
     def fit_variational(self, variational_d):
         """Fits the variational distribution q
 
diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index 068965a..1a54e43 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -42,11 +42,13 @@ class DirichletDistribution(BaseWeight):
             self.random()
         return self.w
 
+    def _validate_variational_k(self, k):
+        assert k == self.n, ("variational distribution must have the same "
+                             "length as the Dirichlet distribution's "
+                             "dimension")
+
     def fit_variational(self, variational_d):
-        assert len(variational_d) == self.n, "variational distribution must" \
-                                             "have the same length as the" \
-                                             "Dirichlet distribution's" \
-                                             "dimension"
+        self._validate_variational_k(len(variational_d))
         self.variational_k = self.n
         self.variational_d = np.array(variational_d)
         self.variational_params = self.alpha + np.sum(self.variational_d, 1)
-- 
2.43.0


From cd2199580da4d26fa494f826237f7fb013e4ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 51/62] fix: Pitman-Yor rejects non-integer sizes before
 drawing

---
 pyrichlet/weight_models/_pitman_yor_process.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 113c229..898713d 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -29,6 +29,7 @@ class PitmanYorProcess(BaseWeight):
     def random(self, size=None):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
+        super().complete(size)
         if len(self.d) == 0:
             pitman_yor_bias = 1 + np.arange(size)
             self.v = self._rng.beta(a=1 - self.pyd,
-- 
2.43.0


From 444dbdabfe0e97e8ed8c86fedfac413270e966d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 52/62] fix: redraw the rejected pairs of the rejection sampler
 together

---
 pyrichlet/mixture_models/_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 2eb377d..5c0382f 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -77,9 +77,11 @@ def rejection_sample(f, max_y, a=0, b=1, size=None, *, rng=None):
     else:
         x = rng.uniform(a, b, size)
         y = rng.uniform(0, max_y, size)
-        while np.any(y > f(x)):
-            x[y > f(x)] = rng.uniform(a, b, np.sum(y > f(x)))
-            y[y > f(x)] = rng.uniform(0, max_y, np.sum(y > f(x)))
+        rejected = y > f(x)
+        while np.any(rejected):
+            x[rejected] = rng.uniform(a, b, np.sum(rejected))
+            y[rejected] = rng.uniform(0, max_y, np.sum(rejected))
+            rejected = y > f(x)
         return x
 
 
-- 
2.43.0


From 4db67958a63f5ce467ca62892f5ffc4691542e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 53/62] fix: a fit that did not finish must not pass for the
 previous one

---
 pyrichlet/mixture_models/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index c1f1b9a..5852a3a 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -789,6 +789,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             )
             return np.atleast_1d(mu), np.atleast_2d(sigma)
 
+        self.gibbs_fitted = False
         self.sim_params = []
         self.n_groups = []
         self.n_atoms = []
@@ -844,6 +845,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             "random": initialize variational parameters using a random
                 assignment
         """
+        self.var_fitted = False
         self.var_k = var_k
         self.var_theta = []
 
-- 
2.43.0


From 6617bc2995596764ab5ba1d1c17b76ef37f1efb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 54/62] fix: a copied mixture draws its atoms with its own
 generator and priors

---
 pyrichlet/mixture_models/_base.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 5852a3a..4956ed4 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -779,16 +779,6 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 parameters as initialization
         """
 
-        def atom_generator():
-            mu, sigma = _utils.random_normal_invw(
-                mu=self.mu_prior,
-                lam=self.lambda_prior,
-                psi=self.psi_prior,
-                nu=self.nu_prior,
-                rng=self.rng
-            )
-            return np.atleast_1d(mu), np.atleast_2d(sigma)
-
         self.gibbs_fitted = False
         self.sim_params = []
         self.n_groups = []
@@ -799,7 +789,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.weight_model.reset()
         self.weight_model.random(1)
 
-        self.theta = defaultdict(atom_generator)
+        self.theta = defaultdict(self._random_atom)
         self.affinity_matrix = np.zeros((len(self.y), len(self.y)))
         self.u = self.rng.uniform(0 + np.finfo(np.float64).eps, 1,
                                   len(self.y))
@@ -905,6 +895,16 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             # Save the params to get something to compare
             self.map_sim_params = self._get_run_params()
 
+    def _random_atom(self):
+        mu, sigma = _utils.random_normal_invw(
+            mu=self.mu_prior,
+            lam=self.lambda_prior,
+            psi=self.psi_prior,
+            nu=self.nu_prior,
+            rng=self.rng
+        )
+        return np.atleast_1d(mu), np.atleast_2d(sigma)
+
     def _update_weights(self):
         self.weight_model.fit(self.d)
         w = self.weight_model.random()
-- 
2.43.0


From 8d8ef447a9a703ddf17279d4d273c8052231e691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 55/62] fix: document the initialization fit_gibbs uses by
 default

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 4956ed4..3a76061 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -127,7 +127,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             If show_progress is True, a progress bar from the tqdm library is
             displayed.
 
-        init_method: str, default="random"
+        init_method: str, default="kmeans"
             "random": does a random initialization based on the prior models
             "kmeans": does a kmeans initialization
             "variational": fits the variational distribution an uses the MAP
-- 
2.43.0


From d4d1e4aa2dda8b08edb4031bd829e7da791ba1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 56/62] fix: the pair plot needs a finished Gibbs fit, as other
 queries do

---
 pyrichlet/mixture_models/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 3a76061..c898e8d 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -397,6 +397,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         from matplotlib.ticker import FormatStrFormatter
         from scipy.stats import chi2
 
+        if not self.gibbs_fitted:
+            raise NotFittedError(
+                "Object must be fitted with fit_gibbs method")
         names = self._column_names
         n_feats = self.y.shape[1]
         # The component of each observation, and its group for the colors
-- 
2.43.0


From a657b7696e8e111e04d2b68419b3013f62f808b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 57/62] fix: no labels can be drawn before any weights

---
 pyrichlet/weight_models/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 415228a..b90aec6 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -161,6 +161,8 @@ class BaseWeight(ABC):
     def random_assignment(self, size=None):
         """Returns a sample draw of the categorical assignment from the current
         state normalized weighting structure"""
+        if self.get_size() == 0:
+            raise ValueError("No weights to draw from, call `random` first.")
         u = self._rng.uniform(size=size)
         inverse_sampling = np.greater.outer(
             u, self.get_normalized_cumulative_weights()
-- 
2.43.0


From 0d7683a73a3834054cebba8a43681b84e2337c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 58/62] fix: refuse expected and modal weights before a
 variational fit

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 4 ++++
 pyrichlet/weight_models/_dirichlet_process.py      | 4 ++++
 pyrichlet/weight_models/_frequency.py              | 2 ++
 pyrichlet/weight_models/_geometric_process.py      | 4 ++++
 pyrichlet/weight_models/_pitman_yor_process.py     | 4 ++++
 5 files changed, 18 insertions(+)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index 1a54e43..53ea899 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -96,11 +96,15 @@ class DirichletDistribution(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         return self.variational_params[j] / self.variational_params.sum()
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         alpha = self.variational_params.sum()
diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index 6a1adb3..10a813e 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -114,6 +114,8 @@ class DirichletProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         res = 1
@@ -126,6 +128,8 @@ class DirichletProcess(BaseWeight):
         return res
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         res = 1
diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index 05de871..c0fe763 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -61,6 +61,8 @@ class FrequencyWeighting(BaseWeight):
         return 0
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         if self.variational_d.shape[1]:
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index ab5e812..3bcca50 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -114,6 +114,8 @@ class GeometricProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         a, b = self.variational_params
@@ -122,6 +124,8 @@ class GeometricProcess(BaseWeight):
         return np.exp(betaln(a, b + j) - betaln(a, b))
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         if self.variational_k == 1:
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 898713d..de421f5 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -138,6 +138,8 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         res = 1
@@ -150,6 +152,8 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         res = 1
-- 
2.43.0


From 84a20f639a1dc1ef07792d0cd89af04a72935c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:59 +0000
Subject: [PATCH 59/62] fix: normal density of strongly correlated covariances

A positive definite covariance with correlations very near one was taken
as singular, so that every point off a plane had zero density and the
Gibbs sampler put observations in components that it had ruled out.
---
 pyrichlet/mixture_models/_utils.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 5c0382f..83350a8 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -1,4 +1,5 @@
 from scipy.stats import invwishart, multivariate_normal
+from scipy.linalg import solve_triangular
 from scipy.special import digamma, loggamma
 from sklearn.cluster import KMeans
 import numpy as np
@@ -36,10 +37,18 @@ def normal_logpdf(x, mean, cov):
     """
     sd = np.sqrt(np.diag(np.atleast_2d(cov)))
     sd = np.where(sd > 0, sd, 1)
-    log_density = multivariate_normal.logpdf(x / sd, mean / sd,
-                                             cov / np.outer(sd, sd),
-                                             allow_singular=True)
-    return np.atleast_1d(log_density) - np.log(sd).sum()
+    corr = np.atleast_2d(cov) / np.outer(sd, sd)
+    try:
+        # A positive definite matrix is never singular, however correlated
+        chol = np.linalg.cholesky(corr)
+    except np.linalg.LinAlgError:
+        log_density = multivariate_normal.logpdf(x / sd, mean / sd, corr,
+                                                 allow_singular=True)
+        return np.atleast_1d(log_density) - np.log(sd).sum()
+    z = solve_triangular(chol, ((x - mean) / sd).T, lower=True,
+                         check_finite=False)
+    return (-np.square(z).sum(axis=0) / 2 - np.log(np.diag(chol)).sum()
+            - np.log(sd).sum() - len(sd) * np.log(2 * np.pi) / 2)
 
 
 def posterior_norm_invw_params(y, mu, lam, psi, nu):
-- 
2.43.0


From 4422fb05434893b9016cea5054e7c7bdb6739f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:56 +0000
Subject: [PATCH 60/62] fix: queries answer about the data their own engine was
 fitted with

A variational fit of other observations changed the answers of the Gibbs
queries and the pair plot, and the other way round.
---
 pyrichlet/mixture_models/_base.py | 52 +++++++++++++++++--------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index c898e8d..c09b480 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -72,6 +72,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.weight_model = weight_model
         self.y = np.array([])
         self._column_names = None
+        # The observations each engine was fitted with
+        self._gibbs_y = None
+        self._gibbs_column_names = None
+        self._var_y = None
 
         # Variables used in Gibbs sampler
         self.d = np.array([])
@@ -138,6 +142,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             raise AttributeError("init_method param must be one of 'kmeans', "
                                  "'random', 'variational'")
         self._initialize_common_params(y, warm_start=warm_start)
+        self._gibbs_y = self.y
+        self._gibbs_column_names = self._column_names
         if not warm_start:
             self._initialize_gibbs_params(init_groups=init_groups,
                                           method=init_method)
@@ -219,6 +225,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if show_progress is not None:
             self.show_progress = show_progress
         self._initialize_common_params(y, warm_start=warm_start)
+        self._var_y = self.y
         if not warm_start:
             self._initialize_variational_params(var_k=var_k,
                                                 init_method=init_method)
@@ -265,7 +272,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_marginal_observations(y, dim)
+        _y = self._cast_marginal_observations(y, dim, self._gibbs_y)
         y_sim = []
         if periods is None:
             sim_params = self.sim_params
@@ -301,7 +308,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_marginal_observations(y, dim)
+        _y = self._cast_marginal_observations(y, dim, self._gibbs_y)
         return _utils.mixture_density(_y,
                                       self.map_sim_params["w"],
                                       self.map_sim_params["theta"],
@@ -328,7 +335,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 "Object must be fitted with the fit_gibbs method")
         if y is None:
             return self.affinity_matrix / self.total_saved_steps
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, self._gibbs_y)
         affinity_matrix = np.zeros((len(_y), len(_y)))
         for params in self.sim_params:
             grouping = _utils.cluster(_y, params["w"], params["theta"])[0]
@@ -383,7 +390,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.gibbs_fitted:
             raise NotFittedError(
                 "Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, self._gibbs_y)
         ret = _utils.cluster(_y,
                              self.map_sim_params["w"],
                              self.map_sim_params["theta"])
@@ -400,11 +407,12 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.gibbs_fitted:
             raise NotFittedError(
                 "Object must be fitted with fit_gibbs method")
-        names = self._column_names
-        n_feats = self.y.shape[1]
+        names = self._gibbs_column_names
+        y = self._gibbs_y
+        n_feats = y.shape[1]
         # The component of each observation, and its group for the colors
         comp, _ = _utils.most_probable_component(
-            self.y, self.map_sim_params['w'], self.map_sim_params['theta'])
+            y, self.map_sim_params['w'], self.map_sim_params['theta'])
         u_comp, grp = np.unique(comp, return_inverse=True)
 
         fig, axes = plt.subplots(nrows=n_feats, ncols=n_feats, sharex='col',
@@ -454,8 +462,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 ticks[-1].label1.set_visible(False)
                 ax.grid(color='lightgray', linestyle='--', alpha=0.5)
                 if it == it2:
-                    y_min = self.y[:, it].min()
-                    y_max = self.y[:, it].max()
+                    y_min = y[:, it].min()
+                    y_max = y[:, it].max()
                     y_ptp = y_max - y_min
                     y_range = np.linspace(y_min - y_ptp / 4,
                                           y_max + y_ptp / 4,
@@ -481,7 +489,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                     else:
                         ax.yaxis.set_major_formatter(FormatStrFormatter('%.2g'))
                 else:
-                    ax.scatter(self.y[:, it], self.y[:, it2], s=10,
+                    ax.scatter(y[:, it], y[:, it2], s=10,
                                c=color[grp], alpha=0.5)
                     for g, j in enumerate(u_comp):
                         mu = self.map_sim_params['theta'][j][0]
@@ -522,8 +530,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_marginal_observations(y, dim)
-        n_feats = self.y.shape[1]
+        _y = self._cast_marginal_observations(y, dim, self._var_y)
+        n_feats = self._var_y.shape[1]
         if dim is None:
             dim = np.arange(n_feats)
         dim = np.atleast_1d(dim)
@@ -562,8 +570,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_marginal_observations(y, dim)
-        n_feats = self.y.shape[1]
+        _y = self._cast_marginal_observations(y, dim, self._var_y)
+        n_feats = self._var_y.shape[1]
         if dim is None:
             dim = np.arange(n_feats)
         dim = np.atleast_1d(dim)
@@ -604,7 +612,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if y is None:
             var_d = self.var_d
         else:
-            _y = self._cast_observations(y)
+            _y = self._cast_observations(y, self._var_y)
             dim = _y.shape[1]
             var_d = np.zeros((self.var_k, _y.shape[0]), dtype=np.float64)
             for j, vt_j in enumerate(self.var_theta):
@@ -680,7 +688,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             else:
                 d = self.var_d.argmax(0)
                 return d, 1 - self.var_d[d, range(len(d))]
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, self._var_y)
         dim = _y.shape[1]
         var_d = np.zeros((self.var_k, _y.shape[0]), dtype=np.float64)
         for j, vt_j in enumerate(self.var_theta):
@@ -813,10 +821,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         elif method == "random":
             self.d = self.weight_model.random_assignment(len(self.y))
         elif method == "variational":
-            column_names = self._column_names
             self.fit_variational(self.y,
                                  n_groups=self.weight_model.get_size())
-            self._column_names = column_names
             self.d = self.var_map_cluster()
 
     def _initialize_variational_params(self, var_k, init_method="kmeans"):
@@ -1120,17 +1126,17 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         res /= 2
         return res
 
-    def _cast_marginal_observations(self, y, dim):
-        _y = self._cast_observations(y)
+    def _cast_marginal_observations(self, y, dim, fitted_y):
+        _y = self._cast_observations(y, fitted_y)
         if dim is None:
             return _y
         if y is None:
             return _y[:, np.atleast_1d(dim)]
-        return _utils.marginal_observations(_y, dim, self.y.shape[1])
+        return _utils.marginal_observations(_y, dim, fitted_y.shape[1])
 
-    def _cast_observations(self, y):
+    def _cast_observations(self, y, fitted_y):
         if y is None:
-            _y = self.y
+            _y = fitted_y
         else:
             if isinstance(y, pd.DataFrame):
                 _y = y.to_numpy()
-- 
2.43.0


From 0dc8af36984cb745fb07acad5bf4d750c066e230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:12 +0000
Subject: [PATCH 61/62] fix: densities whose determinant is out of range

The density was computed from det(precision), which under- or overflows
for many features or extreme units although the density itself is
representable.
---
 pyrichlet/utils/functions.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pyrichlet/utils/functions.py b/pyrichlet/utils/functions.py
index e2902a7..fb5beaf 100644
--- a/pyrichlet/utils/functions.py
+++ b/pyrichlet/utils/functions.py
@@ -30,19 +30,21 @@ def mean_log_beta(a, b):
 
 
 def density_students_t(x, mu, precision, nu):
+    # The determinant may be out of range even if the density is not
     dim = x.shape[1]
-    density = np.exp(loggamma((nu + dim) / 2) - loggamma(nu / 2))
-    density *= np.linalg.det(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)
-    density *= (1 + np.einsum('ij,jk,ik->i',
-                              x - mu, precision, x - mu
-                              ) / nu) ** (-(nu + dim) / 2)
-    return density
+    log_density = loggamma((nu + dim) / 2) - loggamma(nu / 2)
+    log_density += np.linalg.slogdet(precision)[1] / 2
+    log_density -= np.log(nu * np.pi) * dim / 2
+    log_density = log_density - np.log1p(
+        np.einsum('ij,jk,ik->i', x - mu, precision, x - mu) / nu
+    ) * (nu + dim) / 2
+    return np.exp(log_density)
 
 
 def density_normal(x, mu, precision):
     dim = x.shape[1]
-    density = np.sqrt((2 * np.pi) ** -dim * np.linalg.det(precision))
-    density *= np.exp(- np.einsum('ij,jk,ik->i',
-                                  x - mu, precision, x - mu
-                                  ) / 2)
-    return density
+    log_density = np.linalg.slogdet(precision)[1] / 2
+    log_density -= np.log(2 * np.pi) * dim / 2
+    log_density = log_density - np.einsum('ij,jk,ik->i',
+                                          x - mu, precision, x - mu) / 2
+    return np.exp(log_density)
-- 
2.43.0


From f65b4ac7d06d317f4e97dd65bf150f41d0862569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:38 +0000
Subject: [PATCH 62/62] fix: inverse sampling of p where its density is narrow
 or out of range

The quadrature missed narrow densities and failed with ZeroDivisionError
where the likelihood underflowed.
---
 pyrichlet/weight_models/_beta_in_beta.py | 44 +++++++++++++++++-------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 4874bc9..141fb3e 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -1,6 +1,7 @@
 import numpy as np
 from scipy.optimize import minimize, minimize_scalar, brentq
 from scipy.integrate import quad
+from scipy.special import polygamma
 from scipy.stats import beta
 
 from ._base import BaseWeight
@@ -126,20 +127,37 @@ class BetaInBeta(BaseWeight):
                 self.p = max_param.x[0]
             return self.p
         elif self.p_method == "inverse-sampling":
+            # The log-likelihood is concave in p. Its neighbourhood of highest
+            # values, which may be narrow, is integrated apart
             unif = self._rng.uniform()
-
-            def f(p):
-                return np.exp(self._structure_log_likelihood(p=p))
-
-            integral_normalization = quad(f, 0, 1)[0]
-
-            def f_integral(p):
-                return quad(f, 0, p)[0] / integral_normalization - unif
-
-            try:
-                self.p = brentq(f_integral, a=0, b=1)
-            except ValueError:
-                pass
+            v = np.clip(self.v, np.finfo(np.float64).tiny,
+                        1 - np.finfo(np.float64).epsneg)
+            mode = minimize_scalar(
+                lambda p: -self._weight_log_likelihood(v=v, p=p),
+                bounds=(0, 1), method="bounded").x
+            c = self.x / (1 - self.x)
+            width = 1 / c / np.sqrt(max(len(v), 1) * (
+                polygamma(1, 1 + c * mode) +
+                polygamma(1, self.alpha + c * (1 - mode))))
+            edges = mode + width * np.array([-9, -3, -1, 0, 1, 3, 9])
+            edges = edges[(edges > 0) & (edges < 1)]
+            max_ll = max(self._structure_log_likelihood(v=v, p=p)
+                         for p in edges)
+            edges = np.concatenate(([0], edges, [1]))
+
+            def f_integral(a, b):
+                return quad(lambda p: np.exp(
+                    self._structure_log_likelihood(v=v, p=p) - max_ll),
+                    a, b, epsabs=1e-8 * min(width, 1))[0]
+
+            parts = np.array([f_integral(a, b)
+                              for a, b in zip(edges[:-1], edges[1:])])
+            cumulative = np.cumsum(parts)
+            part = np.searchsorted(cumulative, unif * cumulative[-1])
+            a, b = edges[part:part + 2]
+            target = unif * cumulative[-1] - (cumulative[part] - parts[part])
+            target = np.clip(target, 0, f_integral(a, b))
+            self.p = brentq(lambda p: f_integral(a, p) - target, a=a, b=b)
             return self.p
         elif self.p_method == "rejection-sampling":
             # The log-likelihood is concave in p, propose from the prior
-- 
2.43.0

