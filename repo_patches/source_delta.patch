From 07a0c3eb7a6a32e226e9295946ab6cf855f28bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 01/55] fix: Pitman-Yor sticks are Beta(1 - pyd, alpha + j *
 pyd) with j starting at one

The prior, posterior, extension and log-likelihood used j = 0, 1, ..., which
is not the Pitman-Yor law (and fails for -pyd < alpha <= 0, which the
constructor accepts).
---
 pyrichlet/weight_models/_pitman_yor_process.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 718211b..f5a6fc2 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -16,21 +16,17 @@ class PitmanYorProcess(BaseWeight):
         self.truncation_length = truncation_length
 
     def weighting_log_likelihood(self):
-        v = self.w[0]
-        ret = log_likelihood_beta(v, 1 - self.pyd, self.alpha)
-        prod_v = 1 - v
-        for j in range(1, len(self.w)):
-            v = self.w[j] / prod_v
+        ret = 0
+        for j, v in enumerate(self.v):
             ret += log_likelihood_beta(v, 1 - self.pyd,
-                                       self.alpha + j * self.pyd)
-            prod_v *= (1 - v)
+                                       self.alpha + (j + 1) * self.pyd)
         return ret
 
     def random(self, size=None):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if len(self.d) == 0:
-            pitman_yor_bias = np.arange(size)
+            pitman_yor_bias = np.arange(1, size + 1)
             self.v = self._rng.beta(a=1 - self.pyd,
                                     b=self.alpha + pitman_yor_bias * self.pyd,
                                     size=size)
@@ -44,7 +40,7 @@ class PitmanYorProcess(BaseWeight):
                 a_c = a_c[:size]
                 b_c = b_c[:size]
 
-            pitman_yor_bias = np.arange(len(a_c))
+            pitman_yor_bias = np.arange(1, len(a_c) + 1)
             self.v = self._rng.beta(
                 a=1 - self.pyd + a_c,
                 b=self.alpha + pitman_yor_bias * self.pyd + b_c
@@ -58,7 +54,7 @@ class PitmanYorProcess(BaseWeight):
     def complete(self, size):
         super().complete(size)
         if self.get_size() < size:
-            pitman_yor_bias = np.arange(self.get_size(), size)
+            pitman_yor_bias = np.arange(self.get_size() + 1, size + 1)
             self.v = np.concatenate(
                 (
                     self.v,
-- 
2.43.0


From 865dff460eece70e182d026cf615c4157cf3d924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 02/55] fix: Pitman-Yor variational summaries honour the
 truncation and normaliser

fit_variational documents q as truncated with the last stick equal to one, as
the Dirichlet process does; the summaries ignored it, so the mean weights did
not add up to one, groups beyond the truncation raised IndexError, and the
normalising constant of the prior term was wrong.
---
 .../weight_models/_pitman_yor_process.py      | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index f5a6fc2..a4311fa 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -81,13 +81,15 @@ class PitmanYorProcess(BaseWeight):
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
+        if j >= self.variational_k:
+            return -np.inf
         res = 0
         for jj in range(j):
             res += mean_log_beta(self.variational_params[jj][1],
                                  self.variational_params[jj][0])
-        res += mean_log_beta(self.variational_params[j, 0],
-                             self.variational_params[j, 1]
-                             )
+        if j < self.variational_k - 1:
+            res += mean_log_beta(self.variational_params[j, 0],
+                                 self.variational_params[j, 1])
         return res
 
     def variational_mean_log_p_d__w(self, variational_d=None):
@@ -106,13 +108,13 @@ class PitmanYorProcess(BaseWeight):
         if self.variational_d is None:
             raise NotFittedError
         res = 0
-        for j, params in enumerate(self.variational_params):
+        for j, params in enumerate(self.variational_params[:-1]):
             res += mean_log_beta(params[0], params[1]) * -self.pyd
             res += mean_log_beta(params[1], params[0]) * (
                     self.alpha + (j + 1) * self.pyd - 1
             )
             res += loggamma(self.alpha + j * self.pyd + 1)
-            res -= loggamma(self.alpha + (j + 1) * self.pyd + 1)
+            res -= loggamma(self.alpha + (j + 1) * self.pyd)
             res -= loggamma(1 - self.pyd)
         return res
 
@@ -120,7 +122,7 @@ class PitmanYorProcess(BaseWeight):
         if self.variational_d is None:
             raise NotFittedError
         res = 0
-        for params in self.variational_params:
+        for params in self.variational_params[:-1]:
             res += (params[0] - 1) * mean_log_beta(params[0], params[1])
             res += (params[1] - 1) * mean_log_beta(params[1], params[0])
             res += loggamma(params[0] + params[1])
@@ -128,17 +130,19 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         res = 1
         for jj in range(j):
             res *= (self.variational_params[jj][1] /
                     self.variational_params[jj].sum())
-        res *= self.variational_params[j, 0] / self.variational_params[j].sum()
+        if j < self.variational_k - 1:
+            res *= self.variational_params[j, 0] / self.variational_params[
+                j].sum()
         return res
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         res = 1
         for jj in range(j):
@@ -151,7 +155,8 @@ class PitmanYorProcess(BaseWeight):
                 continue
             res *= ((self.variational_params[jj, 1] - 1) /
                     (self.variational_params[jj].sum() - 2))
-
+        if j == self.variational_k - 1:
+            return res
         if self.variational_params[j, 0] <= 1:
             if self.variational_params[j, 1] <= 1:
                 raise ValueError('multimodal distribution')
-- 
2.43.0


From 91bbed6abe06cc90bc60f4e9587d12b9bca52466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 03/55] fix: count only the random sticks in the Dirichlet
 process prior term

The last of the variational_k sticks is fixed at one, so only
variational_k - 1 prior densities enter the expectation.
---
 pyrichlet/weight_models/_dirichlet_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index c493052..318d09e 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -99,7 +99,7 @@ class DirichletProcess(BaseWeight):
         for params in self.variational_params[:-1]:
             res += mean_log_beta(params[1], params[0])
         res *= self.alpha - 1
-        res += self.variational_k * np.log(self.alpha)
+        res += (self.variational_k - 1) * np.log(self.alpha)
         return res
 
     def variational_mean_log_q_w(self):
-- 
2.43.0


From 35ec3f8ba0f150ffa6df357af13fc6809269bcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 04/55] fix: score the sticks drawn by the Dirichlet process
 themselves

Recovering them from the weights gives NaN as soon as a weight underflows.
---
 pyrichlet/weight_models/_dirichlet_process.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index 318d09e..501fad1 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -13,13 +13,9 @@ class DirichletProcess(BaseWeight):
         self.v = np.array([], dtype=np.float64)
 
     def weighting_log_likelihood(self):
-        v = self.w[0]
-        ret = log_likelihood_beta(v, 1, self.alpha)
-        prod_v = 1 - v
-        for wj in self.w[1:]:
-            v = wj / prod_v
+        ret = 0
+        for v in self.v:
             ret += log_likelihood_beta(v, 1, self.alpha)
-            prod_v *= (1 - v)
         return ret
 
     def random(self, size=None):
-- 
2.43.0


From 678e0f0a2a84a7f77dad55e9a2f7fb5950f43482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 05/55] fix: Beta-in-Beta log-likelihood at x = 0, at x = 1 and
 for underflowing weights

x = 1 divided by zero; at x = 0 the inner probability plays no role but its
prior was evaluated at the unused p; sticks recovered from the weights gave NaN
as soon as a weight underflowed.
---
 pyrichlet/weight_models/_beta_in_beta.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index a685a1a..ed78a38 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -24,16 +24,14 @@ class BetaInBeta(BaseWeight):
         self._validate_params()
 
     def weighting_log_likelihood(self):
-        v = self.w[0]
-        beta_a = 1 + self.x / (1 - self.x) * self.p
-        beta_b = self.alpha + self.x / (1 - self.x) * (1 - self.p)
-        ret = log_likelihood_beta(v, beta_a, beta_b)
-        prod_v = 1 - v
-        for wj in self.w[1:]:
-            v = wj / prod_v
-            ret += log_likelihood_beta(v, beta_a, beta_b)
-            prod_v *= (1 - v)
-        ret += self._internal_beta_log_likelihood()
+        ret = 0
+        if self.x < 1:
+            beta_a = 1 + self.x / (1 - self.x) * self.p
+            beta_b = self.alpha + self.x / (1 - self.x) * (1 - self.p)
+            for v in self.v:
+                ret += log_likelihood_beta(v, beta_a, beta_b)
+        if self.x > 0:
+            ret += self._internal_beta_log_likelihood()
         return ret
 
     def _internal_beta_log_likelihood(self):
-- 
2.43.0


From b9b058ddb0178f84ab9aa983d1e170c8fbb5e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 06/55] fix: Beta-in-Beta draws its inner probability when it
 starts, not when it extends

The test len(self.v == 0) is true exactly when there are sticks already, so a
first extension used the constructor's p (all-zero weights at x = 1) and later
ones replaced the p that generated the existing sticks.
---
 pyrichlet/weight_models/_beta_in_beta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index ed78a38..107dcd3 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -72,7 +72,7 @@ class BetaInBeta(BaseWeight):
 
     def complete(self, size):
         super().complete(size)
-        if len(self.v == 0):
+        if len(self.v) == 0:
             self.random_p()
         if len(self.v) < size:
             if self.x < 1:
-- 
2.43.0


From 6ea26dd0e728b2e080055502ef0f60c6fc909b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 07/55] fix: Beta-in-Beta updates its inner probability given
 the current sticks

random() emptied the sticks before random_p, so the max-likelihood and
inverse-sampling methods ignored them and always returned a prior value.
---
 pyrichlet/weight_models/_beta_in_beta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 107dcd3..1ea2398 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -40,8 +40,8 @@ class BetaInBeta(BaseWeight):
     def random(self, size=None):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
-        self.v = self.v[:0]
         if len(self.d) == 0:
+            self.v = self.v[:0]
             self.complete(size)
         else:
             if self.x > 0:
-- 
2.43.0


From 9da5c0f5881756925c092632a5ef1481c1f299df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 08/55] fix: Beta-Bernoulli extension of an empty structure to
 a single weight

complete(1) on a new model indexed an empty array (this is the tail() path of
every Beta-Bernoulli mixture whose first weight is already enough).
---
 pyrichlet/weight_models/_beta_bernoulli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 9e4255c..6b87907 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -70,6 +70,7 @@ class BetaBernoulli(BaseWeight):
         if len(self.v) < size:
             if len(self.v) == 0:
                 self.v = self._rng.beta(a=1, b=self.alpha, size=1)
+                self.bernoullis = np.array([1], dtype=int)
             mask_change = self._rng.binomial(n=1,
                                              p=self.p,
                                              size=size - len(self.v))
@@ -77,7 +78,8 @@ class BetaBernoulli(BaseWeight):
             mask_change = np.cumsum(mask_change)
             temp_v = np.concatenate((
                 [self.v[-1]],
-                self._rng.beta(a=1, b=self.alpha, size=mask_change[-1])))
+                self._rng.beta(a=1, b=self.alpha, size=mask_change.max(
+                    initial=0))))
             self.v = np.concatenate((self.v, temp_v[mask_change]))
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
-- 
2.43.0


From 081b03f7ef38cfa91c7150c2bc5b20c2ab18a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 09/55] fix: Beta-Bernoulli log-likelihood of the indicators
 and new sticks

An indicator equal to one marks a stick drawn anew, but the stick densities
were counted where the indicator is zero; the probability of keeping a stick
was left out, and the meaningless indicator of the first stick was counted.
---
 pyrichlet/weight_models/_beta_bernoulli.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 6b87907..df774e3 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -1,6 +1,6 @@
 from ._base import BaseWeight
 import numpy as np
-from scipy.special import beta as betaf
+from scipy.special import beta as betaf, xlogy
 
 from ..utils.functions import log_likelihood_beta
 
@@ -19,17 +19,15 @@ class BetaBernoulli(BaseWeight):
         return ret
 
     def _bernoulli_structure_log_likelihood(self):
-        ret = 0
-        if self.p == 0:
-            return ret
-        for b in self.bernoullis:
-            ret += b * np.log(self.p)
-        return ret
+        # The first stick is always new, its indicator is not random
+        changes = np.sum(self.bernoullis[1:])
+        keeps = len(self.bernoullis[1:]) - changes
+        return xlogy(changes, self.p) + xlogy(keeps, 1 - self.p)
 
     def _beta_structure_log_likelihood(self):
         ret = log_likelihood_beta(self.v[0], 1, self.alpha)
         for j in range(1, len(self.v)):
-            if not self.bernoullis[j]:
+            if self.bernoullis[j]:
                 ret += log_likelihood_beta(self.v[j], 1, self.alpha)
         return ret
 
-- 
2.43.0


From c3a143b046cc80018f320b7d1249d0b46c177831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 10/55] fix: Beta-Bernoulli indicators are drawn from their
 full conditional

With assignments fitted and 0 < p < 1 the update evaluated the Beta function
at zero counts (NaN probability, ValueError from the generator), used block
marginals that are not those of the model, left the last indicator out and
forgot the previous indicators, so it was no Gibbs update of the posterior.
---
 pyrichlet/weight_models/_beta_bernoulli.py | 68 +++++++++++-----------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index df774e3..7ea69c2 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -1,6 +1,6 @@
 from ._base import BaseWeight
 import numpy as np
-from scipy.special import beta as betaf, xlogy
+from scipy.special import betaln, expit, xlogy
 
 from ..utils.functions import log_likelihood_beta
 
@@ -84,37 +84,39 @@ class BetaBernoulli(BaseWeight):
         return self.w
 
     def _random_bernoullis(self, size):
-        bernoullis = self._rng.binomial(n=1, p=self.p, size=size)
-        self.bernoullis[0] = 1
-        if len(self.d) > 0:
-            size_fit = self.d.max()
-            a_c = np.bincount(self.d)
-            b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
-            bernoullis[0] = 0
-            for j in range(1, size_fit):
-                a_j_prime, b_j_prime, g_plus = 0, 0, 1
-                k = j + 1
-                for b in bernoullis[j + 1:]:
-                    if b == 1:
-                        break
-                    a_j_prime += a_c[k]
-                    b_j_prime += b_c[k]
-                    k += 1
-                    g_plus = betaf(a_j_prime, b_j_prime) * self.alpha
-                a_j_prime += a_c[j]
-                b_j_prime += b_c[j]
-                k = j - 1
-                for b in bernoullis[:j][::-1]:
-                    if b == 1:
-                        break
-                    a_j_prime += a_c[k]
-                    b_j_prime += b_c[k]
-                    k -= 1
-                g_minus = betaf(a_j_prime, b_j_prime) * self.alpha
-                p = self.p
-                p_times_plus = p * g_plus if p > 0 else 0
-                not_p_times_minus = (1 - p) * g_minus if p < 1 else 0
-                p = p_times_plus / (p_times_plus + not_p_times_minus)
-                bernoullis[j] = self._rng.binomial(n=1, p=p)
+        if len(self.d) == 0:
+            self.bernoullis = self._rng.binomial(n=1, p=self.p, size=size)
+            return self.bernoullis
+        # Gibbs update of each indicator given the others and the assignations,
+        # starting from the last ones drawn. The sticks are integrated out, so
+        # a block of equal sticks contributes alpha * B(1 + a, alpha + b).
+        bernoullis = self.bernoullis[:size].copy()
+        if len(bernoullis) < size:
+            bernoullis = np.concatenate((
+                bernoullis,
+                self._rng.binomial(n=1, p=self.p,
+                                   size=size - len(bernoullis))))
+        bernoullis[0] = 0
+        a_c = np.bincount(self.d)
+        b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
+        with np.errstate(divide='ignore'):
+            log_odds_p = (np.log(self.p) - np.log(1 - self.p)
+                          + np.log(self.alpha))
+        for j in range(1, size):
+            start = j - 1
+            while start > 0 and bernoullis[start] == 0:
+                start -= 1
+            end = j + 1
+            while end < size and bernoullis[end] == 0:
+                end += 1
+            a_left, a_right = a_c[start:j].sum(), a_c[j:end].sum()
+            b_left, b_right = b_c[start:j].sum(), b_c[j:end].sum()
+            log_odds = (
+                    log_odds_p
+                    + betaln(1 + a_left, self.alpha + b_left)
+                    + betaln(1 + a_right, self.alpha + b_right)
+                    - betaln(1 + a_left + a_right,
+                             self.alpha + b_left + b_right))
+            bernoullis[j] = self._rng.binomial(n=1, p=expit(log_odds))
         self.bernoullis = bernoullis
         return self.bernoullis
-- 
2.43.0


From b1114b5ca7710466e40bffc72b94d67798428715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 11/55] fix: Beta-Binomial log-likelihood pairs every count
 with its sticks

The count that leads to stick j is Binomial(n, stick j - 1); the loop used
stick j for both, so the first stick and the last count never entered.
---
 pyrichlet/weight_models/_beta_binomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 4601f7d..4e0b376 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -17,8 +17,8 @@ class BetaBinomial(BaseWeight):
     def weighting_log_likelihood(self):
         b = self.binomials[0]
         res = log_likelihood_beta_binom(b, self.n, 1, self.alpha)
-        for j in range(1, len(self.v) - 1):
-            v = self.v[j]
+        for j in range(1, len(self.v)):
+            v = self.v[j - 1]
             res += log_likelihood_beta(v, 1 + b,
                                        self.alpha + self.n - b)
             b = self.binomials[j]
-- 
2.43.0


From d7de75b19af0c2efb606632796496b7b0858b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 12/55] fix: Beta-Binomial counts and sticks are drawn from
 their full conditionals

With assignments fitted and n > 0 the counts were drawn from sticks that knew
nothing of the model's previous sticks, one count too many was kept (so later
extensions were misaligned with the sticks) and the last stick was tied to a
count that does not exist. The update is now the Gibbs update given the last
sticks drawn.
---
 pyrichlet/weight_models/_beta_binomial.py | 34 ++++++++++++++++-------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 4e0b376..2d70051 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -1,5 +1,6 @@
 from ._base import BaseWeight
 import numpy as np
+from scipy.special import betaln, xlogy, xlog1py
 
 from ..utils.functions import log_likelihood_beta, log_likelihood_beta_binom, \
     log_likelihood_binom
@@ -34,16 +35,18 @@ class BetaBinomial(BaseWeight):
                 raise ValueError(
                     "Weight structure not fitted and `n` not passed.")
             size = 1
-        self.v = self.v[:0]
         if len(self.d) == 0:
+            self.v = self.v[:0]
             self.complete(size)
         else:
             self._random_binomials()
             a_c = np.bincount(self.d)
             b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
-            beta_phased = self.binomials[:-1] + self.binomials[1:]
-            a = 1 + a_c + beta_phased
-            b = self.alpha + b_c + 2 * self.n - beta_phased
+            # Each stick follows its own count and generates the next one
+            a = 1 + a_c + self.binomials
+            b = self.alpha + b_c + self.n - self.binomials
+            a[:-1] += self.binomials[1:]
+            b[:-1] += self.n - self.binomials[1:]
             self.v = self._rng.beta(a=a, b=b)
             self.w = self.v * np.cumprod(np.concatenate(([1],
                                                          1 - self.v[:-1])))
@@ -72,10 +75,21 @@ class BetaBinomial(BaseWeight):
         return self.w
 
     def _random_binomials(self):
-        a_c = np.bincount(self.d)
-        b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
-        a_c = np.append(0, a_c)
-        b_c = np.append(0, b_c)
-        beta_rv = self._rng.beta(1 + a_c, self.alpha + b_c)
-        self.binomials = self._rng.binomial(self.n, beta_rv)
+        # Gibbs update of the counts given the last sticks drawn, those not
+        # drawn yet come from the prior
+        size = int(self.d.max()) + 1
+        self.complete(size)
+        v = self.v[:size]
+        x = np.arange(self.n + 1)
+        log_base = - betaln(1 + x, 1 + self.n - x) - betaln(
+            1 + x, self.alpha + self.n - x)
+        self.binomials = np.empty(size, dtype=int)
+        self.binomials[0] = self._rng.binomial(self.n, v[0])
+        for j in range(1, size):
+            log_prob = (log_base
+                        + xlogy(x, v[j - 1]) + xlogy(x, v[j])
+                        + xlog1py(self.n - x, -v[j - 1])
+                        + xlog1py(self.n - x, -v[j]))
+            p = np.exp(log_prob - log_prob.max())
+            self.binomials[j] = self._rng.choice(self.n + 1, p=p / p.sum())
         return self.binomials
-- 
2.43.0


From 9cb58936cafd66d535ca3ebe5909547919da1279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 13/55] fix: Beta-in-Dirichlet log-likelihood at a = 0

There is a single table with probability one; the partition probability
evaluated to NaN.
---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 2c92567..1b364ec 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -21,7 +21,8 @@ class BetaInDirichlet(BaseWeight):
         ret = 0
         for vj in v_unique:
             ret += log_likelihood_beta(vj, 1, self.alpha)
-        ret += dirichlet_log_eppf(self.a, v_counts)
+        if self.a > 0:
+            ret += dirichlet_log_eppf(self.a, v_counts)
         return ret
 
     def random(self, size=None, u=None):
-- 
2.43.0


From 75f687ef20f4533ccc510e911b1a4bfc1c1a17f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:08 +0000
Subject: [PATCH 14/55] fix: Beta-in-Dirichlet complete() returns the weights

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 1b364ec..82d5640 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -103,6 +103,7 @@ class BetaInDirichlet(BaseWeight):
         return self.w
 
     def complete(self, size):
+        super().complete(size)
         if len(self._v_base) == 0:
             self._v_base = self._rng.beta(1, self.alpha, size=1)
             self._count_base = [1]
@@ -121,3 +122,4 @@ class BetaInDirichlet(BaseWeight):
             self._d_base = np.append(self._d_base, jj)
         self.w = self.v * np.cumprod(np.concatenate(([1],
                                                      1 - self.v[:-1])))
+        return self.w
-- 
2.43.0


From a128916b0d121161c3a86768cc8f32a7d11e53e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 15/55] fix: Beta-in-Dirichlet inner groups are drawn from
 their full conditional

With assignments fitted and a > 0 the update failed for a single group, left
alpha out of the probability of a new inner group, gave new inner groups a
value from the prior (or a stale one) instead of the posterior, and prior
draws kept appending to the inner assignations of earlier draws.
---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 61 +++++++------------
 1 file changed, 22 insertions(+), 39 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 82d5640..5d3b8b5 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -1,8 +1,7 @@
 import numpy as np
-from scipy.special import loggamma
+from scipy.special import betaln, xlogy, xlog1py
 
 from ._base import BaseWeight
-from ..mixture_models._utils import gumbel_max_sampling
 from ..utils.functions import log_likelihood_beta, dirichlet_log_eppf
 
 
@@ -34,6 +33,7 @@ class BetaInDirichlet(BaseWeight):
         self.v = self.v[:0]
         self._v_base = self._v_base[:0]
         if len(self.d) == 0:
+            self._d_base = self._d_base[:0]
             self.complete(size)
             return self.w
         n = max(self.d) + 1
@@ -57,44 +57,27 @@ class BetaInDirichlet(BaseWeight):
         # assignations. It is, update inner d_jj given d_{-jj}, inner v.
         for j in range(n):
             if self.a == 0:
-                if j < len(self._d_base):
-                    self._d_base[j] = 0
-                else:
-                    self._d_base = np.append(self._d_base, 0)
+                self._d_base[j] = 0
                 continue
-            d_base_reduced = np.delete(self._d_base, j)
-            k = np.max(d_base_reduced)
-            log_prob = []
-            new_base = False
-            for dd in range(k + 2):
-                base_count = sum(d_base_reduced == dd)
-                if base_count == 0 and not new_base:
-                    new_base = True
-                    temp_log_prob = (
-                            np.log(self.a) + loggamma(1 + a_c[j])
-                            + loggamma(self.alpha + b_c[j])
-                            - loggamma(1 + self.alpha + a_c[j] + b_c[j]))
-                    log_prob.append(temp_log_prob)
-                    continue
-                if base_count == 0:
-                    if dd < k + 1:
-                        log_prob.append(-np.inf)
-                    continue
-                temp_log_prob = (
-                        np.log(base_count)
-                        + a_c[j] * np.log(self._v_base[dd])
-                        + b_c[j] * np.log(1 - self._v_base[dd]))
-                log_prob.append(temp_log_prob)
-            log_prob = np.array(log_prob)
-            if j < len(self._d_base):
-                self._d_base[j] = gumbel_max_sampling(log_prob, rng=self._rng)
-            else:
-                self._d_base = np.append(self._d_base,
-                                         gumbel_max_sampling(log_prob,
-                                                             rng=self._rng))
-            if max(self._d_base) <= len(self._v_base):
-                self._v_base = np.concatenate((
-                    self._v_base, [self._rng.beta(a=1, b=self.alpha)]))
+            counts = np.bincount(np.delete(self._d_base, j),
+                                 minlength=len(self._v_base))
+            with np.errstate(divide='ignore'):
+                log_prob = (np.log(counts)
+                            + xlogy(a_c[j], self._v_base)
+                            + xlog1py(b_c[j], -self._v_base))
+            # A new inner group has its inner weight integrated out
+            log_prob_new = (np.log(self.a) + np.log(self.alpha)
+                            + betaln(1 + a_c[j], self.alpha + b_c[j]))
+            log_prob = np.append(log_prob, log_prob_new)
+            p = np.exp(log_prob - log_prob.max())
+            self._d_base[j] = self._rng.choice(len(p), p=p / p.sum())
+            if self._d_base[j] == len(self._v_base):
+                self._v_base = np.append(
+                    self._v_base,
+                    self._rng.beta(a=1 + a_c[j], b=self.alpha + b_c[j]))
+        # Forget the inner groups left empty
+        labels, self._d_base = np.unique(self._d_base, return_inverse=True)
+        self._v_base = self._v_base[labels]
         self._count_base = [
             np.sum(self._d_base == j) for j in range(len(self._v_base))]
         self.v = self._v_base[self._d_base]
-- 
2.43.0


From ae74824b2eed282f9ad41f4aa1bd18b6c695921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 16/55] fix: Beta-in-Dirichlet fitted draws reach the requested
 size

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 5d3b8b5..6b5eff6 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -83,6 +83,8 @@ class BetaInDirichlet(BaseWeight):
         self.v = self._v_base[self._d_base]
         self.w = self.v * np.cumprod(np.concatenate(([1],
                                                      1 - self.v[:-1])))
+        if size is not None:
+            self.complete(size)
         return self.w
 
     def complete(self, size):
-- 
2.43.0


From a28a28dc75f13f2e2763e2fcd723a96c238d811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 17/55] fix: accept every numpy integer as a size

Integer assignments of another width made assignation_log_likelihood fail with
TypeError, because the requested size was compared with int and int64 only.
---
 pyrichlet/weight_models/_base.py              | 3 ++-
 pyrichlet/weight_models/_beta_in_dirichlet.py | 2 +-
 pyrichlet/weight_models/_dirichlet_process.py | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 9ce64d7..4f3785a 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -63,7 +63,8 @@ class BaseWeight(ABC):
         np.array
             Array of the weighted structure.
         """
-        if size is not None and type(size) not in (int, np.int64):
+        if size is not None and not isinstance(size, (int,
+                                                          np.integer)):
             raise TypeError("size parameter must be integer or None")
 
     def weighting_log_likelihood(self):
diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 6b5eff6..241f6b1 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -28,7 +28,7 @@ class BetaInDirichlet(BaseWeight):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if size is not None:
-            if type(size) is not int:
+            if not isinstance(size, (int, np.integer)):
                 raise TypeError("size parameter must be integer or None")
         self.v = self.v[:0]
         self._v_base = self._v_base[:0]
diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index 501fad1..9bfcf21 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -22,7 +22,7 @@ class DirichletProcess(BaseWeight):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if size is not None:
-            if type(size) is not int:
+            if not isinstance(size, (int, np.integer)):
                 raise TypeError("size parameter must be integer or None")
         self.v = self.v[:0]
         if len(self.d) == 0:
-- 
2.43.0


From e982e852bcb823ed77b6e8877678101ae1558b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 18/55] fix: random_assignment of a single index, and never out
 of range

Without a size the sum was taken over an axis that does not exist, and a
uniform above a total rounded down to less than one gave the index after the
last.
---
 pyrichlet/weight_models/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 4f3785a..aa51796 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -154,9 +154,9 @@ class BaseWeight(ABC):
         state normalized weighting structure"""
         u = self._rng.uniform(size=size)
         inverse_sampling = np.greater.outer(
-            u, self.get_normalized_cumulative_weights()
+            u, self.get_normalized_cumulative_weights()[:-1]
         )
-        return np.sum(inverse_sampling, axis=1)
+        return np.sum(inverse_sampling, axis=-1)
 
     def fit_variational(self, variational_d):
         """Fits the variational distribution q
-- 
2.43.0


From 314d4fe15723ecda8aa77f3719725c988415688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 19/55] fix: tail() of finite structures terminates

The total of a finite structure may round to less than one, and no extension
can ever reach an x above it.
---
 pyrichlet/weight_models/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index aa51796..28c9d5d 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -117,7 +117,11 @@ class BaseWeight(ABC):
         if len(self.w) == 0:
             self.random(1)
         while self.w.sum() < x:
-            self.complete(len(self.w) + 1)
+            size = len(self.w)
+            self.complete(size + 1)
+            if len(self.w) == size:
+                # A finite structure, short of x by rounding only
+                break
         return self.w
 
     def assignation_log_likelihood(self, d=None):
-- 
2.43.0


From ebd4074f2df4211fc0c164c786dcebf58795291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 20/55] fix: geometric tail() reaches the requested mass

1 - (1 - p)^k >= x needs the ceiling; rounding down returned too little mass,
and no weight at all for x < p.
---
 pyrichlet/weight_models/_geometric_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 66852a5..9ceae52 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -40,7 +40,8 @@ class GeometricProcess(BaseWeight):
     def tail(self, x):
         if x >= 1 or x < 0:
             raise ValueError("Tail parameter not in range [0,1)")
-        size = int(np.log(1 - x) / np.log(1 - self.p))
+        with np.errstate(divide='ignore'):
+            size = max(1, int(np.ceil(np.log1p(-x) / np.log1p(-self.p))))
         self.complete(size)
         return self.w
 
-- 
2.43.0


From 3565c706387a93efcf9243139b9bb6340d2206cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 21/55] fix: geometric variational summaries are those of a
 truncated posterior

fit_variational documents q as truncated so that the last group takes the rest.
The update added N - 1 successes whatever the responsibilities, the expected
log-likelihood of the assignations left the group index out, the mean weights
were a plug-in (and one beyond the truncation) and did not add up to one, and
the mode beyond the truncation was None.
---
 pyrichlet/weight_models/_geometric_process.py | 45 +++++++++++--------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 9ceae52..57018d1 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -49,8 +49,7 @@ class GeometricProcess(BaseWeight):
         self.variational_d = variational_d
         self.variational_k = len(self.variational_d)
         self.variational_params = np.empty(2, dtype=np.float64)
-        self.variational_params[0] = self.a + max(len(self.variational_d[0]),
-                                                  1) - 1
+        self.variational_params[0] = self.a + self.variational_d[:-1].sum()
         self.variational_params[1] = (
                 self.b + (self.variational_d[1:].T *
                           range(1, self.variational_k)).sum()
@@ -59,9 +58,13 @@ class GeometricProcess(BaseWeight):
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        res = mean_log_beta(self.variational_params[0],
-                            self.variational_params[1]
-                            )
+        if j >= self.variational_k:
+            return -np.inf
+        res = 0
+        if j < self.variational_k - 1:
+            res += mean_log_beta(self.variational_params[0],
+                                 self.variational_params[1]
+                                 )
         if j > 0:
             res += mean_log_beta(self.variational_params[1],
                                  self.variational_params[0]
@@ -75,14 +78,9 @@ class GeometricProcess(BaseWeight):
                 raise NotFittedError
         else:
             _variational_d = variational_d
-        res = mean_log_beta(self.variational_params[0],
-                            self.variational_params[1]
-                            ) * len(_variational_d[0])
-        e_log_v_bar = mean_log_beta(self.variational_params[1],
-                                    self.variational_params[0]
-                                    )
+        res = 0
         for j, nj in enumerate(np.sum(_variational_d, 1)):
-            res += nj * e_log_v_bar
+            res += nj * self.variational_mean_log_w_j(j)
         return res
 
     def variational_mean_log_p_w(self):
@@ -107,21 +105,30 @@ class GeometricProcess(BaseWeight):
 
     def variational_mean_w_j(self, j):
         if j >= self.variational_k:
-            return 1
-        p = self.variational_params[0] / self.variational_params.sum()
-        return p * (1 - p) ** j
+            return 0
+        a, b = self.variational_params
+        res = loggamma(b + j) - loggamma(b)
+        if j < self.variational_k - 1:
+            res += np.log(a) + loggamma(a + b) - loggamma(a + b + j + 1)
+        else:
+            res += loggamma(a + b) - loggamma(a + b + j)
+        return np.exp(res)
 
     def variational_mode_w_j(self, j):
-        if j > self.variational_k:
-            return
+        if j >= self.variational_k:
+            return 0
+        if self.variational_k == 1:
+            return 1
         if self.variational_params[0] <= 1:
             if self.variational_params[1] <= 1:
                 raise ValueError('multimodal distribution')
             else:
-                return 0
+                return 1 * (j == self.variational_k - 1)
         elif self.variational_params[1] <= 1:
             return 1 * (j == 0)
         p = ((self.variational_params[0] - 1) /
              (self.variational_params.sum() - 2))
-        res = (1 - p) ** j * p
+        res = (1 - p) ** j
+        if j < self.variational_k - 1:
+            res *= p
         return res
-- 
2.43.0


From b84c159df85469ea96436c573bc334ec9f43d9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 22/55] fix: variational summaries ask to be fitted first

The mean and the mode of a weight (and every summary of the equal weighting)
failed with TypeError or answered from nothing instead of raising
NotFittedError.
---
 pyrichlet/weight_models/_dirichlet_distribution.py |  4 ++++
 pyrichlet/weight_models/_dirichlet_process.py      |  4 ++++
 pyrichlet/weight_models/_equal.py                  | 10 ++++++++++
 pyrichlet/weight_models/_frequency.py              |  4 ++++
 pyrichlet/weight_models/_geometric_process.py      |  4 ++++
 pyrichlet/weight_models/_pitman_yor_process.py     |  4 ++++
 6 files changed, 30 insertions(+)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index e7995e3..21b55a4 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -94,11 +94,15 @@ class DirichletDistribution(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j > self.variational_k:
             return 0
         return self.variational_params[j] / self.variational_params.sum()
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j > self.variational_k:
             return 0
         alpha = self.variational_params.sum()
diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index 9bfcf21..4fbbeba 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -110,6 +110,8 @@ class DirichletProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         res = 1
@@ -122,6 +124,8 @@ class DirichletProcess(BaseWeight):
         return res
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         res = 1
diff --git a/pyrichlet/weight_models/_equal.py b/pyrichlet/weight_models/_equal.py
index 46f2a2a..af50652 100644
--- a/pyrichlet/weight_models/_equal.py
+++ b/pyrichlet/weight_models/_equal.py
@@ -25,6 +25,8 @@ class EqualWeighting(BaseWeight):
         self.variational_k = self.n
 
     def variational_mean_log_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         return np.log(1 / self.n) * (j < self.n)
 
     def variational_mean_log_p_d__w(self, variational_d=None):
@@ -36,13 +38,21 @@ class EqualWeighting(BaseWeight):
         return _variational_d.shape[1] * np.log(self.n)
 
     def variational_mean_log_p_w(self):
+        if self.variational_d is None:
+            raise NotFittedError
         return 0
 
     def variational_mean_log_q_w(self):
+        if self.variational_d is None:
+            raise NotFittedError
         return 0
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         return 1 / self.n * (j < self.n)
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         return 1 / self.n * (j < self.n)
diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index 05265fd..ed85861 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -59,11 +59,15 @@ class FrequencyWeighting(BaseWeight):
         return 0
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         return self.variational_d.sum(1)[j] / self.variational_d.sum()
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j > self.variational_k:
             return 0
         return self.variational_d.sum(1)[j] / self.variational_d.sum()
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 57018d1..e5b3254 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -104,6 +104,8 @@ class GeometricProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         a, b = self.variational_params
@@ -115,6 +117,8 @@ class GeometricProcess(BaseWeight):
         return np.exp(res)
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         if self.variational_k == 1:
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index a4311fa..ee3aaea 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -130,6 +130,8 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         res = 1
@@ -142,6 +144,8 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         res = 1
-- 
2.43.0


From 6b63f1afc40718179ab6a0a43ae460f6e655e45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 23/55] fix: Dirichlet distribution variational expectations

E[log w_j] is digamma(a_j) - digamma(sum a), the prior term weighs each of them
with its own alpha_j - 1, and groups start beyond the truncation at j = n.
---
 .../weight_models/_dirichlet_distribution.py  | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index 21b55a4..dd971ce 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -1,10 +1,9 @@
 from ._base import BaseWeight
 from ..exceptions import NotFittedError
-from ..utils.functions import mean_log_beta
 
 import numpy as np
 from scipy.stats import dirichlet
-from scipy.special import loggamma
+from scipy.special import digamma, loggamma
 
 
 class DirichletDistribution(BaseWeight):
@@ -55,8 +54,10 @@ class DirichletDistribution(BaseWeight):
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        return mean_log_beta(self.variational_params[j],
-                             self.variational_params.sum())
+        if j >= self.variational_k:
+            return -np.inf
+        return (digamma(self.variational_params[j])
+                - digamma(self.variational_params.sum()))
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         if variational_d is None:
@@ -73,12 +74,9 @@ class DirichletDistribution(BaseWeight):
     def variational_mean_log_p_w(self):
         if self.variational_d is None:
             raise NotFittedError
-        log_sum_w_j = 0
-        for j in range(self.variational_k):
-            log_sum_w_j += self.variational_mean_log_w_j(j)
-        log_sum_w_j *= self.alpha.sum() - 1
         res = self._log_normalization_constant(self.alpha)
-        res += log_sum_w_j
+        for j in range(self.variational_k):
+            res += (self.alpha[j] - 1) * self.variational_mean_log_w_j(j)
         return res
 
     def variational_mean_log_q_w(self):
@@ -96,14 +94,14 @@ class DirichletDistribution(BaseWeight):
     def variational_mean_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         return self.variational_params[j] / self.variational_params.sum()
 
     def variational_mode_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         alpha = self.variational_params.sum()
         if self.variational_params[j] <= 1:
-- 
2.43.0


From b0b5b65a0534c0cd681d993a61c0d2f624f1a370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 24/55] fix: frequency weighting variational summaries

The truncation was taken from the number of observations instead of groups,
the mean log weight was the weight itself, empty groups and fits without
observations gave NaN, and evaluating the assignation term for other
responsibilities replaced the fitted ones.
---
 pyrichlet/weight_models/_frequency.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index ed85861..e3354ae 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -2,6 +2,7 @@ from ._base import BaseWeight
 from ..exceptions import NotFittedError
 
 import numpy as np
+from scipy.special import xlogy
 
 
 class FrequencyWeighting(BaseWeight):
@@ -25,28 +26,25 @@ class FrequencyWeighting(BaseWeight):
 
     def fit_variational(self, variational_d: np.ndarray):
         self.variational_d = variational_d
-        self.variational_k = variational_d.shape[1]
-        if self.variational_k == 0:
-            self.variational_k = self.n
+        self.variational_k = variational_d.shape[0]
 
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
         if j >= self.variational_k:
             return -np.inf
-        if self.variational_d.shape[1]:
-            return self.variational_d.sum(1)[j] / self.variational_d.sum()
-        return np.log(1 / self.variational_k)
+        with np.errstate(divide='ignore'):
+            return np.log(self.variational_mean_w_j(j))
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         if variational_d is None:
             if self.variational_d is None:
                 raise NotFittedError
             variational_d = self.variational_d
-        else:
-            self.variational_d = variational_d
-        return np.sum(variational_d.sum(1) * np.log(self.variational_d.sum(1) /
-                                                    self.variational_d.sum()))
+        res = 0
+        for j, nj in enumerate(variational_d.sum(1)):
+            res += xlogy(nj, self.variational_mean_w_j(j))
+        return res
 
     def variational_mean_log_p_w(self):
         if self.variational_d is None:
@@ -63,11 +61,11 @@ class FrequencyWeighting(BaseWeight):
             raise NotFittedError
         if j >= self.variational_k:
             return 0
+        if self.variational_d.shape[1] == 0:
+            return 1 / self.variational_k
         return self.variational_d.sum(1)[j] / self.variational_d.sum()
 
     def variational_mode_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        if j > self.variational_k:
-            return 0
-        return self.variational_d.sum(1)[j] / self.variational_d.sum()
+        return self.variational_mean_w_j(j)
-- 
2.43.0


From af29fd9ec36b90bd1e50c28501297b49d3aea95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 25/55] fix: equal weighting variational summaries

The expected log-likelihood of the assignations had the wrong sign, groups
beyond the truncation had mean log weight zero instead of minus infinity, and
fit_variational replaced the n of the model, so later Gibbs draws had another
number of weights.
---
 pyrichlet/weight_models/_equal.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyrichlet/weight_models/_equal.py b/pyrichlet/weight_models/_equal.py
index af50652..31eca28 100644
--- a/pyrichlet/weight_models/_equal.py
+++ b/pyrichlet/weight_models/_equal.py
@@ -21,21 +21,22 @@ class EqualWeighting(BaseWeight):
 
     def fit_variational(self, variational_d: np.ndarray):
         self.variational_d = variational_d
-        self.n = self.variational_d.shape[0]
-        self.variational_k = self.n
+        self.variational_k = self.variational_d.shape[0]
 
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        return np.log(1 / self.n) * (j < self.n)
+        if j >= self.variational_k:
+            return -np.inf
+        return -np.log(self.variational_k)
 
     def variational_mean_log_p_d__w(self, variational_d=None):
+        if self.variational_d is None:
+            raise NotFittedError
         _variational_d = variational_d
         if _variational_d is None:
             _variational_d = self.variational_d
-            if _variational_d is None:
-                raise NotFittedError
-        return _variational_d.shape[1] * np.log(self.n)
+        return -_variational_d.shape[1] * np.log(self.variational_k)
 
     def variational_mean_log_p_w(self):
         if self.variational_d is None:
@@ -50,9 +51,9 @@ class EqualWeighting(BaseWeight):
     def variational_mean_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        return 1 / self.n * (j < self.n)
+        return 1 / self.variational_k * (j < self.variational_k)
 
     def variational_mode_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        return 1 / self.n * (j < self.n)
+        return 1 / self.variational_k * (j < self.variational_k)
-- 
2.43.0


From b649579b1d0ea3ac90b06727b9b42cc22053aa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 26/55] fix: Dirichlet distribution accepts numpy scalars for
 alpha

They were silently ignored and every later call failed with AttributeError.
---
 pyrichlet/weight_models/_dirichlet_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index dd971ce..41ddc0d 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -14,7 +14,7 @@ class DirichletDistribution(BaseWeight):
         if type(alpha) in (list, np.ndarray):
             self.n = n
             self.alpha = np.array(alpha, dtype=np.float64)
-        elif type(alpha) in (int, float):
+        elif np.isscalar(alpha):
             self.alpha = np.array([alpha] * self.n, dtype=np.float64)
 
     def weighting_log_likelihood(self):
-- 
2.43.0


From 9a841ec6675e875a82f006c3d7476cf3a24b4aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 27/55] fix: Gaussian and Student-t densities use the
 determinant of the precision

The Frobenius norm equals the determinant in dimension one only.
---
 pyrichlet/utils/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/utils/functions.py b/pyrichlet/utils/functions.py
index 4d89809..49e77ef 100644
--- a/pyrichlet/utils/functions.py
+++ b/pyrichlet/utils/functions.py
@@ -31,7 +31,7 @@ def mean_log_beta(a, b):
 def density_students_t(x, mu, precision, nu):
     dim = x.shape[1]
     density = np.exp(loggamma((nu + dim) / 2) - loggamma(nu / 2))
-    density *= np.linalg.norm(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)
+    density *= np.linalg.det(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)
     density *= (1 + np.einsum('ij,jk,ik->i',
                               x - mu, precision, x - mu
                               ) / nu) ** (-(nu + dim) / 2)
@@ -40,7 +40,7 @@ def density_students_t(x, mu, precision, nu):
 
 def density_normal(x, mu, precision):
     dim = x.shape[1]
-    density = np.sqrt((2 * np.pi) ** -dim * np.linalg.norm(precision))
+    density = np.sqrt((2 * np.pi) ** -dim * np.linalg.det(precision))
     density *= np.exp(- np.einsum('ij,jk,ik->i',
                                   x - mu, precision, x - mu
                                   ) / 2)
-- 
2.43.0


From 24b9301668e064a09d9de0ce16937ae2fbeed430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 28/55] fix: Wishart expectations use the determinant of the
 precision

The Frobenius norm equals the determinant in dimension one only, so every
variational update and bound in more dimensions was wrong.
---
 pyrichlet/mixture_models/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 6a7bdef..6cb1150 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -108,7 +108,7 @@ def cluster(x, w, theta):
 
 def log_wishart_normalization_term(precision, scale):
     dim = precision.shape[0]
-    res = np.log(np.linalg.norm(precision)) * (-scale / 2)
+    res = np.linalg.slogdet(precision)[1] * (-scale / 2)
     inverse_term = np.log(2) * (scale * dim / 2)
     inverse_term += np.log(np.pi) * (dim * (dim - 1) / 4)
     for i in range(dim):
@@ -119,7 +119,7 @@ def log_wishart_normalization_term(precision, scale):
 
 def e_log_norm_wishart(precision, scale):
     dim = precision.shape[0]
-    res = np.log(np.linalg.norm(precision))
+    res = np.linalg.slogdet(precision)[1]
     res += dim * np.log(2)
     for i in range(dim):
         res += digamma((scale - i) / 2)
-- 
2.43.0


From 443a7e3bc4f1e1f20ecb44c5791c9d20501ba07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 29/55] fix: variational update of the component parameters

The inverse scale matrix takes the scatter n_j * S_j and the outer product of
the mean deviation; it got S_j and the inner product (a scalar added to every
entry).
---
 pyrichlet/mixture_models/_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 42edc80..779d344 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -997,7 +997,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             x_bar_j = (vd_j / n_j) @ self.y
             ns_j = np.einsum('i,ij,ik->jk',
                              vd_j, (self.y - x_bar_j), (self.y - x_bar_j)
-                             ) / n_j
+                             )
             v_lambda_j = self.lambda_prior + n_j
             v_scale_j = self.nu_prior + n_j
             v_mu_j = (self.lambda_prior * self.mu_prior +
@@ -1005,8 +1005,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             v_precision_j = (self.psi_prior + ns_j +
                              self.lambda_prior * n_j / (self.lambda_prior +
                                                         n_j) *
-                             (x_bar_j - self.mu_prior) @ (x_bar_j -
-                                                          self.mu_prior))
+                             np.outer(x_bar_j - self.mu_prior,
+                                      x_bar_j - self.mu_prior))
             v_precision_j = np.linalg.inv(v_precision_j)
             var_theta.append([v_mu_j, v_lambda_j, v_precision_j, v_scale_j])
         self.var_theta = var_theta
-- 
2.43.0


From e357058f08056e59a10e77379a081d9100dbc98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 30/55] fix: evidence lower bound of the variational fit

The likelihood term was not weighted by the responsibilities, the variational
density of the weights was replaced by their prior (so both cancelled), and
the entropy and the normal constant of the component posteriors were halved
and had the wrong sign. The bound could decrease along a fit and the tolerance
stopped fits early or late.
---
 pyrichlet/mixture_models/_base.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 779d344..c3ae3c1 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1039,13 +1039,14 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             x_bar_j = (vd_j / n_j) @ self.y
             s_j = (vd_j / n_j * (self.y - x_bar_j).T) @ (self.y - x_bar_j)
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
-            res += _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
-            res -= dim / v_lambda_j
-            res -= v_scale_j * np.einsum('ij,ji->', s_j, v_precision_j)
-            res -= (v_scale_j *
-                    (x_bar_j - v_mu_j) @ v_precision_j @ (x_bar_j - v_mu_j)
-                    )
-        res -= dim * np.log(2 * np.pi) * self.var_k
+            res_j = _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
+            res_j -= dim / v_lambda_j
+            res_j -= v_scale_j * np.einsum('ij,ji->', s_j, v_precision_j)
+            res_j -= (v_scale_j *
+                      (x_bar_j - v_mu_j) @ v_precision_j @ (x_bar_j - v_mu_j)
+                      )
+            res_j -= dim * np.log(2 * np.pi)
+            res += n_j * res_j
         res /= 2
         return res
 
@@ -1082,7 +1083,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         return np.sum(self.var_d * np.log(self.var_d))
 
     def _e_loq_q_w(self):
-        return self.weight_model.variational_mean_log_p_w()
+        return self.weight_model.variational_mean_log_q_w()
 
     def _e_log_q_theta(self):
         dim = self.y.shape[1]
@@ -1091,8 +1092,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             _, v_lambda_j, v_precision_j, v_scale_j = vt_j
             res += _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
             res += dim * (np.log(v_lambda_j / (2 * np.pi)))
-            res -= _utils.entropy_wishart(v_precision_j, v_scale_j)
-        res += dim * self.var_k
+            res -= 2 * _utils.entropy_wishart(v_precision_j, v_scale_j)
+        res -= dim * self.var_k
         res /= 2
         return res
 
-- 
2.43.0


From 4cb62465f3d5ef4cf72c3a994d953877cb1cae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 31/55] fix: variational k-means initialization with an empty
 group

Data with fewer distinct points than groups made the whole fit NaN.
---
 pyrichlet/mixture_models/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index c3ae3c1..b03f89d 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -994,7 +994,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         var_theta = []
         for vd_j in self.var_d:
             n_j = vd_j.sum()
-            x_bar_j = (vd_j / n_j) @ self.y
+            if n_j > 0:
+                x_bar_j = (vd_j / n_j) @ self.y
+            else:
+                # An empty group of the k-means initialization
+                x_bar_j = self.mu_prior
             ns_j = np.einsum('i,ij,ik->jk',
                              vd_j, (self.y - x_bar_j), (self.y - x_bar_j)
                              )
-- 
2.43.0


From be5a4deecc09362f6c26f70a2ac548e0b58d4f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 32/55] fix: variational densities over all or some of the
 dimensions

var_map_density failed without dim, both failed for an int dim, and over a
subset of the dimensions they used a block of the precision (a conditional
density, not the marginal) with the degrees of freedom of another dimension.
---
 pyrichlet/mixture_models/_base.py | 35 ++++++++++++++++---------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index b03f89d..9b2241f 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -512,11 +512,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                                  " method")
         _y = self._cast_observations(y)
         if dim is None:
-            dim = np.arange(_y.shape[1])
-        if isinstance(dim, int):
-            len_dim = 1
-        else:
-            len_dim = len(dim)
+            dim = np.arange(self.y.shape[1])
+        dim = np.atleast_1d(dim)
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -524,13 +521,13 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             iterator = [(component, self.var_theta[component])]
         for j, vt_j in iterator:
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
+            nu_j = v_scale_j + 1 - len(v_mu_j)
             v_mu_j = v_mu_j[dim]
-            v_precision_j = v_precision_j[:, dim][dim, :]
+            v_precision_j = self._marginal_precision(v_precision_j, dim)
             f_x += density_students_t(
                 _y, v_mu_j,
-                v_precision_j * (v_scale_j + 1 -
-                                 len_dim) * v_lambda_j / (1 + v_lambda_j),
-                v_scale_j + 1 - len_dim
+                v_precision_j * nu_j * v_lambda_j / (1 + v_lambda_j),
+                nu_j
             ) * self.weight_model.variational_mean_w_j(j)
         return f_x
 
@@ -553,10 +550,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
         _y = self._cast_observations(y)
-        if isinstance(dim, int):
-            len_dim = 1
-        else:
-            len_dim = len(dim)
+        if dim is None:
+            dim = np.arange(self.y.shape[1])
+        dim = np.atleast_1d(dim)
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -564,10 +560,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             iterator = [(component, self.var_theta[component])]
         for j, vt_j in iterator:
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
-            v_mu_j = v_mu_j[dim]
-            v_precision_j = v_precision_j[:, dim][dim, :]
-            map_mu = v_mu_j
-            map_precision = (v_scale_j - len_dim) * v_precision_j
+            map_mu = v_mu_j[dim]
+            map_precision = (v_scale_j - len(v_mu_j)
+                             ) * self._marginal_precision(v_precision_j, dim)
             f_x += density_normal(_y, map_mu, map_precision
                                   ) * self.weight_model.variational_mode_w_j(j)
         return f_x
@@ -1101,6 +1096,12 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         res /= 2
         return res
 
+    @staticmethod
+    def _marginal_precision(precision, dim):
+        """Returns the precision of the marginal over the dimensions in dim"""
+        covariance = np.linalg.inv(precision)
+        return np.linalg.inv(covariance[:, dim][dim, :])
+
     def _cast_observations(self, y):
         if y is None:
             _y = self.y
-- 
2.43.0


From 88cca71d3dc6b27d574784005886e5f09f233a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 33/55] fix: marginal densities at the training data use the
 selected columns

Without y the densities over some dimensions were evaluated at all columns
(an error) or, for an int dim, at the first column.
---
 pyrichlet/mixture_models/_base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 9b2241f..198b91f 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -258,7 +258,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, dim)
         y_sim = []
         if periods is None:
             sim_params = self.sim_params
@@ -294,7 +294,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, dim)
         return _utils.mixture_density(_y,
                                       self.map_sim_params["w"],
                                       self.map_sim_params["theta"],
@@ -510,7 +510,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, dim)
         if dim is None:
             dim = np.arange(self.y.shape[1])
         dim = np.atleast_1d(dim)
@@ -549,7 +549,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, dim)
         if dim is None:
             dim = np.arange(self.y.shape[1])
         dim = np.atleast_1d(dim)
@@ -1102,9 +1102,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         covariance = np.linalg.inv(precision)
         return np.linalg.inv(covariance[:, dim][dim, :])
 
-    def _cast_observations(self, y):
+    def _cast_observations(self, y, dim=None):
         if y is None:
             _y = self.y
+            if dim is not None:
+                _y = _y[:, np.atleast_1d(dim)]
         else:
             if isinstance(y, pd.DataFrame):
                 _y = y.to_numpy()
-- 
2.43.0


From 7ac23509ce234b6cc0d36650b6c078c1797eebcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 34/55] fix: mixture density over a dimension given as a numpy
 integer

It was silently zero everywhere.
---
 pyrichlet/mixture_models/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 6cb1150..fa4a60f 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -75,12 +75,13 @@ def mixture_density(x, w, theta, dim=None, component=None):
                                                theta[j][0],
                                                theta[j][1],
                                                1)*w[j])
-        elif type(dim) in [list, np.ndarray]:
+        elif np.ndim(dim) > 0:
+            dim = np.asarray(dim)
             ret.append(multivariate_normal.pdf(x,
                                                theta[j][0][dim],
                                                theta[j][1][:, dim][dim, :],
                                                1)*w[j])
-        elif type(dim) is int:
+        else:
             ret.append(norm.pdf(x[:, 0],
                                 theta[j][0][dim],
                                 np.sqrt(theta[j][1][dim, dim]))*w[j])
-- 
2.43.0


From df2dca884a62186bfd94d3845f0ad193bbc15704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 35/55] fix: variational clustering and affinity of new points

The uncertainty of new points was a matrix of probabilities of other points,
probabilities overflowed far from the data because their mean (not maximum) was
subtracted, and the affinity used the raw argument, so lists and data frames
failed.
---
 pyrichlet/mixture_models/_base.py | 52 +++++++------------------------
 1 file changed, 11 insertions(+), 41 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 198b91f..b8f7e55 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -590,25 +590,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             var_d = self.var_d
         else:
             _y = self._cast_observations(y)
-            dim = y.shape[1]
-            var_d = np.zeros((self.var_k, y.shape[0]), dtype=np.float64)
-            for j, vt_j in enumerate(self.var_theta):
-                v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
-                log_d_ji = self.weight_model.variational_mean_log_w_j(j)
-                log_d_ji += _utils.e_log_norm_wishart(v_precision_j,
-                                                      v_scale_j) / 2
-                log_d_ji -= dim * np.log(2 * np.pi) / 2
-                log_d_ji -= dim / v_lambda_j / 2
-                log_d_ji -= (v_scale_j *
-                             ((y - v_mu_j).T * (
-                                     v_precision_j @ (y - v_mu_j).T)).sum(
-                                 0)
-                             ) / 2
-                var_d[j, :] = log_d_ji
-            var_d -= var_d.max(axis=0, initial=-np.inf)
-            var_d = np.exp(var_d)
-            var_d += np.finfo(np.float64).eps
-            var_d /= var_d.sum(axis=0)
+            var_d = self._calc_var_d(_y)
         affinity_matrix = var_d.T @ var_d
         return affinity_matrix
 
@@ -665,27 +647,12 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 d = self.var_d.argmax(0)
                 return d, 1 - self.var_d[d, range(len(d))]
         _y = self._cast_observations(y)
-        dim = _y.shape[1]
-        var_d = np.zeros((self.var_k, _y.shape[0]), dtype=np.float64)
-        for j, vt_j in enumerate(self.var_theta):
-            v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
-            log_d_ji = self.weight_model.variational_mean_log_w_j(j)
-            log_d_ji += _utils.e_log_norm_wishart(v_precision_j, v_scale_j) / 2
-            log_d_ji -= dim / (2 * v_lambda_j)
-            log_d_ji -= (v_scale_j / 2 *
-                         ((_y - v_mu_j).T * (
-                                 v_precision_j @ (_y - v_mu_j).T)).sum(0)
-                         )
-            var_d[j, :] = log_d_ji
-        var_d -= var_d.mean(0)
-        var_d = np.exp(var_d)
-        var_d += np.finfo(np.float64).eps
-        var_d /= var_d.sum(0)
+        var_d = self._calc_var_d(_y)
         if not full:
             return var_d.argmax(0)
         else:
             d = var_d.argmax(0)
-            return d, var_d[d]
+            return d, 1 - var_d[d, range(len(d))]
 
     def get_n_groups(self):
         return self.n_groups
@@ -1011,8 +978,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.var_theta = var_theta
 
     def _update_var_d(self):
-        dim = self.y.shape[1]
-        var_d = np.zeros((self.var_k, self.y.shape[0]), dtype=np.float64)
+        self.var_d = self._calc_var_d(self.y)
+
+    def _calc_var_d(self, y):
+        dim = y.shape[1]
+        var_d = np.zeros((self.var_k, y.shape[0]), dtype=np.float64)
         for j, vt_j in enumerate(self.var_theta):
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
             log_d_ji = self.weight_model.variational_mean_log_w_j(j)
@@ -1020,15 +990,15 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             log_d_ji -= dim * np.log(2 * np.pi) / 2
             log_d_ji -= dim / v_lambda_j / 2
             log_d_ji -= (v_scale_j *
-                         ((self.y - v_mu_j).T * (
-                                 v_precision_j @ (self.y - v_mu_j).T)).sum(0)
+                         ((y - v_mu_j).T * (
+                                 v_precision_j @ (y - v_mu_j).T)).sum(0)
                          ) / 2
             var_d[j, :] = log_d_ji
         var_d -= var_d.max(axis=0, initial=-np.inf)
         var_d = np.exp(var_d)
         var_d += np.finfo(np.float64).eps
         var_d /= var_d.sum(axis=0)
-        self.var_d = var_d
+        return var_d
 
     def _e_q_log_p_x(self):
         dim = self.y.shape[1]
-- 
2.43.0


From d7a9cc3968edeb2bb471b2476d046332d51b62d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 36/55] fix: default priors come from the data being fitted

They were computed once, from the first data set a model ever saw, and kept
for all later fits, even of another dimension.
---
 pyrichlet/mixture_models/_base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index b8f7e55..f4f6883 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -68,6 +68,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.lambda_prior = lambda_prior
         self.psi_prior = psi_prior
         self.nu_prior = nu_prior
+        self._data_priors = {}
 
         self.weight_model = weight_model
         self.y = np.array([])
@@ -693,16 +694,24 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         else:
             raise TypeError('Invalid type for variable y')
 
+        # Priors taken from the data of a previous fit are not kept
+        for name, value in self._data_priors.items():
+            if getattr(self, name) is value:
+                setattr(self, name, None)
+        self._data_priors = {}
         if self.mu_prior is None:
             self.mu_prior = self.y.mean(axis=0)
+            self._data_priors["mu_prior"] = self.mu_prior
         else:
             self.mu_prior = np.array(self.mu_prior)
         if self.psi_prior is None:
             self.psi_prior = np.atleast_2d(np.cov(self.y.T))
+            self._data_priors["psi_prior"] = self.psi_prior
         else:
             self.psi_prior = np.atleast_2d(self.psi_prior)
         if self.nu_prior is None:
             self.nu_prior = self.y.shape[1]
+            self._data_priors["nu_prior"] = self.nu_prior
 
     def _initialize_gibbs_params(self, init_groups=None, method="kmeans"):
         """
-- 
2.43.0


From 2c2307d057660b5638f41f08d26c784c40ca251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 37/55] fix: a cold start forgets the MAP state of earlier fits

A cold fit of other data could keep answering MAP queries with the mixture of
the previous data.
---
 pyrichlet/mixture_models/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index f4f6883..8a4c7ab 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -748,6 +748,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.n_groups = []
         self.n_atoms = []
         self.total_saved_steps = 0
+        self.map_sim_params = None
+        self.map_log_likelihood = -np.inf
 
         self.theta = defaultdict(atom_generator)
         self.affinity_matrix = np.zeros((len(self.y), len(self.y)))
-- 
2.43.0


From 3a941ffb2bb2d8f9be2ebdc09cb7edfba3bb98c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 38/55] fix: a cold start draws new weights from the prior

The initial weights of a cold fit were those left by the previous fit.
---
 pyrichlet/mixture_models/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 8a4c7ab..8f730b0 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -755,10 +755,12 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.affinity_matrix = np.zeros((len(self.y), len(self.y)))
         self.u = self.rng.uniform(0 + np.finfo(np.float64).eps, 1,
                                   len(self.y))
+        self.weight_model.reset()
         if init_groups is None:
+            self.weight_model.random(1)
             self.weight_model.tail(1 - min(self.u))
         else:
-            self.weight_model.complete(init_groups)
+            self.weight_model.random(init_groups)
 
         if method == "kmeans":
             if hasattr(self, 'n'):
-- 
2.43.0


From 33c241937f29ad0bcbe8910515f600ad24320a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 39/55] fix: var_converged tells about the latest variational
 fit

It was never set back to False, and a fit reaching the tolerance in its last
allowed iteration was not reported.
---
 pyrichlet/mixture_models/_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 8f730b0..0bdd781 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -231,8 +231,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             if t is not None:
                 t.update()
         self.var_fitted = True
-        if iterations < self.total_iter:
-            self.var_converged = True
+        self.var_converged = bool(elbo_diff <= tol)
 
     def gibbs_eap_density(self, y=None, dim=None, component=None,
                           periods=None):
-- 
2.43.0


From c23b0729f3ae5ddc072b795a88e15c0f1e9e6e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 40/55] fix: pandas Series and numpy scalars are accepted like
 equal arrays

Fitting a Series failed (one-dimensional data was not reshaped), querying with
a Series or a numpy integer raised TypeError, and a fitted data frame was
aliased instead of copied.
---
 pyrichlet/mixture_models/_base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 0bdd781..b9c23ee 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -668,10 +668,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         Initialize the prior variables if not given
         """
         if isinstance(y, pd.DataFrame):
-            self.y = y.to_numpy()
+            self.y = np.array(y.to_numpy())
             self._column_names = y.columns
         elif isinstance(y, pd.Series):
-            self.y = y.to_numpy()
+            self.y = np.array(y.to_numpy()).reshape(-1, 1)
             if y.name is None:
                 self._column_names = np.array([0])
             else:
@@ -1092,6 +1092,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         else:
             if isinstance(y, pd.DataFrame):
                 _y = y.to_numpy()
+            elif isinstance(y, pd.Series):
+                _y = y.to_numpy().reshape(-1, 1)
             elif isinstance(y, list):
                 _y = np.array(y)
                 if _y.ndim == 1:
@@ -1102,7 +1104,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                     _y = y.reshape(-1, 1)
                 else:
                     _y = y
-            elif isinstance(y, (int, float)):
+            elif isinstance(y, (int, float, np.number)):
                 _y = np.array([[y]])
             else:
                 raise TypeError("Invalid type for variable y")
-- 
2.43.0


From 107f244782d14ac4f807477349db1f99f35dbe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 41/55] fix: clustering of a single point and of points far
 from the data

One point failed with AxisError; far points underflowed to 0/0, so they were
given to the first group with a NaN uncertainty.
---
 pyrichlet/mixture_models/_utils.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index fa4a60f..3676b92 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -90,19 +90,28 @@ def mixture_density(x, w, theta, dim=None, component=None):
     return ret
 
 
-def cluster(x, w, theta):
+def cluster_components(x, w, theta):
     k = len(w)
-    assign_prob = []
+    assign_log_prob = []
     for j in range(k):
-        assign_prob.append(multivariate_normal.pdf(x,
-                                                   theta[j][0],
-                                                   theta[j][1],
-                                                   1))
-    assign_prob = np.array(assign_prob).T
-    assign_prob = assign_prob * w
+        assign_log_prob.append(np.atleast_1d(
+            multivariate_normal.logpdf(x,
+                                       theta[j][0],
+                                       theta[j][1],
+                                       1)))
+    assign_log_prob = np.array(assign_log_prob).T
+    with np.errstate(divide='ignore'):
+        assign_log_prob = assign_log_prob + np.log(w)
+    assign_log_prob -= assign_log_prob.max(axis=1)[:, None]
+    assign_prob = np.exp(assign_log_prob)
     assign_prob /= assign_prob.sum(1)[:, None]
     grp = np.argmax(assign_prob, axis=1)
     uncertainty = 1 - assign_prob[range(len(x)), grp]
+    return grp, uncertainty
+
+
+def cluster(x, w, theta):
+    grp, uncertainty = cluster_components(x, w, theta)
     u_grp, ret = np.unique(grp, return_inverse=True)
     return ret, uncertainty
 
-- 
2.43.0


From f7eee8c05d760c19dea2075f96c0b58c69f8514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 42/55] fix: the initial Gibbs state has an atom for every
 weight

When it remained the best state visited, MAP queries failed with KeyError for
the groups without observations.
---
 pyrichlet/mixture_models/_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index b9c23ee..bde2ba2 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -779,6 +779,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         else:
             raise AttributeError("init_method param must be one of 'kmeans', "
                                  "'random', 'variational'")
+        # The initial state may be the MAP state, every group needs an atom
+        self.weight_model.complete(int(max(self.d)) + 1)
+        for j in range(self.weight_model.get_size()):
+            self.theta[j]
 
     def _initialize_variational_params(self, var_k, init_method="kmeans"):
         """
-- 
2.43.0


From fd5975c21fd247f7e9c7e370b6e4211fda3c405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 43/55] fix: variational initialization keeps the column names
 of the data

---
 pyrichlet/mixture_models/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index bde2ba2..20329ee 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -773,8 +773,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         elif method == "random":
             self.d = self.weight_model.random_assignment(len(self.y))
         elif method == "variational":
+            column_names = self._column_names
             self.fit_variational(self.y,
                                  n_groups=self.weight_model.get_size())
+            self._column_names = column_names
             self.d = self.var_map_cluster()
         else:
             raise AttributeError("init_method param must be one of 'kmeans', "
-- 
2.43.0


From 789cf9b82023df88cc9bf40bb5bfc7d59d832be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 44/55] fix: pair plot of a single feature

---
 pyrichlet/mixture_models/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 20329ee..d729d59 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -395,7 +395,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         grp = self.gibbs_map_cluster()
 
         fig, axes = plt.subplots(nrows=n_feats, ncols=n_feats, sharex='col',
-                                 figsize=(n_feats * 2, n_feats * 2))
+                                 figsize=(n_feats * 2, n_feats * 2),
+                                 squeeze=False)
         fig.set_dpi(150)
         alpha = 0.05
         alpha_radius = np.sqrt(chi2.ppf(1 - alpha, 2))
-- 
2.43.0


From 861919a5a3186114df65f6960ff30a6b862c6d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 45/55] fix: pair plot has a colour for each of eleven clusters

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index d729d59..2dc72d8 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -401,7 +401,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         alpha = 0.05
         alpha_radius = np.sqrt(chi2.ppf(1 - alpha, 2))
         color = plt.get_cmap('tab10')
-        if max(grp) > 10:
+        if max(grp) >= 10:
             color = color(np.linspace(0, 1, len(np.unique(grp)) + 1))
         else:
             color = color(np.linspace(0, 1, 10))
-- 
2.43.0


From 01a2276dc8be81fc29accf66e024ba6f1c4fe8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 46/55] fix: pair plot draws the component each cluster belongs
 to

---
 pyrichlet/mixture_models/_base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 2dc72d8..9a62740 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -393,6 +393,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         names = self._column_names
         n_feats = self.y.shape[1]
         grp = self.gibbs_map_cluster()
+        # Component of the MAP mixture behind each cluster label
+        components = np.unique(_utils.cluster_components(
+            self.y, self.map_sim_params["w"],
+            self.map_sim_params["theta"])[0])
 
         fig, axes = plt.subplots(nrows=n_feats, ncols=n_feats, sharex='col',
                                  figsize=(n_feats * 2, n_feats * 2),
@@ -449,12 +453,12 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                                           100)
                     for j in np.unique(grp):
                         dens = self.gibbs_map_density(y_range, dim=it,
-                                                      component=j)
+                                                      component=components[j])
                         # ax.plot(y_range, dens, c=color[j])
                         ax.fill_between(y_range, dens, interpolate=True,
                                         color=color[j], alpha=0.5)
                     for j in range(len(self.map_sim_params['w'])):
-                        if j in grp:
+                        if j in components:
                             continue
                         dens = self.gibbs_map_density(y_range, dim=it,
                                                       component=j)
@@ -471,9 +475,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                     ax.scatter(self.y[:, it], self.y[:, it2], s=10,
                                c=color[grp], alpha=0.5)
                     for j in np.unique(grp):
-                        mu = self.map_sim_params['theta'][j][0]
+                        mu = self.map_sim_params['theta'][components[j]][0]
                         mu = mu[[it, it2]]
-                        sigma = self.map_sim_params['theta'][j][1]
+                        sigma = self.map_sim_params['theta'][components[j]][1]
                         sigma = sigma[[it, it2], :][:, [it, it2]]
                         ldl_sigma = ldl(sigma)
                         sig_sq = ldl_sigma[0] @ np.sqrt(
-- 
2.43.0


From 38d6eda6257321db7dc81edefd1148528db45873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 47/55] fix: pair plot ellipses have the covariance of their
 component

---
 pyrichlet/mixture_models/_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 9a62740..b20b245 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -480,8 +480,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                         sigma = self.map_sim_params['theta'][components[j]][1]
                         sigma = sigma[[it, it2], :][:, [it, it2]]
                         ldl_sigma = ldl(sigma)
-                        sig_sq = ldl_sigma[0] @ np.sqrt(
-                            ldl_sigma[1]) @ ldl_sigma[0].T
+                        sig_sq = np.sqrt(ldl_sigma[1]) @ ldl_sigma[0].T
                         circle_points = np.array(
                             [np.cos(np.linspace(0, 2 * np.pi, 100)),
                              np.sin(np.linspace(0, 2 * np.pi,
-- 
2.43.0


From 40322fc66f6b458f90a3a7b4768886029ccc75f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 48/55] fix: consensus clustering does not depend on numpy's
 global generator

---
 pyrichlet/mixture_models/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index b20b245..70f1605 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -351,7 +351,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.gibbs_fitted:
             raise NotFittedError(
                 "Object must be fitted with the fit_gibbs method")
-        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed')
+        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed',
+                                random_state=0)
         return sc.fit_predict(self.gibbs_eap_affinity_matrix(y))
 
     def gibbs_map_cluster(self, y=None, full=False):
@@ -619,7 +620,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError(
                 "Object must be fitted with fit_variational init_method")
-        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed')
+        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed',
+                                random_state=0)
         return sc.fit_predict(self.var_eap_affinity_matrix(y))
 
     def var_map_cluster(self, y=None, full=False):
-- 
2.43.0


From de5259c9b02d8d6b9ff90639246b6aa3a91e4284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 49/55] fix: a mixture given an integer seed does not repeat
 its random numbers in the weights

---
 pyrichlet/mixture_models/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 70f1605..4dcbb1c 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -71,6 +71,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self._data_priors = {}
 
         self.weight_model = weight_model
+        if type(rng) is int:
+            # Equal seeds would give both models the same stream of numbers
+            self.weight_model._rng = self.rng
         self.y = np.array([])
         self._column_names = None
 
-- 
2.43.0


From 114f00bd8ea24e838697b70a6bcbab3ae528a408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 50/55] fix: vectorised rejection sampling replaces both
 coordinates of a rejected point

---
 pyrichlet/mixture_models/_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 3676b92..ce9232a 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -55,9 +55,11 @@ def rejection_sample(f, max_y, a=0, b=1, size=None, *, rng=None):
     else:
         x = rng.uniform(a, b, size)
         y = rng.uniform(0, max_y, size)
-        while np.any(y > f(x)):
-            x[y > f(x)] = rng.uniform(a, b, np.sum(y > f(x)))
-            y[y > f(x)] = rng.uniform(0, max_y, np.sum(y > f(x)))
+        rejected = y > f(x)
+        while np.any(rejected):
+            x[rejected] = rng.uniform(a, b, np.sum(rejected))
+            y[rejected] = rng.uniform(0, max_y, np.sum(rejected))
+            rejected = y > f(x)
         return x
 
 
-- 
2.43.0


From 672ef5520c4198e4014b3654c943af0503ca7e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:10 +0000
Subject: [PATCH 51/55] fix: assignments given as small or unsigned integers

---
 pyrichlet/weight_models/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_base.py b/pyrichlet/weight_models/_base.py
index 28c9d5d..e9649a6 100644
--- a/pyrichlet/weight_models/_base.py
+++ b/pyrichlet/weight_models/_base.py
@@ -93,6 +93,8 @@ class BaseWeight(ABC):
             An array of integers representing the assigned group
         """
         self.d = np.array(d)
+        if np.issubdtype(self.d.dtype, np.integer):
+            self.d = self.d.astype(np.int64)
 
     def tail(self, x):
         """Return an array of weights such that the sum is greater than `x`
@@ -128,7 +130,7 @@ class BaseWeight(ABC):
         """Returns the log-likelihood of an assignment `d` given the weights"""
         if d is None:
             d = self.d
-        self.complete(max(d) + 1)
+        self.complete(int(max(d)) + 1)
         with np.errstate(divide='ignore'):
             ret = np.sum(np.log(self.w[d]))
         return ret
-- 
2.43.0


From d6166a1eef5d91f7c6d0c68fd0ac51968ff866ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 52/55] fix: gibbs_eap_density of a component missing from some
 draws

---
 pyrichlet/mixture_models/_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 4dcbb1c..b375264 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -269,6 +269,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             i_start = min(periods, len(self.sim_params))
             sim_params = self.sim_params[-i_start:]
         for param in sim_params:
+            if component is not None and component >= len(param["w"]):
+                # The draw was truncated before this component
+                y_sim.append(np.zeros(len(_y)))
+                continue
             y_sim.append(_utils.mixture_density(_y,
                                                 param["w"],
                                                 param["theta"],
-- 
2.43.0


From 0d3f8c8d8cf5a1bc57abfdda3669286cfa2191ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:28 +0000
Subject: [PATCH 53/55] fix: pair plot of a model that is not fitted raises
 NotFittedError

---
 pyrichlet/mixture_models/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index b375264..719cba9 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -392,6 +392,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         return ret
 
     def gibbs_map_pairplot(self):
+        if not self.gibbs_fitted:
+            raise NotFittedError(
+                "Object must be fitted with fit_gibbs method")
         import matplotlib.pyplot as plt
         import matplotlib.ticker as ticker
         from matplotlib.ticker import FormatStrFormatter
-- 
2.43.0


From 039bc4d786b6a884f2bebf6238da01b50596242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 54/55] fix: psi_prior is copied and may be a matrix

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 719cba9..aa00f9d 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -723,7 +723,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             self.psi_prior = np.atleast_2d(np.cov(self.y.T))
             self._data_priors["psi_prior"] = self.psi_prior
         else:
-            self.psi_prior = np.atleast_2d(self.psi_prior)
+            self.psi_prior = np.array(self.psi_prior, ndmin=2)
         if self.nu_prior is None:
             self.nu_prior = self.y.shape[1]
             self._data_priors["nu_prior"] = self.nu_prior
-- 
2.43.0


From 9cd82acbab2340f5ef4eda1e18f2cdfa31512f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 55/55] fix: categorical sampler never returns an index of
 probability zero

---
 pyrichlet/mixture_models/_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index ce9232a..43fb3b3 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -32,14 +32,19 @@ def posterior_norm_invw_params(y, mu, lam, psi, nu):
 
 
 def gumbel_max_sampling(logp, size=None, *, rng=None):
+    # A uniform equal to zero would make an entry as unlikely as the ones with
+    # probability zero
+    low = np.finfo(np.float64).tiny
     if size is None:
         ret = np.argmax(logp -
-                        np.log(-np.log(rng.uniform(size=logp.shape))), axis=0)
+                        np.log(-np.log(rng.uniform(low, 1, logp.shape))),
+                        axis=0)
     else:
         ret = []
         for i in range(size):
             ret.append(np.argmax(logp -
-                                 np.log(-np.log(rng.uniform(size=len(logp))))))
+                                 np.log(-np.log(rng.uniform(low, 1,
+                                                            len(logp))))))
         ret = np.array(ret)
     return ret
 
-- 
2.43.0

