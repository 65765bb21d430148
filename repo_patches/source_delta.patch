From c51443704db9460048649bd65c137c1b99957b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 01/54] fix: PLDAccountant charges every repetition of a
 RandomizedResponseDpEvent

---
 .../dp_accounting/dp_accounting/pld/pld_privacy_accountant.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index 5fafb0b..6a989c4 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -76,7 +76,7 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
               num_buckets=event.num_buckets,
               value_discretization_interval=self._value_discretization_interval,
               neighboring_relation=self._neighboring_relation,
-          )
+          ).self_compose(count)
           self._pld = self._pld.compose(rr_pld)
       return None
     elif isinstance(event, dp_event.GaussianDpEvent):
-- 
2.43.0


From 8deefba6411b1b9286f04013d77fe81bbe2421f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 02/54] fix: integer noise multipliers inside sampled
 compositions lose no privacy cost

---
 .../dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index ec00763..f1fa6a9 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -568,13 +568,13 @@ def _effective_gaussian_noise_multiplier(
     sum_sigma_inv_sq = 0
     for e in event.events:
       sigma = _effective_gaussian_noise_multiplier(e)
-      if not isinstance(sigma, float):
+      if isinstance(sigma, dp_event.DpEvent):
         return sigma
       sum_sigma_inv_sq += sigma**-2
     return sum_sigma_inv_sq**-0.5
   elif isinstance(event, dp_event.SelfComposedDpEvent):
     sigma = _effective_gaussian_noise_multiplier(event.event)
-    if not isinstance(sigma, float):
+    if isinstance(sigma, dp_event.DpEvent):
       return sigma
     return sigma * event.count**-0.5
   else:
-- 
2.43.0


From 0b7b07b1d6382fce7542ddbd51e3a03e5ad66734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 03/54] fix: sampled compositions with no noise or nothing
 composed do not crash the RDP accountant

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py    | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index f1fa6a9..7dd6b8a 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -383,7 +383,7 @@ def _compute_rdp_poisson_subsampled_gaussian(
     )
 
   def compute_one_order(q, alpha):
-    if q == 0:
+    if q == 0 or noise_multiplier == np.inf:
       return 0
 
     if np.isinf(alpha) or noise_multiplier == 0:
@@ -443,15 +443,15 @@ def _compute_rdp_sample_wor_gaussian_scalar(
 
   assert (q <= 1) and (q >= 0) and (alpha >= 1)
 
-  if q == 0:
+  if q == 0 or sigma == np.inf:
     return 0
 
+  if np.isinf(alpha) or sigma == 0:
+    return np.inf
+
   if q == 1.0:
     return alpha / (2 * sigma**2)
 
-  if np.isinf(alpha):
-    return np.inf
-
   if float(alpha).is_integer():
     return _compute_rdp_sample_wor_gaussian_int(q, sigma, int(alpha)) / (
         alpha - 1
@@ -570,8 +570,10 @@ def _effective_gaussian_noise_multiplier(
       sigma = _effective_gaussian_noise_multiplier(e)
       if isinstance(sigma, dp_event.DpEvent):
         return sigma
+      if sigma == 0:
+        return 0.0  # One noiseless release makes the composition noiseless.
       sum_sigma_inv_sq += sigma**-2
-    return sum_sigma_inv_sq**-0.5
+    return sum_sigma_inv_sq**-0.5 if sum_sigma_inv_sq > 0 else np.inf
   elif isinstance(event, dp_event.SelfComposedDpEvent):
     sigma = _effective_gaussian_noise_multiplier(event.event)
     if isinstance(sigma, dp_event.DpEvent):
-- 
2.43.0


From 414ea81838215d763a8c82b0443d6f6dabf560e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 04/54] fix: compute_delta does not fail for tiny Renyi
 divergences

---
 .../dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 7dd6b8a..e4cd9f6 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -201,7 +201,7 @@ def compute_delta(
     elif r == 0:
       logdelta = -np.inf
     else:
-      logdelta = 0.5 * math.log1p(-math.exp(-r))
+      logdelta = 0.5 * math.log(-math.expm1(-r))
     if a > 1.01:
       # This bound is not numerically stable as alpha->1.
       # Thus we have a min value for alpha.
-- 
2.43.0


From 1d92dbe5d2a3b2afa94673970d1312bcb1e75124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 05/54] fix: infinite Renyi orders give a valid epsilon instead
 of zero

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py           | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index e4cd9f6..7b0db76 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -263,6 +263,8 @@ def compute_epsilon(
       # In this case, we can simply bound via KL divergence:
       # delta <= sqrt(1-exp(-KL)).
       epsilon = 0  # No need to try further computation if we have epsilon = 0.
+    elif np.isinf(a):
+      epsilon = r  # The max divergence is a pure epsilon.
     elif a > 1.01:
       # This bound is not numerically stable as alpha->1.
       # Thus we have a min value of alpha.
@@ -843,10 +845,12 @@ def _laplace_rdp(eps: float, order: float) -> float:
   eps = float(eps)
   if not math.isfinite(eps) or eps < 0:
     raise ValueError(f'eps must be > 0. Got {eps}')
-  if not math.isfinite(a) or a < 1:
+  if math.isnan(a) or a < 1:
     raise ValueError(f'order must be >= 1. Got {a}')
 
-  if a == 1:  # KL divergence
+  if math.isinf(a):  # Max divergence
+    return eps
+  elif a == 1:  # KL divergence
     # Taking the limit as order->1 gives the following expression.
     return eps + math.expm1(-eps)
   elif a < 1.1:  # 1 < order <= 1.1
-- 
2.43.0


From f25b7614408c9e794c771a49972b893e1b852cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 06/54] fix: RdpAccountant treats a Laplace event without noise
 as non-private

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py       | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 7b0db76..681e4c7 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -1104,10 +1104,13 @@ class RdpAccountant(privacy_accountant.PrivacyAccountant):
       return None
     elif isinstance(event, dp_event.LaplaceDpEvent):
       if do_compose:
-        eps = 1 / event.noise_multiplier
-        self._rdp += count * np.array(
-            [_laplace_rdp(eps, order) for order in self._orders]
-        )
+        if event.noise_multiplier == 0:
+          self._rdp += np.inf
+        else:
+          eps = 1 / event.noise_multiplier
+          self._rdp += count * np.array(
+              [_laplace_rdp(eps, order) for order in self._orders]
+          )
       return None
     elif isinstance(event, dp_event.RepeatAndSelectDpEvent):
       save_rdp = self._rdp
-- 
2.43.0


From 8d0eb07ae10c6d4986dbbccc2276c58fce591b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 07/54] fix: a failing RepeatAndSelectDpEvent does not erase
 earlier privacy loss

---
 .../rdp/rdp_privacy_accountant.py             | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 681e4c7..efd9e02 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -1120,15 +1120,19 @@ class RdpAccountant(privacy_accountant.PrivacyAccountant):
         # Zero out self._rdp before computing the RDP of the underlying
         # DP event.
         self._rdp = np.zeros_like(self._orders, dtype=np.float64)
-      composition_error = self._maybe_compose(event.event, 1, do_compose)
-      if composition_error is None and do_compose:
-        self._rdp = (
-            count
-            * _compute_rdp_repeat_and_select(
-                self._orders, self._rdp, event.mean, event.shape
-            )
-            + save_rdp
-        )
+      try:
+        composition_error = self._maybe_compose(event.event, 1, do_compose)
+        if composition_error is None and do_compose:
+          save_rdp = (
+              count
+              * _compute_rdp_repeat_and_select(
+                  self._orders, self._rdp, event.mean, event.shape
+              )
+              + save_rdp
+          )
+      finally:
+        # Also when composing fails, so that earlier events are not forgotten.
+        self._rdp = save_rdp
       return composition_error
     elif isinstance(event, dp_event.RandomizedResponseDpEvent):
       if self._neighboring_relation not in [
-- 
2.43.0


From b937b9339f27ac934de1ac767d3d28be1ef00ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 08/54] fix: Privacy Buckets keeps the mass when the interval
 divides the largest Laplace loss

---
 .../dp_accounting/pld/privacy_loss_distribution.py       | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
index b22df0f..dc21bed 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
@@ -915,8 +915,13 @@ def _create_pld_pmf_from_monotone_privacy_loss(
           upper_x_privacy_loss):
         x = upper_x
       else:
-        x = monotone_privacy_loss.inverse_privacy_loss(
-            value_discretization_interval * rounded_down_value)
+        # Rounding errors must not take x outside of [xs[-1], upper_x].
+        x = min(
+            max(
+                xs[-1],
+                monotone_privacy_loss.inverse_privacy_loss(
+                    value_discretization_interval * rounded_down_value)),
+            upper_x)
 
       xs.append(x)
       rounded_values.append(round_fn(rounded_down_value + 0.5))
-- 
2.43.0


From 97005f69f3e51fc8914610217edebe4396c03e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 09/54] fix: epsilon queries do not overflow for very negative
 privacy losses

---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index e798abd..bbb7890 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -140,6 +140,10 @@ def _get_epsilon_for_delta(infinity_mass: float,
       # Epsilon is greater than or equal to loss.
       break
 
+    if loss < 0:
+      # Negative losses do not matter for the non-negative epsilon searched for.
+      break
+
     mass_upper += prob
     mass_lower += math.exp(-loss) * prob
 
-- 
2.43.0


From 020a11c9e8cc28c8438ff5d93142512e66f35a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 10/54] fix: connect-the-dots accepts deltas that increase by
 rounding errors only

---
 .../dp_accounting/pld/privacy_loss_distribution.py            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
index dc21bed..674cacc 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
@@ -848,6 +848,8 @@ def _create_pld_pmf_from_monotone_privacy_loss(
 
         deltas = monotone_privacy_loss.get_delta_for_epsilon(
             rounded_epsilons * value_discretization_interval)
+        # Rounding errors must not make the deltas increase with epsilon.
+        deltas = np.maximum.accumulate(deltas[::-1])[::-1]
 
         return pld_pmf.create_pmf_pessimistic_connect_dots(
             value_discretization_interval,
@@ -868,6 +870,8 @@ def _create_pld_pmf_from_monotone_privacy_loss(
 
         deltas = monotone_privacy_loss.get_delta_for_epsilon(
             rounded_epsilons * value_discretization_interval)
+        # Rounding errors must not make the deltas increase with epsilon.
+        deltas = np.maximum.accumulate(deltas[::-1])[::-1]
 
         # Use a specialized numerically stable approach for continuous noise
         return pld_pmf.create_pmf_pessimistic_connect_dots_fixed_gap(
-- 
2.43.0


From 3c622fd24eb997bad5cf48232d861b6e9fcf2664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 11/54] fix: mixture of Gaussians finds its lower truncation
 despite rounding errors

The binary search for the lower truncation point returned None, and the
construction failed with a TypeError, when the cdf at the lower end of the
range exceeds the tail mass by rounding errors, e.g. for a single sensitivity.
---
 .../dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index d67a420..48fdc25 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -2100,6 +2100,10 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
           ),
           increasing=True,
       )
+      if lower_x_truncation is None:
+        # Rounding errors may put the lower end of the search range itself
+        # marginally above tail_mass.
+        lower_x_truncation = z_value - self._max_sens
     if self._pessimistic_estimate:
       tail_probability_mass_function = {
           math.inf: self.mu_upper_cdf(lower_x_truncation),
-- 
2.43.0


From d52f50299a97eae7fd75567da4f23b200c5ee327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 12/54] fix: mixture of Gaussians handles losses close to its
 extreme loss

Every loss within a relative 1e-5 of the largest (ADD) or smallest (REMOVE)
attainable loss was treated as that extreme, which reported delta 0 where it is
up to about 1e-5, and losses all of which equal it failed on an empty maximum.
Use the tolerance of the other mechanisms.
---
 .../pld/privacy_loss_mechanism.py             | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index 48fdc25..f1a20f3 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -2283,27 +2283,34 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
 
     # Some privacy losses might be close to the privacy loss at x = +/-inf, in
     # which case we report the corresponding infinity for them.
-    min_pl = privacy_losses[0]
-    max_pl = privacy_losses[-1]
     log_1m_prob = (
         math.log1p(-self._sampling_prob) if self._sampling_prob < 1 else -np.inf
     )
+    if self.adjacency_type == AdjacencyType.ADD:
+      output = np.full(len(privacy_losses), -np.inf)
+      extreme_loss = -log_1m_prob
+    else:  # Case: self.adjacency_type == AdjacencyType.REMOVE
+      output = np.full(len(privacy_losses), np.inf)
+      extreme_loss = log_1m_prob
+    finite_indices = np.logical_not(
+        np.isclose(privacy_losses, extreme_loss, rtol=1e-9, atol=0)
+    )
+    if not np.any(finite_indices):
+      return output
+    min_pl = np.min(privacy_losses[finite_indices])
+    max_pl = np.max(privacy_losses[finite_indices])
     if self.adjacency_type == AdjacencyType.ADD:
       if max_pl > -log_1m_prob:
         raise ValueError(
             f'max of privacy_losses ({max_pl}) is larger than '
             f'-log(1 - sampling_prob)={-log_1m_prob}.'
         )
-      finite_indices = np.logical_not(np.isclose(privacy_losses, -log_1m_prob))
-      max_pl = np.max(privacy_losses[finite_indices])
     else:  # Case: self.adjacency_type == AdjacencyType.REMOVE
       if min_pl <= log_1m_prob:
         raise ValueError(
             f'min of privacy_losses ({min_pl}) is smaller than '
             f'log(1 - sampling_prob)={log_1m_prob}'
         )
-      finite_indices = np.logical_not(np.isclose(privacy_losses, log_1m_prob))
-      min_pl = np.min(privacy_losses[finite_indices])
 
     # Now, we need to determine a suitable range to binary search over. To do
     # this, we consider the subsampled Gaussian mechanisms given by moving
@@ -2332,14 +2339,6 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
         np.floor(np.min(possible_bounds) / precision) * precision,
         np.ceil(np.max(possible_bounds) / precision) * precision,
     )
-    if self.adjacency_type == AdjacencyType.ADD:
-      output = self.privacy_loss_for_single_gaussian(
-          np.full_like(privacy_losses, np.inf)
-      )
-    else:
-      output = self.privacy_loss_for_single_gaussian(
-          np.full_like(privacy_losses, -np.inf)
-      )
     output[finite_indices] = self._inverse_privacy_losses_with_range(
         privacy_losses[finite_indices], bounds, precision
     )
-- 
2.43.0


From bda5db15539fe359977839247e3d8bb21cfe5584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 13/54] fix: mixture of Gaussians inverts losses relative to
 the scale of its noise

The cut-offs were located to an absolute 1e-6, so with a small standard
deviation the reported deltas understated the hockey-stick divergence (by about
4e-9 at standard deviation 0.01).
---
 .../dp_accounting/pld/privacy_loss_mechanism.py            | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index f1a20f3..a94d363 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -2039,7 +2039,12 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
       inverse_indices = epsilons > np.log1p(-self._sampling_prob)
       other_indices = np.logical_not(inverse_indices)
       deltas[other_indices] = -np.expm1(epsilons[other_indices])
-    x_cutoffs = self.inverse_privacy_losses(epsilons[inverse_indices])
+    # The precision is relative to the scale of the noise, as an absolute one
+    # understates the deltas if the standard deviation is small.
+    x_cutoffs = self.inverse_privacy_losses(
+        epsilons[inverse_indices],
+        precision=1e-6 * min(1.0, self._standard_deviation),
+    )
     deltas[inverse_indices] = self.mu_upper_cdf(x_cutoffs) - np.exp(
         epsilons[inverse_indices] + self.mu_lower_log_cdf(x_cutoffs)
     )
-- 
2.43.0


From ecad6c2289fcfcbd06ddb6f4371c04ea463c7c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 14/54] fix: mixture of Gaussians inverts losses over a range
 that contains the inverse

The range was derived from the smallest and largest sensitivity only, but the
privacy loss of a Gaussian is not monotone in its sensitivity, so the inverse
could lie outside, e.g. with sensitivities 0, 0.1, 1 and 2: the resulting
privacy loss distributions understated delta (0.343 instead of 0.405).
---
 .../pld/privacy_loss_mechanism.py             | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index a94d363..ab8dc0c 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -1948,7 +1948,6 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
     self._pos_sampling_probs = self.sampling_probs[self.sensitivities > 0.0]
     self._sampling_prob = np.clip(self._pos_sampling_probs.sum(), 0, 1)
     nonzero_sens = self.sensitivities[self.sensitivities > 0.0]
-    self._min_sens = np.min(nonzero_sens)
     self._max_sens = np.max(nonzero_sens)
     self._gaussian_random_variable = stats.norm(scale=standard_deviation)
 
@@ -2319,19 +2318,15 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
 
     # Now, we need to determine a suitable range to binary search over. To do
     # this, we consider the subsampled Gaussian mechanisms given by moving
-    # all the probability mass on non-zero sensitivities to either the
-    # smallest or largest sensitivity. We can show the privacy loss of the
-    # mixture is contained between these two mechanisms' privacy losses, and
-    # the subsampled Gaussian privacy loss is easy to invert. Then, we can
-    # compute the inverse privacy loss at min_pl and max_pl to get four
-    # candidate bounds, and take the min/max of these bounds.
-    loss_bounds = np.array([min_pl, min_pl, max_pl, max_pl])
-    sens_bounds = np.array([
-        self._min_sens,
-        self._max_sens,
-        self._min_sens,
-        self._max_sens,
-    ])
+    # all the probability mass on non-zero sensitivities to a single one of
+    # them. At every point the privacy loss of the mixture lies between the
+    # smallest and the largest of these mechanisms' privacy losses (which need
+    # not be those of the smallest and largest sensitivity), and the subsampled
+    # Gaussian privacy loss is easy to invert. Then, we can compute the inverse
+    # privacy losses at min_pl and max_pl to get candidate bounds, and take the
+    # min/max of these bounds.
+    loss_bounds = np.array([[min_pl], [max_pl]])
+    sens_bounds = self.sensitivities[self.sensitivities > 0.0]
     if self.adjacency_type == AdjacencyType.ADD:
       pl_without_sampling = _pl_without_sampling_add
     else:  # Case: self.adjacency_type == AdjacencyType.REMOVE
-- 
2.43.0


From dc48b8807aafd6f5f05ae5a67064e03832a68d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 15/54] fix: epsilon queries skip top losses without
 probability mass

If delta equals the mass at infinity, get_epsilon_for_delta returned the largest
stored loss even if its probability is zero, instead of the smallest epsilon.
---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index bbb7890..54f9d8e 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -147,7 +147,7 @@ def _get_epsilon_for_delta(infinity_mass: float,
     mass_upper += prob
     mass_lower += math.exp(-loss) * prob
 
-    if mass_upper >= delta and mass_lower == 0:
+    if mass_upper > delta and mass_lower == 0:
       # This only occurs when loss is very large, which results in exp(-loss)
       # being treated as zero.
       return max(0, loss)
-- 
2.43.0


From 018b6ffbbee472accf0fca11ef56bc34331c695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 16/54] fix: privacy losses that are always infinite can be
 composed

Composing the privacy loss distribution of two distributions with disjoint
supports, which has no finite loss, failed on empty sequences.
---
 python/dp_accounting/dp_accounting/pld/common.py  | 4 ++++
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/common.py b/python/dp_accounting/dp_accounting/pld/common.py
index e468c9a..c5e4168 100644
--- a/python/dp_accounting/dp_accounting/pld/common.py
+++ b/python/dp_accounting/dp_accounting/pld/common.py
@@ -137,6 +137,8 @@ def dictionary_to_list(
     result_list[i] is equal to dictionary[offset + i] and is zero if offset + i
     is not a key in the input dictionary.
   """
+  if not input_dictionary:
+    return (0, [])
   offset = min(input_dictionary)
   max_val = max(input_dictionary)
   result_list = [input_dictionary.get(i, 0) for i in range(offset, max_val + 1)]
@@ -277,6 +279,8 @@ def self_convolve(input_list: ArrayLike,
     such that i_1 + i_2 + ... + i_num_times = i + truncation_lower_bound,
     of input_list[i_1] * input_list[i_2] * ... * input_list[i_num_times].
   """
+  if len(input_list) == 0:  # pylint: disable=g-explicit-length-test
+    return 0, []
   truncation_lower_bound, truncation_upper_bound = compute_self_convolve_bounds(
       input_list, num_times, tail_mass_truncation)
 
diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 54f9d8e..3e7b171 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -177,7 +177,7 @@ def _truncate_tails(probs: ArrayLike, tail_mass_truncation: float,
     Tuple of (size of truncated prefix, truncated array, mass that goes to
     infinity).
   """
-  if tail_mass_truncation == 0:
+  if tail_mass_truncation == 0 or len(probs) == 0:  # pylint: disable=g-explicit-length-test
     return 0, probs, 0
 
   def _find_prefix_to_truncate(arr: np.ndarray, threshold: float) -> int:
-- 
2.43.0


From 467e3aea569fd5854c11d5a2c1d3d1b1915cab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 17/54] fix: repeated infinite epsilons count as sorted in
 delta queries

The difference of two infinities is NaN, so [inf, inf] was refused as unsorted.
---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 3e7b171..7ca5346 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -76,7 +76,8 @@ def _get_delta_for_epsilon_vectorized(infinity_mass: float,
   Returns:
     The list of epsilon-hockey stick divergences for epsilons.
   """
-  are_epsilons_sorted = np.all(np.diff(epsilons) >= 0)
+  epsilons = np.asarray(epsilons)
+  are_epsilons_sorted = np.all(epsilons[1:] >= epsilons[:-1])
   if not are_epsilons_sorted:
     raise ValueError(
         'Epsilons in get_delta_for_epsilon must be sorted in ascending order')
-- 
2.43.0


From 2d04a18becf247fffaab4a8e142457e76e01032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 18/54] fix: tail truncation keeps a bucket when all the finite
 mass is truncated

Composing distributions whose finite losses together have at most the mass to be
truncated raised IndexError.
---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 7ca5346..56b46dc 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -197,6 +197,7 @@ def _truncate_tails(probs: ArrayLike, tail_mass_truncation: float,
   # Be sure that left_idx < right_idx. left_idx >= right_idx might be when
   # tail_mass_truncation is too large or if probs has too small mass
   # (i.e. if a few truncations were operated on it already).
+  left_idx = min(left_idx, len(probs) - 1)
   right_idx = max(right_idx, left_idx + 1)
 
   left_mass = np.sum(probs[:left_idx])
-- 
2.43.0


From a2702c79c0f21709c684d143e6168c658414ded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 19/54] fix: delta of a composition queried without composing
 does not overflow

get_delta_for_epsilon_for_composed_pld exponentiated the losses of each factor,
which gave wrong deltas, NaN or -infinity for losses beyond about 700.
---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 56b46dc..5474bec 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -424,6 +424,10 @@ class DensePLDPmf(PLDPmf):
     # epsilon, and self_loss(i) + other_loss(j-1)< epsilon, as in the
     # equation(2).
 
+    # Both sums keep exp(epsilon - self_loss(i)) inside lower_mass, whose
+    # exponents epsilon - self_loss(i) - other_loss(j) are then not positive, as
+    # exponentials of the separate losses might overflow.
+
     # If i is todo small then increase it.
     while self_loss(i) + other_loss(j) < epsilon:
       i += 1
@@ -431,7 +435,8 @@ class DensePLDPmf(PLDPmf):
     # Else if j is too large then decrease it.
     while j >= 0 and self_loss(i) + other_loss(j - 1) >= epsilon:
       upper_mass += other_probs[j]
-      lower_mass += other_probs[j] * np.exp(-other_loss(j))
+      lower_mass += other_probs[j] * np.exp(
+          epsilon - self_loss(i) - other_loss(j))
       j -= 1
 
     # Invariant:
@@ -440,10 +445,11 @@ class DensePLDPmf(PLDPmf):
     for i in range(i, len_self):
       if j >= 0:
         upper_mass += other_probs[j]
-        lower_mass += other_probs[j] * np.exp(-other_loss(j))
+        lower_mass += other_probs[j] * np.exp(
+            epsilon - self_loss(i) - other_loss(j))
       j -= 1
-      delta += self_probs[i] * (
-          upper_mass - np.exp(epsilon - self_loss(i)) * lower_mass)
+      delta += self_probs[i] * (upper_mass - lower_mass)
+      lower_mass *= np.exp(-discretization)
 
     return delta
 
-- 
2.43.0


From 29a66b75a24ab136b335fe1d0075756adbd799cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 20/54] fix: epsilon queries handle losses whose exponential
 underflows

exp(-loss) of losses above about 710 is denormal or zero, so that epsilon queries of
strongly composed distributions returned infinity or an inaccurate value.
---
 .../dp_accounting/pld/pld_pmf.py              | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 5474bec..c63ea2f 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -133,10 +133,12 @@ def _get_epsilon_for_delta(infinity_mass: float,
   if infinity_mass > delta:
     return math.inf
 
-  mass_upper, mass_lower = infinity_mass, 0
+  # mass_lower is kept multiplied by exp(scale), since exp(-loss) underflows for
+  # very large losses.
+  mass_upper, mass_lower, scale = infinity_mass, 0, None
 
   for loss, prob in zip(reversed_losses, probs):
-    if (mass_upper > delta and mass_lower > 0 and math.log(
+    if (mass_upper > delta and mass_lower > 0 and scale + math.log(
         (mass_upper - delta) / mass_lower) >= loss):
       # Epsilon is greater than or equal to loss.
       break
@@ -145,17 +147,18 @@ def _get_epsilon_for_delta(infinity_mass: float,
       # Negative losses do not matter for the non-negative epsilon searched for.
       break
 
-    mass_upper += prob
-    mass_lower += math.exp(-loss) * prob
+    if scale is None:
+      scale = loss
+    elif scale - loss > 500:
+      mass_lower *= math.exp(loss - scale)
+      scale = loss
 
-    if mass_upper > delta and mass_lower == 0:
-      # This only occurs when loss is very large, which results in exp(-loss)
-      # being treated as zero.
-      return max(0, loss)
+    mass_upper += prob
+    mass_lower += math.exp(scale - loss) * prob
 
-  if mass_upper <= mass_lower + delta:
+  if mass_lower == 0 or mass_upper <= mass_lower * math.exp(-scale) + delta:
     return 0
-  return math.log((mass_upper - delta) / mass_lower)
+  return scale + math.log((mass_upper - delta) / mass_lower)
 
 
 def _truncate_tails(probs: ArrayLike, tail_mass_truncation: float,
-- 
2.43.0


From 11cff65d23bb249cc6a1832f51a52330bdcd0515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 21/54] fix: vectorized delta queries handle losses beyond the
 exponential range

exp of losses or epsilons of magnitude above about 709 overflows, which gave NaN or
wrong deltas where the scalar query is right.
---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index c63ea2f..8b5e221 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -96,20 +96,28 @@ def _get_delta_for_epsilon_vectorized(infinity_mass: float,
   # compute them gradually, which makes computation efficiently for multiple
   # epsilons.
   deltas = np.zeros_like(epsilons, dtype=np.float64)
+  # mu_lower_mass is kept multiplied by exp(scale), since exp of losses of large
+  # magnitude overflows or underflows.
   mu_upper_mass, mu_lower_mass = infinity_mass, 0
   i = len(probs) - 1
   j = len(epsilons) - 1
+  scale = losses[i] if i >= 0 else 0
 
   while j >= 0:
     if np.isposinf(epsilons[j]):
       deltas[j] = infinity_mass
       j -= 1
     elif i < 0 or losses[i] <= epsilons[j]:
-      deltas[j] = mu_upper_mass - np.exp(epsilons[j]) * mu_lower_mass
+      deltas[j] = mu_upper_mass
+      if mu_lower_mass != 0:
+        deltas[j] -= np.exp(epsilons[j] - scale) * mu_lower_mass
       j -= 1
     else:
+      if scale - losses[i] > 500:
+        mu_lower_mass *= np.exp(losses[i] - scale)
+        scale = losses[i]
       mu_upper_mass += probs[i]
-      mu_lower_mass += probs[i] * np.exp(-losses[i])
+      mu_lower_mass += probs[i] * np.exp(scale - losses[i])
       i -= 1
 
   return deltas
-- 
2.43.0


From c5fdcdd512db1ff3f05befcb0dce8f4eb5c0e5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 22/54] fix: deltas never exceed one

Rounding in repeated convolutions let get_delta_for_epsilon return slightly more than 1.
---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 8b5e221..3d8a5b0 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -54,7 +54,10 @@ def _get_delta_for_epsilon(infinity_mass: float,
   losses = np.asarray(losses)
   probs = np.asarray(probs)
   indices = losses > epsilon
-  return (
+  # The probabilities of composed PMFs may sum to slightly more than 1 due to
+  # numerical errors.
+  return min(
+      1.0,
       infinity_mass +
       np.dot(-np.expm1(epsilon - losses[indices]), probs[indices])
   )
@@ -120,7 +123,7 @@ def _get_delta_for_epsilon_vectorized(infinity_mass: float,
       mu_lower_mass += probs[i] * np.exp(scale - losses[i])
       i -= 1
 
-  return deltas
+  return np.clip(deltas, 0.0, 1.0)
 
 
 def _get_epsilon_for_delta(infinity_mass: float,
@@ -462,7 +465,7 @@ class DensePLDPmf(PLDPmf):
       delta += self_probs[i] * (upper_mass - lower_mass)
       lower_mass *= np.exp(-discretization)
 
-    return delta
+    return min(1.0, delta)
 
 
 class SparsePLDPmf(PLDPmf):
-- 
2.43.0


From 9d5248c8351843d3e880e542b3aabf946b951554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 23/54] fix: randomized response that always answers uniformly
 has no privacy cost

The PLD accountant raised ValueError for RandomizedResponseDpEvent with
noise_parameter 1, which is valid and free.
---
 .../dp_accounting/pld/pld_privacy_accountant.py              | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index 6a989c4..5690fda 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -65,8 +65,9 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
         return CompositionErrorDetails(
             invalid_event=event, error_message=error_msg)
       if do_compose:
-        if event.num_buckets == 1:
-          # This is a NoOp event, even when noise_parameter is zero.
+        if event.num_buckets == 1 or event.noise_parameter == 1:
+          # The output does not depend on the input, even when noise_parameter is
+          # zero and there is only one bucket.
           pass
         elif event.noise_parameter == 0:
           self._contains_non_dp_event = True
-- 
2.43.0


From 0fc23bc4b3f13724c9e21f736d89fc28d21f28a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 24/54] fix: epsilon queries of dense distributions do not
 accumulate rounding errors

Losses obtained by repeatedly subtracting the interval drift, so that the delta at the
returned epsilon exceeded the target; epsilons are never (slightly) negative.
---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 3d8a5b0..2da0719 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -20,7 +20,6 @@ supplementary material below for more details:
 """
 
 import abc
-import itertools
 import math
 import numbers
 from typing import Iterable, List, Mapping, Sequence, Tuple, Union
@@ -169,7 +168,7 @@ def _get_epsilon_for_delta(infinity_mass: float,
 
   if mass_lower == 0 or mass_upper <= mass_lower * math.exp(-scale) + delta:
     return 0
-  return scale + math.log((mass_upper - delta) / mass_lower)
+  return max(0, scale + math.log((mass_upper - delta) / mass_lower))
 
 
 def _truncate_tails(probs: ArrayLike, tail_mass_truncation: float,
@@ -399,9 +398,9 @@ class DensePLDPmf(PLDPmf):
 
   def get_epsilon_for_delta(self, delta: float) -> float:
     """Computes epsilon for which hockey stick divergence is at most delta."""
-    upper_loss = (self._lower_loss + len(self._probs) -
-                  1) * self._discretization
-    reversed_losses = itertools.count(upper_loss, -self._discretization)
+    # Accumulating -discretization instead would accumulate rounding errors.
+    reversed_losses = ((self._lower_loss + i) * self._discretization
+                       for i in reversed(range(self.size)))
 
     return _get_epsilon_for_delta(self._infinity_mass, reversed_losses,
                                   np.flip(self._probs), delta)
-- 
2.43.0


From 72af2d1dda4bfc6267e734ac8f6951e7d82a9064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 25/54] fix: delta at an epsilon equal to the max divergence is
 zero

For an infinite order whose divergence equals epsilon, compute_delta evaluated inf * 0
and ignored the order, so that converting to epsilon and back was inconsistent.
---
 .../dp_accounting/rdp/rdp_privacy_accountant.py             | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index efd9e02..1858d98 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -202,7 +202,11 @@ def compute_delta(
       logdelta = -np.inf
     else:
       logdelta = 0.5 * math.log(-math.expm1(-r))
-    if a > 1.01:
+    if np.isinf(a):
+      # The max divergence is a pure epsilon.
+      if r <= epsilon:
+        logdelta = -np.inf
+    elif a > 1.01:
       # This bound is not numerically stable as alpha->1.
       # Thus we have a min value for alpha.
       # The bound is also not useful for small alpha, so doesn't matter.
-- 
2.43.0


From 8bda6a4504bc82b947c6ab8210125a80dd8a1379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 26/54] fix: events with strings or nested containers survive
 conversion to named tuples

---
 .../dp_accounting/dp_accounting/dp_event.py   | 62 ++++++++++---------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/dp_event.py b/python/dp_accounting/dp_accounting/dp_event.py
index 3d490bd..c765677 100644
--- a/python/dp_accounting/dp_accounting/dp_event.py
+++ b/python/dp_accounting/dp_accounting/dp_event.py
@@ -59,10 +59,10 @@ incorrect results, the following should be enforced:
    is `False` when processing unknown mechanisms.
 """
 
-from collections.abc import Mapping, Sequence
+from collections.abc import Callable, Mapping, Sequence
 import importlib
 import typing
-from typing import List, NamedTuple, Protocol, Union
+from typing import Any, List, NamedTuple, Protocol, Union
 
 import attr
 
@@ -108,22 +108,12 @@ class DpEvent(object):
 
     def _to_named_tuple(value):
       if attr.has(type(value)):
-        value = value.to_named_tuple()
-      return value
+        return value.to_named_tuple()
+      return _map_container(_to_named_tuple, value)
 
     values = {'module_name': cls.__module__, 'class_name': cls.__name__}
     for key, value in attr.asdict(self, recurse=False).items():
-      if attr.has(type(value)):
-        value = _to_named_tuple(value)
-      elif isinstance(value, Mapping):
-        elements = [(k, _to_named_tuple(v)) for k, v in value.items()]
-        mapping_type = type(value)
-        value = mapping_type(elements)
-      elif isinstance(value, Sequence):
-        elements = [_to_named_tuple(x) for x in value]
-        sequence_type = type(value)
-        value = sequence_type(elements)
-      values[key] = value
+      values[key] = _to_named_tuple(value)
 
     return _NamedTupleWrapper(**values)
 
@@ -148,24 +138,13 @@ class DpEvent(object):
 
     def _from_named_tuple(value):
       if isinstance(value, DpEventNamedTuple):
-        value = DpEvent.from_named_tuple(value)
-      return value
+        return DpEvent.from_named_tuple(value)
+      return _map_container(_from_named_tuple, value)
 
     fields = set(obj._fields) - set(['module_name', 'class_name'])
     values = {}
     for field in fields:
-      value = getattr(obj, field)
-      if isinstance(value, DpEventNamedTuple):
-        value = _from_named_tuple(value)
-      elif isinstance(value, Mapping):
-        elements = [(k, _from_named_tuple(v)) for k, v in value.items()]
-        mapping_type = type(value)
-        value = mapping_type(elements)
-      elif isinstance(value, Sequence):
-        elements = [_from_named_tuple(x) for x in value]
-        sequence_type = type(value)
-        value = sequence_type(elements)
-      values[field] = value
+      values[field] = _from_named_tuple(getattr(obj, field))
 
     module_name = obj.module_name
     if isinstance(module_name, bytes):
@@ -183,6 +162,31 @@ class DpEvent(object):
       raise e
 
 
+def _map_container(function: Callable[[Any], Any], value: Any) -> Any:
+  """Applies `function` to the elements of a mapping or sequence.
+
+  Args:
+    function: Function to apply to each element.
+    value: The value, which is returned as is if it is not a container, or if
+      `function` changes none of its elements.
+
+  Returns:
+    Container of the same type as `value` with the mapped elements.
+  """
+  if isinstance(value, (str, bytes)):
+    # Strings are sequences, but their characters are not elements to convert.
+    return value
+  elif isinstance(value, Mapping):
+    elements = [(k, function(v)) for k, v in value.items()]
+    changed = any(new is not value[k] for k, new in elements)
+  elif isinstance(value, Sequence):
+    elements = [function(x) for x in value]
+    changed = any(new is not old for new, old in zip(elements, value))
+  else:
+    return value
+  return type(value)(elements) if changed else value
+
+
 def _check_attrs_cls_for_known_errors(cls: type[DpEvent]) -> None:
   """Checks properties of attrs that are not compatible with NamedTuple.
 
-- 
2.43.0


From bb1c1547488e5b381edabfc195e2fd7976a6f3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 27/54] fix: calibration to a target of zero finds the optimum
 instead of any parameter attaining it

---
 .../dp_accounting/mechanism_calibration.py    | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index 773f7ba..9fb0c72 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -17,6 +17,7 @@ Algorithms to optimize some quantity while remaining within a specified privacy
 budget.
 """
 
+import sys
 from typing import Callable, Optional, Union
 
 import attr
@@ -132,7 +133,7 @@ def _bisect(
   if upper_value == 0:
     return upper
 
-  if lower_value * upper_value > 0:
+  if (lower_value < 0) == (upper_value < 0):
     raise ValueError('Values must have opposite signs.')
 
   if upper - lower <= tol:
@@ -143,7 +144,7 @@ def _bisect(
 
   if middle_value == 0:
     return middle
-  elif lower_value * middle_value < 0:
+  elif (lower_value < 0) != (middle_value < 0):
     return _bisect(function, lower, middle, tol, lower_value, middle_value)
   else:
     return _bisect(function, middle, upper, tol, middle_value, upper_value)
@@ -240,6 +241,15 @@ def calibrate_dp_mechanism(
       raise NonEmptyAccountantError()
     return accountant.compose(event).get_epsilon(target_delta) - target_epsilon
 
+  def search_gap(x: float) -> float:
+    gap = epsilon_gap(x)
+    if gap == 0 and target_epsilon == 0:
+      # Since epsilon is never negative, it is zero on a whole interval of
+      # parameters. The search must not stop anywhere in it, but continue to its
+      # end. Hence a gap of zero counts as negative, that is, within budget.
+      return -sys.float_info.min
+    return gap
+
   if isinstance(bracket_interval, LowerEndpointAndGuess):
     bracket_interval = _search_for_explicit_bracket_interval(
         bracket_interval, epsilon_gap)
@@ -247,13 +257,20 @@ def calibrate_dp_mechanism(
     raise TypeError(f'Unrecognized bracket_interval type: '
                     f'{type(bracket_interval)}')
 
-  try:
-    root, result = optimize.brentq(
-        epsilon_gap,
+  def find_root(function: Callable[[float], float]):
+    return optimize.brentq(
+        function,
         bracket_interval.endpoint_1,
         bracket_interval.endpoint_2,
         xtol=tol,
         full_output=True)
+
+  try:
+    try:
+      root, result = find_root(search_gap)
+    except ValueError:
+      # Both endpoints may be within budget, with one exactly on target.
+      root, result = find_root(epsilon_gap)
   except ValueError as err:
     raise ValueError(
         '`brentq` raised ValueError. This often means the supplied bracket '
@@ -268,9 +285,9 @@ def calibrate_dp_mechanism(
     # Considering brentq's contract that there exists a root within tol of the
     # returned value, in most cases adding +/- tol will suffice.
     if epsilon_gap(root) > 0:
-      if epsilon_gap(root + tol) < 0:
+      if epsilon_gap(root + tol) <= 0:
         root += tol
-      elif epsilon_gap(root - tol) < 0:
+      elif epsilon_gap(root - tol) <= 0:
         root -= tol
       else:
         root = None
@@ -278,7 +295,7 @@ def calibrate_dp_mechanism(
   if root is None:
     # Fallback to custom bisection that guarantees root with non-positive value.
     root = _bisect(
-        epsilon_gap,
+        search_gap,
         bracket_interval.endpoint_1,
         bracket_interval.endpoint_2,
         tol,
-- 
2.43.0


From 2595f37306085cca3b371744da366136a57fcb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 28/54] fix: calibration stays within its bracket, given in
 either order

---
 .../dp_accounting/mechanism_calibration.py    | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index 9fb0c72..3836ef0 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -257,11 +257,14 @@ def calibrate_dp_mechanism(
     raise TypeError(f'Unrecognized bracket_interval type: '
                     f'{type(bracket_interval)}')
 
+  lower = min(bracket_interval.endpoint_1, bracket_interval.endpoint_2)
+  upper = max(bracket_interval.endpoint_1, bracket_interval.endpoint_2)
+
   def find_root(function: Callable[[float], float]):
     return optimize.brentq(
         function,
-        bracket_interval.endpoint_1,
-        bracket_interval.endpoint_2,
+        lower,
+        upper,
         xtol=tol,
         full_output=True)
 
@@ -285,10 +288,11 @@ def calibrate_dp_mechanism(
     # Considering brentq's contract that there exists a root within tol of the
     # returned value, in most cases adding +/- tol will suffice.
     if epsilon_gap(root) > 0:
-      if epsilon_gap(root + tol) <= 0:
-        root += tol
-      elif epsilon_gap(root - tol) <= 0:
-        root -= tol
+      # Parameters outside of the bracket may be invalid.
+      if epsilon_gap(min(root + tol, upper)) <= 0:
+        root = min(root + tol, upper)
+      elif epsilon_gap(max(root - tol, lower)) <= 0:
+        root = max(root - tol, lower)
       else:
         root = None
 
@@ -296,8 +300,8 @@ def calibrate_dp_mechanism(
     # Fallback to custom bisection that guarantees root with non-positive value.
     root = _bisect(
         search_gap,
-        bracket_interval.endpoint_1,
-        bracket_interval.endpoint_2,
+        lower,
+        upper,
         tol,
     )
 
-- 
2.43.0


From 8a3e1f0889bd2be0fdc47c8fa321310345c44828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 29/54] fix: bisection ends when its tolerance is below the
 resolution of floats

---
 python/dp_accounting/dp_accounting/mechanism_calibration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index 3836ef0..c5eef39 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -140,6 +140,9 @@ def _bisect(
     return lower if lower_value < 0 else upper
 
   middle = (lower + upper) / 2
+  if middle in (lower, upper):
+    # The tolerance is below the resolution of floats.
+    return lower if lower_value < 0 else upper
   middle_value = function(middle)
 
   if middle_value == 0:
-- 
2.43.0


From d0d139ea680bd4afa1254b8cbc73692f2743da1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 30/54] fix: default truncation of the discrete Gaussian
 accepts large sensitivities

---
 .../dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index ab8dc0c..d7adf40 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -1543,7 +1543,9 @@ class DiscreteGaussianPrivacyLoss(AdditiveNoisePrivacyLoss):
     if truncation_bound is None:
       # Tail bound from Canonne et al. ensures that the mass that gets truncated
       # is at most 1e-30. (See Proposition 1 in the supplementary material.)
-      self._truncation_bound = math.ceil(11.6 * sigma)
+      # It must also be at least half the sensitivity, see below.
+      self._truncation_bound = max(
+          math.ceil(11.6 * sigma), math.ceil(0.5 * sensitivity))
     else:
       self._truncation_bound = truncation_bound
 
-- 
2.43.0


From 820ed2f8d72a54d3be435577027447b2e1f496fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 31/54] fix: smallest discrete Laplace noise is not thrown off
 by rounding errors

---
 python/dp_accounting/dp_accounting/pld/accountant.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/accountant.py b/python/dp_accounting/dp_accounting/pld/accountant.py
index 59d9b9c..d2e07b0 100644
--- a/python/dp_accounting/dp_accounting/pld/accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/accountant.py
@@ -132,11 +132,13 @@ def get_smallest_discrete_laplace_noise(
     parameter = 1 / inverse_parameter
     # Setting value_discretization_interval equal to parameter because the
     # privacy loss of discrete Laplace mechanism is always divisible by the
-    # parameter.
+    # parameter. Connect-the-dots keeps this exact, whereas rounding up a loss
+    # with a small rounding error would overstate it by a whole interval.
     return privacy_loss_distribution.from_discrete_laplace_mechanism(
         parameter,
         sensitivity=sensitivity,
-        value_discretization_interval=parameter)
+        value_discretization_interval=parameter,
+        use_connect_dots=True)
 
   # discrete Laplace mechanism with parameter
   # epsilon / (sensitivity * num_queries) is epsilon-DP (for num_queries
-- 
2.43.0


From 4511ca2c8eb5f9897e222f6903512cac3c727f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 32/54] fix: binary search ends when its tolerance is below the
 resolution of floats

---
 python/dp_accounting/dp_accounting/pld/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/common.py b/python/dp_accounting/dp_accounting/pld/common.py
index c5e4168..6827154 100644
--- a/python/dp_accounting/dp_accounting/pld/common.py
+++ b/python/dp_accounting/dp_accounting/pld/common.py
@@ -111,6 +111,9 @@ def inverse_monotone_function(func: Callable[[float], float],
       mid_x = (upper_x + lower_x) // 2
     else:
       mid_x = (upper_x + lower_x) / 2
+      if mid_x in (lower_x, upper_x):
+        # The tolerance is below the resolution of floats.
+        break
 
     if check(func(mid_x), value):
       lower_x = mid_x
-- 
2.43.0


From de8fc86ca4c4f07859213db1fe883a16ecd48c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 33/54] fix: advanced composition of many queries or large
 epsilons does not overflow

---
 .../dp_accounting/dp_accounting/pld/accountant.py   | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/accountant.py b/python/dp_accounting/dp_accounting/pld/accountant.py
index d2e07b0..d2efda0 100644
--- a/python/dp_accounting/dp_accounting/pld/accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/accountant.py
@@ -16,6 +16,7 @@
 import math
 from typing import Callable, Optional
 
+import numpy as np
 from scipy import special
 
 from dp_accounting.pld import common
@@ -263,11 +264,13 @@ def advanced_composition(
 
   # The calculation follows Theorem 3.3 of https://arxiv.org/pdf/1311.0776.pdf
   for i in range(k // 2, -1, -1):
-    delta_i = 0
-    for l in range(i):
-      delta_i += special.binom(k, l) * (
-          math.exp(epsilon * (k - l)) - math.exp(epsilon * (k - 2 * i + l)))
-    delta_i /= ((1 + math.exp(epsilon))**k)
+    # Computed in log space since the individual factors might overflow.
+    l = np.arange(i)
+    log_terms = (
+        special.gammaln(k + 1) - special.gammaln(l + 1) -
+        special.gammaln(k - l + 1) - epsilon * l -
+        k * math.log1p(math.exp(-epsilon)))
+    delta_i = np.sum(np.exp(log_terms) * -np.expm1(2 * epsilon * (l - i)))
     if 1 - ((1 - delta) ** k) * (1 - delta_i) <= total_delta:
       return epsilon * (k - 2 * i)
   return None
-- 
2.43.0


From 2746147bb89dfc91887e8f7f97a6a629aabcc10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 34/54] fix: inverse of advanced composition is not lost to
 rounding errors

---
 python/dp_accounting/dp_accounting/pld/accountant.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/accountant.py b/python/dp_accounting/dp_accounting/pld/accountant.py
index d2efda0..204210f 100644
--- a/python/dp_accounting/dp_accounting/pld/accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/accountant.py
@@ -313,8 +313,13 @@ def get_smallest_epsilon_from_advanced_composition(
     return advanced_composition(privacy_parameters, num_queries,
                                 total_privacy_parameters.delta)
 
-  return common.inverse_monotone_function(
+  epsilon = common.inverse_monotone_function(
       get_total_epsilon_for_epsilon,
       total_privacy_parameters.epsilon,
       search_parameters,
       increasing=True)
+  if epsilon is None:
+    # By basic composition, the lower end of the search always satisfies the
+    # desired guarantee, except for rounding errors.
+    epsilon = search_parameters.lower_bound
+  return epsilon
-- 
2.43.0


From 5e8478673513c5054b96a35a70d2ace09ac2e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:50 +0000
Subject: [PATCH 35/54] fix: advanced composition keeps deltas apart from
 rounding errors

---
 .../dp_accounting/pld/accountant.py           | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/accountant.py b/python/dp_accounting/dp_accounting/pld/accountant.py
index 204210f..8da0b09 100644
--- a/python/dp_accounting/dp_accounting/pld/accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/accountant.py
@@ -227,6 +227,18 @@ def get_smallest_subsampled_gaussian_noise(
   return parameter if parameter is not None else upper_bound
 
 
+def _compose_delta(delta: float, num_queries: int) -> float:
+  """Computes 1 - (1 - delta)^num_queries, accurately also for small delta."""
+  if delta == 1:
+    return float(num_queries > 0)
+  return -math.expm1(num_queries * math.log1p(-delta))
+
+
+def _is_at_most(delta: float, total_delta: float) -> bool:
+  """Whether delta is at most total_delta, up to relative rounding errors."""
+  return delta <= total_delta * (1 + 1e-12)
+
+
 def advanced_composition(
     privacy_parameters: common.DifferentialPrivacyParameters,
     num_queries: int,
@@ -262,6 +274,8 @@ def advanced_composition(
   delta = privacy_parameters.delta
   k = num_queries
 
+  min_total_delta = _compose_delta(delta, k)
+
   # The calculation follows Theorem 3.3 of https://arxiv.org/pdf/1311.0776.pdf
   for i in range(k // 2, -1, -1):
     # Computed in log space since the individual factors might overflow.
@@ -271,7 +285,9 @@ def advanced_composition(
         special.gammaln(k - l + 1) - epsilon * l -
         k * math.log1p(math.exp(-epsilon)))
     delta_i = np.sum(np.exp(log_terms) * -np.expm1(2 * epsilon * (l - i)))
-    if 1 - ((1 - delta) ** k) * (1 - delta_i) <= total_delta:
+    # 1 - ((1 - delta)**k) * (1 - delta_i), without losing small deltas.
+    composed_delta = delta_i + (1 - delta_i) * min_total_delta
+    if _is_at_most(composed_delta, total_delta):
       return epsilon * (k - 2 * i)
   return None
 
@@ -301,7 +317,8 @@ def get_smallest_epsilon_from_advanced_composition(
     1 - (1 - delta)^num_queries for which no guarantee of
     total_privacy_parameters DP is possible for any value of epsilon.
   """
-  if 1 - ((1 - delta) ** num_queries) > total_privacy_parameters.delta:
+  if not _is_at_most(
+      _compose_delta(delta, num_queries), total_privacy_parameters.delta):
     return None
 
   search_parameters = common.BinarySearchParameters(
-- 
2.43.0


From d83e797038a9ae7379468c262c066a5b854841e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 36/54] fix: mixture of Gaussians inverts huge losses without
 endless recursion

---
 .../dp_accounting/pld/privacy_loss_mechanism.py              | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index d7adf40..bd2fc21 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -2371,12 +2371,13 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
     """
     if len(privacy_losses) == 0:  # pylint: disable=g-explicit-length-test
       return []
-    if bounds[1] - bounds[0] <= precision:
+    mid = (bounds[0] + bounds[1]) / 2
+    # The second condition holds if precision is below the resolution of floats.
+    if bounds[1] - bounds[0] <= precision or mid in bounds:
       return np.repeat(
           np.floor(bounds[1] / precision) * precision, len(privacy_losses)
       )
 
-    mid = (bounds[0] + bounds[1]) / 2
     pl_split = self.privacy_loss(mid)
     lower_indices = privacy_losses < pl_split
     higher_indices = privacy_losses >= pl_split
-- 
2.43.0


From 7081eb146c9640dbe9b58fbb8e0eb9195344497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:12 +0000
Subject: [PATCH 37/54] fix: mixture of Gaussians reports the correct delta for
 an integer-typed epsilon

---
 .../dp_accounting/pld/privacy_loss_mechanism.py              | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index bd2fc21..3fb6c36 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -2028,7 +2028,10 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
       A non-negative real number which is the epsilon-hockey stick divergence of
       the mechanism, or a numpy array if epsilon is list-like.
     """
-    epsilons = np.atleast_1d(epsilon)
+    if isinstance(epsilon, numbers.Number):
+      epsilons = np.array([epsilon], dtype=float)
+    else:
+      epsilons = np.atleast_1d(epsilon)
     if not np.all(epsilons[1:] >= epsilons[:-1]):
       raise ValueError(f'Epsilon values must be non-decreasing: {epsilons}')
     deltas = np.zeros_like(epsilons, dtype=float)
-- 
2.43.0


From 2222143f26359fc6e88019f29388d2f33426d3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:56 +0000
Subject: [PATCH 38/54] fix: mixture of Gaussians without zero sensitivity is
 not taken for a subsampled one

---
 .../dp_accounting/pld/privacy_loss_mechanism.py             | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index 3fb6c36..318fa40 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -1948,7 +1948,11 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
     # Constant properties.
     self._log_sampling_probs = np.log(self.sampling_probs)
     self._pos_sampling_probs = self.sampling_probs[self.sensitivities > 0.0]
-    self._sampling_prob = np.clip(self._pos_sampling_probs.sum(), 0, 1)
+    if np.all(self.sensitivities > 0.0):
+      # The sum of the probabilities could differ from 1 by rounding errors.
+      self._sampling_prob = 1.0
+    else:
+      self._sampling_prob = np.clip(self._pos_sampling_probs.sum(), 0, 1)
     nonzero_sens = self.sensitivities[self.sensitivities > 0.0]
     self._max_sens = np.max(nonzero_sens)
     self._gaussian_random_variable = stats.norm(scale=standard_deviation)
-- 
2.43.0


From 4e4c717e2c465e2e877f4eb5b80363f03e72f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 39/54] fix: Gaussian noise for small sensitivities is found to
 a matching precision

---
 .../dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index 318fa40..1fb45ad 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -1180,7 +1180,9 @@ class GaussianPrivacyLoss(AdditiveNoisePrivacyLoss):
         0,
         math.inf,
         initial_guess=math.sqrt(2 * math.log(1.5 / privacy_parameters.delta)) *
-        sensitivity / privacy_parameters.epsilon)
+        sensitivity / privacy_parameters.epsilon,
+        # Small sensitivities need a small standard deviation.
+        tolerance=1e-7 * min(1, sensitivity))
 
     def _get_delta_for_standard_deviation(current_standard_deviation):
       return GaussianPrivacyLoss(
-- 
2.43.0


From 080317e607f84277a1b02521f5a03a79ff9c905f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:18 +0000
Subject: [PATCH 40/54] fix: clustering noise calibrated to the budget passes
 its own validation

---
 learning/clustering/privacy_calculator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/learning/clustering/privacy_calculator.py b/learning/clustering/privacy_calculator.py
index 1240238..54b3a3f 100644
--- a/learning/clustering/privacy_calculator.py
+++ b/learning/clustering/privacy_calculator.py
@@ -179,9 +179,12 @@ class PrivacyCalculator():
     logging.debug('Accounted epsilon: %s', calculated_epsilon)
     logging.debug('Accounted delta: %s', calculated_delta)
 
+    # Parameters calibrated to meet the budget exactly may be rounded to just
+    # above it.
+    slack = 1 + 1e-9
     if (
-        calculated_epsilon > privacy_param.epsilon
-        or calculated_delta > privacy_param.delta
+        calculated_epsilon > privacy_param.epsilon * slack
+        or calculated_delta > privacy_param.delta * slack
     ):
       raise ValueError(
           'Accounted privacy params greater than allowed: '
-- 
2.43.0


From a438e7047cf28ebc4c02003f1c96281cd3c0d9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 41/54] fix: clipping an empty set of points does not fail

---
 learning/clustering/clustering_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/learning/clustering/clustering_params.py b/learning/clustering/clustering_params.py
index 0c3de98..fe103e2 100644
--- a/learning/clustering/clustering_params.py
+++ b/learning/clustering/clustering_params.py
@@ -194,7 +194,7 @@ class Data():
       points = self.datapoints
     scale = self.radius / np.maximum(
         np.linalg.norm(points, axis=-1), self.radius).reshape(-1, 1)
-    if np.min(scale) < 1.0:
+    if np.any(scale < 1.0):
       logging.debug(
           "Found %s points outside of radius provided, rescaling them to "
           "have norm exactly equal to the radius.", np.sum(scale < 1.0))
-- 
2.43.0


From f0c74ca285fd54d14cc3569ea1fbd53060f2ab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 42/54] fix: private averages of integer-typed points do not
 fail

---
 learning/clustering/central_privacy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/learning/clustering/central_privacy_utils.py b/learning/clustering/central_privacy_utils.py
index 2a4b2e3..27c78ff 100644
--- a/learning/clustering/central_privacy_utils.py
+++ b/learning/clustering/central_privacy_utils.py
@@ -62,7 +62,7 @@ def get_private_average(nonprivate_points: np.ndarray, private_count: int,
   sum_points = np.sum(nonprivate_points, axis=0)
 
   # Add noise.
-  sum_points += np.random.normal(
+  sum_points = sum_points + np.random.normal(
       scale=average_privacy_param.gaussian_standard_deviation, size=dim)
   return sum_points / private_count
 
-- 
2.43.0


From fdccb261af25b415f38cce36035c8507688d447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:10 +0000
Subject: [PATCH 43/54] fix: hockey stick tester weighs the labels as described
 for unequal sample sizes

---
 .../dp_auditorium/testers/hockey_stick_tester.py             | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/dp_auditorium/dp_auditorium/testers/hockey_stick_tester.py b/python/dp_auditorium/dp_auditorium/testers/hockey_stick_tester.py
index 1b61eae..570c17d 100644
--- a/python/dp_auditorium/dp_auditorium/testers/hockey_stick_tester.py
+++ b/python/dp_auditorium/dp_auditorium/testers/hockey_stick_tester.py
@@ -170,6 +170,11 @@ class HockeyStickPropertyTester(divergence_tester.DivergencePropertyTester):
     if len(samples1.shape) == 1:
       samples1 = samples1.reshape(-1, 1)
       samples2 = samples2.reshape(-1, 1)
+    # Use equally many samples of both distributions, so that the two labels have
+    # the weights described above.
+    num_samples = min(len(samples1), len(samples2))
+    samples1 = samples1[:num_samples, ...]
+    samples2 = samples2[:num_samples, ...]
     samples1_final_ix = int(sample_cutoff_fraction * len(samples1))
     samples2_initial_ix = int(sample_cutoff_fraction * len(samples2))
     samples1 = samples1[0:samples1_final_ix, ...]
-- 
2.43.0


From 339373650dbe87e6881182c4f6cbc427f3b1730c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:10 +0000
Subject: [PATCH 44/54] fix: Renyi tester returns a trivial bound and not NaN
 for few samples

---
 python/dp_auditorium/dp_auditorium/testers/renyi_tester.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/dp_auditorium/dp_auditorium/testers/renyi_tester.py b/python/dp_auditorium/dp_auditorium/testers/renyi_tester.py
index 6819e17..ea76fb8 100644
--- a/python/dp_auditorium/dp_auditorium/testers/renyi_tester.py
+++ b/python/dp_auditorium/dp_auditorium/testers/renyi_tester.py
@@ -64,6 +64,9 @@ def _compute_error_from_samples(
       / num_samples
   )
   gamma = max(error_1, error_2)
+  if gamma >= 1:
+    # Too few samples for the Chernoff bound to say anything.
+    return np.inf
   error_from_gamma = np.log((1 + gamma) / (1 - gamma))
   return error_from_gamma
 
-- 
2.43.0


From 4fee9d15f28e14c18b28f09fa708a19a1338604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:10 +0000
Subject: [PATCH 45/54] fix: splitting an empty sample into train and test
 samples is refused

---
 .../dp_auditorium/testers/property_tester_utils.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py b/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py
index dbe283f..069d909 100644
--- a/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py
+++ b/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py
@@ -40,7 +40,7 @@ def split_train_test_samples(
     ValueError if samples has less than 2 elements.
   """
   n = samples.shape[0]
-  if n == 1:
+  if n < 2:
     raise ValueError(
         'Must have at least 2 elements in sample to generate '
         'training and test samples'
-- 
2.43.0


From 747c849fd9c8fe2a825dd363a492ff1e217ce33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:35 +0000
Subject: [PATCH 46/54] fix: a last trial result of zero is reported to Vizier

---
 .../dp_auditorium/generators/vizier_dataset_generator.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py b/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
index 574a90f..ca0e277 100644
--- a/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
+++ b/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
@@ -219,7 +219,7 @@ class VizierDatasetGenerator(interfaces.DatasetGenerator):
     Returns:
       Array with Vizier suggestions for new neighboring datasets.
     """
-    if last_trial_result:
+    if last_trial_result is not None:
       self._complete_trial(last_trial_result)
 
     self._load_trial()
-- 
2.43.0


From 76a914532c17f482f132865ebcc147d57b6e081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:52 +0000
Subject: [PATCH 47/54] fix: sampling without replacement with very large noise
 no longer raises

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 1858d98..c8ed2c1 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -43,10 +43,10 @@ def _log_sub_sign(logx: float, logy: float) -> Tuple[bool, float]:
   """Returns log(exp(logx)-exp(logy)) and its sign."""
   if logx > logy:
     s = True
-    mag = logx + math.log1p(-np.exp(logy - logx))
+    mag = logx + math.log(-math.expm1(logy - logx))
   elif logx < logy:
     s = False
-    mag = logy + np.log1p(-np.exp(logx - logy))
+    mag = logy + math.log(-math.expm1(logx - logy))
   else:
     s = True
     mag = -np.inf
@@ -509,7 +509,7 @@ def _compute_rdp_sample_wor_gaussian_int(
   # Initialize with 1 in the log space.
   log_a = 0
   # Calculates the log term when alpha = 2
-  log_f2m1 = func(2.0) + math.log1p(-np.exp(-func(2.0)))
+  log_f2m1 = func(2.0) + math.log(-math.expm1(-func(2.0)))
   if alpha <= max_alpha:
     # We need forward differences of exp(cgf)
     # The following line is the numerically stable way of implementing it.
-- 
2.43.0


From c059b991337f1cea586f5ffcd829b6aac116813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:52 +0000
Subject: [PATCH 48/54] fix: Renyi epsilon of a costless history is zero for
 every delta

---
 .../dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index c8ed2c1..1944d92 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -263,7 +263,7 @@ def compute_epsilon(
           r,
       )
       epsilon = 0.0
-    elif delta**2 + math.expm1(-r) > 0:
+    elif r == 0 or delta**2 + math.expm1(-r) > 0:
       # In this case, we can simply bound via KL divergence:
       # delta <= sqrt(1-exp(-KL)).
       epsilon = 0  # No need to try further computation if we have epsilon = 0.
-- 
2.43.0


From 8e74de2ab64f91c726bfc2f17e6c3786b0501baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:17 +0000
Subject: [PATCH 49/54] fix: subsampled Laplace loss distributions no longer
 overflow for small noise

---
 .../dp_accounting/pld/privacy_loss_mechanism.py  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index 1fb45ad..0e6b1da 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -762,16 +762,16 @@ class LaplacePrivacyLoss(AdditiveNoisePrivacyLoss):
                                epsilon_lower=-max_epsilon)
     elif self.adjacency_type == AdjacencyType.ADD:
       return ConnectDotsBounds(
-          epsilon_upper=- math.log(1 - self.sampling_prob +
-                                   self.sampling_prob * math.exp(-max_epsilon)),
-          epsilon_lower=- math.log(1 - self.sampling_prob +
-                                   self.sampling_prob * math.exp(max_epsilon)))
+          epsilon_upper=-common.log_a_times_exp_b_plus_c(
+              self.sampling_prob, -max_epsilon, 1 - self.sampling_prob),
+          epsilon_lower=-common.log_a_times_exp_b_plus_c(
+              self.sampling_prob, max_epsilon, 1 - self.sampling_prob))
     else:  # Case: self.adjacency_type == AdjacencyType.REMOVE
       return ConnectDotsBounds(
-          epsilon_upper=math.log(1 - self.sampling_prob +
-                                 self.sampling_prob * math.exp(max_epsilon)),
-          epsilon_lower=math.log(1 - self.sampling_prob +
-                                 self.sampling_prob * math.exp(-max_epsilon)))
+          epsilon_upper=common.log_a_times_exp_b_plus_c(
+              self.sampling_prob, max_epsilon, 1 - self.sampling_prob),
+          epsilon_lower=common.log_a_times_exp_b_plus_c(
+              self.sampling_prob, -max_epsilon, 1 - self.sampling_prob))
 
   def privacy_loss_without_subsampling(self, x: float) -> float:
     """Computes the privacy loss of the Laplace mechanism without sub-sampling at a given point.
-- 
2.43.0


From 333be91eb13192861b736797049cbe3203babcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:01 +0000
Subject: [PATCH 50/54] fix: deltas of composed loss distributions are never
 negative

---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 2da0719..d4c6c4b 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -53,13 +53,12 @@ def _get_delta_for_epsilon(infinity_mass: float,
   losses = np.asarray(losses)
   probs = np.asarray(probs)
   indices = losses > epsilon
-  # The probabilities of composed PMFs may sum to slightly more than 1 due to
-  # numerical errors.
-  return min(
-      1.0,
-      infinity_mass +
-      np.dot(-np.expm1(epsilon - losses[indices]), probs[indices])
+  # The probabilities of composed PMFs may be slightly negative or sum to
+  # slightly more than 1 due to numerical errors.
+  delta = infinity_mass + np.dot(
+      -np.expm1(epsilon - losses[indices]), probs[indices]
   )
+  return min(max(delta, 0.0), 1.0)
 
 
 def _get_delta_for_epsilon_vectorized(infinity_mass: float,
-- 
2.43.0


From cc28e924dfdb242bb6d3ac0ab5acedb606665f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:01 +0000
Subject: [PATCH 51/54] fix: epsilon of a loss distribution for delta 1 is zero

---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index d4c6c4b..96ff8ec 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -139,6 +139,9 @@ def _get_epsilon_for_delta(infinity_mass: float,
      The smallest epsilon such that the epsilon-hockey stick divergence is at
      most delta. When no such finite epsilon exists, return math.inf.
   """
+  if delta >= 1:
+    # The hockey stick divergence is never more than 1.
+    return 0
   if infinity_mass > delta:
     return math.inf
 
-- 
2.43.0


From 89bb56d713147a1273a50368b112d1b2708fe06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:59 +0000
Subject: [PATCH 52/54] fix: self-composition of a loss distribution without
 finite losses no longer raises

---
 python/dp_accounting/dp_accounting/pld/common.py  | 2 +-
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/common.py b/python/dp_accounting/dp_accounting/pld/common.py
index 6827154..fc65916 100644
--- a/python/dp_accounting/dp_accounting/pld/common.py
+++ b/python/dp_accounting/dp_accounting/pld/common.py
@@ -237,7 +237,7 @@ def compute_self_convolve_bounds(
   upper_bound = (len(input_list) - 1) * num_times
   lower_bound = 0
 
-  if tail_mass_truncation == 0:
+  if tail_mass_truncation == 0 or not np.any(input_list):
     return lower_bound, upper_bound
 
   if orders is None:
diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 96ff8ec..fe1359f 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -379,6 +379,9 @@ class DensePLDPmf(PLDPmf):
         self._probs, num_times, tail_mass_truncation)
     lower_loss += truncation_lower_bound
     probs = np.array(probs)
+    if self._infinity_mass >= 1:
+      return DensePLDPmf(self._discretization, lower_loss, probs,
+                         self._infinity_mass, self._pessimistic_estimate)
     # infinity mass after composition is given as
     # tail_mass_truncation + 1 - (1 - infinity_mass)**num_times
     # Below we use a numerically stable approach to compute the second term.
-- 
2.43.0


From fc2f489d0261370892f96f09da1e1a89bea5aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:37 +0000
Subject: [PATCH 53/54] fix: calibration falls back to bisection when the root
 search does not converge

---
 python/dp_accounting/dp_accounting/mechanism_calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index c5eef39..b6df106 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -269,7 +269,8 @@ def calibrate_dp_mechanism(
         lower,
         upper,
         xtol=tol,
-        full_output=True)
+        full_output=True,
+        disp=False)
 
   try:
     try:
-- 
2.43.0


From 03ede7f163d948433d7ef8515279b8bfd93f5511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:54 +0000
Subject: [PATCH 54/54] fix: mixture of Gaussians inverts a single loss
 relative to the scale of its noise

The privacy-buckets construction located its cut-offs to an absolute 1e-6, so
with a small standard deviation its optimistic deltas exceeded the true
divergence (by about 8e-4 at standard deviation 1e-4, interval 1e-3).
---
 .../dp_accounting/pld/privacy_loss_mechanism.py          | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index 0e6b1da..8a01b4b 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -2233,7 +2233,7 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
       return add_inverse_loss - sensitivity
 
   def inverse_privacy_loss(
-      self, privacy_loss: float, precision: float = 1e-6
+      self, privacy_loss: float, precision: Optional[float] = None
   ) -> float:
     """(Approximately) computes the inverse of a given privacy loss.
 
@@ -2246,13 +2246,18 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
 
     Args:
       privacy_loss: the privacy loss value.
-      precision: Precision of the output.
+      precision: Precision of the output. If not given, it is 1e-6 relative to
+        the scale of the noise (and at most 1e-6).
 
     Returns:
       The largest float x such that the privacy loss at x is at least
       privacy_loss, rounded down to the nearest multiple of precision if
       we are using pessimistic estimates, and otherwise rounded up.
     """
+    if precision is None:
+      # As in get_delta_for_epsilon, an absolute precision is too coarse if the
+      # standard deviation is small.
+      precision = 1e-6 * min(1.0, self._standard_deviation)
     return float(
         self.inverse_privacy_losses(np.atleast_1d(privacy_loss), precision)[0]
     )
-- 
2.43.0

