From d32796d4b4f6247263be328ad2c99b87e8497f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 01/29] fix: epsilon is not raised to losses of zero
 probability

When delta equals the infinite mass, get_epsilon_for_delta returned the largest
loss on the grid even if that loss has probability zero.
---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index e798abd..8061734 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -143,7 +143,7 @@ def _get_epsilon_for_delta(infinity_mass: float,
     mass_upper += prob
     mass_lower += math.exp(-loss) * prob
 
-    if mass_upper >= delta and mass_lower == 0:
+    if mass_upper > delta and mass_lower == 0:
       # This only occurs when loss is very large, which results in exp(-loss)
       # being treated as zero.
       return max(0, loss)
-- 
2.43.0


From e55881b408ae8a03943a6b92e760cc3836875cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 02/29] fix: keep one loss when truncating tails of a tiny
 finite mass

Composing distributions whose finite mass is at most half the truncated mass
(for example after enough compositions of an (eps, 0.5)-DP mechanism) raised
IndexError.
---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 8061734..655ad12 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -173,7 +173,7 @@ def _truncate_tails(probs: ArrayLike, tail_mass_truncation: float,
     Tuple of (size of truncated prefix, truncated array, mass that goes to
     infinity).
   """
-  if tail_mass_truncation == 0:
+  if tail_mass_truncation == 0 or not len(probs):  # pylint: disable=g-explicit-length-test
     return 0, probs, 0
 
   def _find_prefix_to_truncate(arr: np.ndarray, threshold: float) -> int:
@@ -186,7 +186,9 @@ def _truncate_tails(probs: ArrayLike, tail_mass_truncation: float,
         return i
     return len(arr)
 
-  left_idx = _find_prefix_to_truncate(probs, tail_mass_truncation / 2)
+  # At least one element is kept, also when the total mass is below threshold.
+  left_idx = min(
+      _find_prefix_to_truncate(probs, tail_mass_truncation / 2), len(probs) - 1)
   right_idx = len(probs) - _find_prefix_to_truncate(
       np.flip(probs), tail_mass_truncation / 2)
   # Be sure that left_idx < right_idx. left_idx >= right_idx might be when
-- 
2.43.0


From fb728792c25b59e877a159e31e48f8a02f37e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 03/29] fix: self-compose dense distributions whose loss is
 always infinite

log1p(-1) and the Chernoff bound of a zero mass raised an error.
---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 655ad12..9953691 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -355,6 +355,9 @@ class DensePLDPmf(PLDPmf):
     """See base class."""
     if num_times <= 0:
       raise ValueError(f'num_times should be >= 1, num_times={num_times}')
+    if self._infinity_mass == 1:
+      # The privacy loss is always infinite, and remains so under composition.
+      return self
     lower_loss = self._lower_loss * num_times
     truncation_lower_bound, probs = common.self_convolve(
         self._probs, num_times, tail_mass_truncation)
-- 
2.43.0


From 8ad69316ca9028b7d795c905e433740106c0b200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 04/29] fix: list form of an empty mass function is empty

Composed-delta queries and dense conversion of a distribution without finite
losses raised ValueError.
---
 python/dp_accounting/dp_accounting/pld/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/common.py b/python/dp_accounting/dp_accounting/pld/common.py
index e468c9a..28a1658 100644
--- a/python/dp_accounting/dp_accounting/pld/common.py
+++ b/python/dp_accounting/dp_accounting/pld/common.py
@@ -137,6 +137,8 @@ def dictionary_to_list(
     result_list[i] is equal to dictionary[offset + i] and is zero if offset + i
     is not a key in the input dictionary.
   """
+  if not input_dictionary:
+    return 0, []
   offset = min(input_dictionary)
   max_val = max(input_dictionary)
   result_list = [input_dictionary.get(i, 0) for i in range(offset, max_val + 1)]
-- 
2.43.0


From 2e0e7cff2d7ec3134a3f92a66b1928a7792dd535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 05/29] fix: count every repetition of randomized response in
 PLDAccountant

---
 .../dp_accounting/dp_accounting/pld/pld_privacy_accountant.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index 5fafb0b..6a989c4 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -76,7 +76,7 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
               num_buckets=event.num_buckets,
               value_discretization_interval=self._value_discretization_interval,
               neighboring_relation=self._neighboring_relation,
-          )
+          ).self_compose(count)
           self._pld = self._pld.compose(rr_pld)
       return None
     elif isinstance(event, dp_event.GaussianDpEvent):
-- 
2.43.0


From e9acaaa4d0b6904ba1a78350257c4f128932f80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 06/29] fix: gaussian noise multipliers combine for integer and
 zero sigma

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index ec00763..2aec372 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -383,7 +383,7 @@ def _compute_rdp_poisson_subsampled_gaussian(
     )
 
   def compute_one_order(q, alpha):
-    if q == 0:
+    if q == 0 or np.isinf(noise_multiplier):
       return 0
 
     if np.isinf(alpha) or noise_multiplier == 0:
@@ -568,13 +568,13 @@ def _effective_gaussian_noise_multiplier(
     sum_sigma_inv_sq = 0
     for e in event.events:
       sigma = _effective_gaussian_noise_multiplier(e)
-      if not isinstance(sigma, float):
+      if isinstance(sigma, dp_event.DpEvent):
         return sigma
-      sum_sigma_inv_sq += sigma**-2
-    return sum_sigma_inv_sq**-0.5
+      sum_sigma_inv_sq += sigma**-2 if sigma != 0 else math.inf
+    return sum_sigma_inv_sq**-0.5 if sum_sigma_inv_sq > 0 else math.inf
   elif isinstance(event, dp_event.SelfComposedDpEvent):
     sigma = _effective_gaussian_noise_multiplier(event.event)
-    if not isinstance(sigma, float):
+    if isinstance(sigma, dp_event.DpEvent):
       return sigma
     return sigma * event.count**-0.5
   else:
-- 
2.43.0


From ffcc63acdbf8949e33d4a68fcb58d69635ef99eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 07/29] fix: convert the guarantee at infinite Renyi order to
 pure DP

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py           | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 2aec372..b61a851 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -202,7 +202,11 @@ def compute_delta(
       logdelta = -np.inf
     else:
       logdelta = 0.5 * math.log1p(-math.exp(-r))
-    if a > 1.01:
+    if np.isinf(a):
+      # Pure DP: the guarantee at infinite order is r-DP.
+      if r <= epsilon:
+        logdelta = -np.inf
+    elif a > 1.01:
       # This bound is not numerically stable as alpha->1.
       # Thus we have a min value for alpha.
       # The bound is also not useful for small alpha, so doesn't matter.
@@ -263,6 +267,8 @@ def compute_epsilon(
       # In this case, we can simply bound via KL divergence:
       # delta <= sqrt(1-exp(-KL)).
       epsilon = 0  # No need to try further computation if we have epsilon = 0.
+    elif np.isinf(a):
+      epsilon = r  # Pure DP: the guarantee at infinite order is r-DP.
     elif a > 1.01:
       # This bound is not numerically stable as alpha->1.
       # Thus we have a min value of alpha.
-- 
2.43.0


From 664d5f2fb8c6e70412670212e4c8baf414779b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 08/29] fix: keep the accounted loss when repeat-and-select is
 refused

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index b61a851..8d52cd5 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -1117,15 +1117,14 @@ class RdpAccountant(privacy_accountant.PrivacyAccountant):
         # Zero out self._rdp before computing the RDP of the underlying
         # DP event.
         self._rdp = np.zeros_like(self._orders, dtype=np.float64)
-      composition_error = self._maybe_compose(event.event, 1, do_compose)
-      if composition_error is None and do_compose:
-        self._rdp = (
-            count
-            * _compute_rdp_repeat_and_select(
-                self._orders, self._rdp, event.mean, event.shape
-            )
-            + save_rdp
-        )
+      try:
+        composition_error = self._maybe_compose(event.event, 1, do_compose)
+        if composition_error is None and do_compose:
+          save_rdp = save_rdp + count * _compute_rdp_repeat_and_select(
+              self._orders, self._rdp, event.mean, event.shape
+          )
+      finally:
+        self._rdp = save_rdp
       return composition_error
     elif isinstance(event, dp_event.RandomizedResponseDpEvent):
       if self._neighboring_relation not in [
-- 
2.43.0


From fd0ad1f1ea86b6a768a0c619d9b886eb8aca0a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 09/29] fix: Laplace mechanism without noise has infinite RDP

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py       | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 8d52cd5..c79fc6e 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -1104,10 +1104,13 @@ class RdpAccountant(privacy_accountant.PrivacyAccountant):
       return None
     elif isinstance(event, dp_event.LaplaceDpEvent):
       if do_compose:
-        eps = 1 / event.noise_multiplier
-        self._rdp += count * np.array(
-            [_laplace_rdp(eps, order) for order in self._orders]
-        )
+        if event.noise_multiplier == 0:
+          self._rdp += np.inf
+        else:
+          eps = 1 / event.noise_multiplier
+          self._rdp += count * np.array(
+              [_laplace_rdp(eps, order) for order in self._orders]
+          )
       return None
     elif isinstance(event, dp_event.RepeatAndSelectDpEvent):
       save_rdp = self._rdp
-- 
2.43.0


From c598533accb670a93dff37b3bb1dacf0a5d2c695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 10/29] fix: sampling without replacement with zero or infinite
 noise

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index c79fc6e..ced89c1 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -449,15 +449,15 @@ def _compute_rdp_sample_wor_gaussian_scalar(
 
   assert (q <= 1) and (q >= 0) and (alpha >= 1)
 
-  if q == 0:
+  if q == 0 or np.isinf(sigma):
     return 0
 
+  if np.isinf(alpha) or sigma == 0:
+    return np.inf
+
   if q == 1.0:
     return alpha / (2 * sigma**2)
 
-  if np.isinf(alpha):
-    return np.inf
-
   if float(alpha).is_integer():
     return _compute_rdp_sample_wor_gaussian_int(q, sigma, int(alpha)) / (
         alpha - 1
-- 
2.43.0


From fa6d99975df7f4039120c8cd6c6b29e1be2816c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 11/29] fix: refuse self-composition with a non-positive count

---
 .../dp_accounting/pld/pld_privacy_accountant.py        |  6 ++++++
 .../dp_accounting/rdp/rdp_privacy_accountant.py        | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index 6a989c4..48c36fe 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -48,6 +48,12 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
         self._contains_non_dp_event = True
       return None
     elif isinstance(event, dp_event.SelfComposedDpEvent):
+      if event.count < 1:
+        return CompositionErrorDetails(
+            invalid_event=event,
+            error_message=(
+                'Count of `SelfComposedDpEvent` must be positive. Found '
+                f'{event.count}.'))
       return self._maybe_compose(event.event, event.count * count, do_compose)
     elif isinstance(event, dp_event.ComposedDpEvent):
       for e in event.events:
diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index ced89c1..f01d287 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -579,6 +579,8 @@ def _effective_gaussian_noise_multiplier(
       sum_sigma_inv_sq += sigma**-2 if sigma != 0 else math.inf
     return sum_sigma_inv_sq**-0.5 if sum_sigma_inv_sq > 0 else math.inf
   elif isinstance(event, dp_event.SelfComposedDpEvent):
+    if event.count < 1:
+      return event
     sigma = _effective_gaussian_noise_multiplier(event.event)
     if isinstance(sigma, dp_event.DpEvent):
       return sigma
@@ -1015,6 +1017,14 @@ class RdpAccountant(privacy_accountant.PrivacyAccountant):
         self._rdp += np.inf
       return None
     elif isinstance(event, dp_event.SelfComposedDpEvent):
+      if event.count < 1:
+        return CompositionErrorDetails(
+            invalid_event=event,
+            error_message=(
+                'Count of `SelfComposedDpEvent` must be positive. Found '
+                f'{event.count}.'
+            ),
+        )
       return self._maybe_compose(event.event, event.count * count, do_compose)
     elif isinstance(event, dp_event.ComposedDpEvent):
       for e in event.events:
-- 
2.43.0


From 903cb23b78e1f0c1239016f1b7eeba46f29390cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 12/29] fix: finite, non-negative RDP at order one under
 subsampling

At order one (accepted by the accountant) the subsampled Gaussian formulas
divided zero by zero, giving nan or minus infinity; the latter was reported
as an epsilon of zero.
---
 .../dp_accounting/rdp/rdp_privacy_accountant.py           | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index f01d287..259c854 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -398,6 +398,10 @@ def _compute_rdp_poisson_subsampled_gaussian(
     if q == 1.0:
       return alpha / (2 * noise_multiplier**2)
 
+    if alpha == 1:
+      # KL divergence is convex, so it is at most q times the unsampled one.
+      return q / (2 * noise_multiplier**2)
+
     return _compute_log_a(q, noise_multiplier, alpha) / (alpha - 1)
 
   return np.array([compute_one_order(q, order) for order in orders])
@@ -458,6 +462,10 @@ def _compute_rdp_sample_wor_gaussian_scalar(
   if q == 1.0:
     return alpha / (2 * sigma**2)
 
+  if alpha == 1:
+    # KL divergence is convex, so it is at most q times the unsampled one.
+    return q / (2 * sigma**2)
+
   if float(alpha).is_integer():
     return _compute_rdp_sample_wor_gaussian_int(q, sigma, int(alpha)) / (
         alpha - 1
-- 
2.43.0


From 125db94336e086878f8e100e30d99fea7e98d8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:41 +0000
Subject: [PATCH 13/29] fix: repeat-and-select of a mechanism without privacy
 at order one

An infinite base divergence at order one was multiplied by zero, making the
divergence nan at every order, reported as an epsilon of zero.
---
 .../dp_accounting/rdp/rdp_privacy_accountant.py           | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 259c854..522c1a9 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -821,8 +821,12 @@ def _compute_rdp_repeat_and_select(
     # Theorem 2 of https://arxiv.org/pdf/2110.03620v2.pdf#page=5
     # orders[i] = lambda, rdp[i] = epsilon,
     # orders[j] = lambdahat, rdp[j] = epsilonhat
-    # First compute constant term
-    c = (1 + shape) * np.min((1 - 1 / orders) * rdp - math.log(gamma) / orders)
+    # First compute constant term. An infinite rdp[j] gives no bound, even at
+    # order 1, where the factor 1 - 1 / orders[j] is zero.
+    finite = np.isfinite(rdp)
+    bounds = (1 - 1 / orders[finite]) * np.asarray(rdp)[finite]
+    bounds = bounds - math.log(gamma) / orders[finite]
+    c = (1 + shape) * np.min(bounds, initial=np.inf)
     for i in range(len(orders)):
       if orders[i] > 1:  # Otherwise our formula is invalid.
         rdp_out[i] = rdp[i] + math.log(mean) / (orders[i] - 1) + c
-- 
2.43.0


From bdffefc928d23be0b04d67eeabb87d3ecf73a6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 14/29] fix: keep string fields intact in DpEvent named-tuple
 conversion

A str is a Sequence, so str(list of its characters) was stored instead.
---
 python/dp_accounting/dp_accounting/dp_event.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/dp_event.py b/python/dp_accounting/dp_accounting/dp_event.py
index 3d490bd..c95d481 100644
--- a/python/dp_accounting/dp_accounting/dp_event.py
+++ b/python/dp_accounting/dp_accounting/dp_event.py
@@ -119,7 +119,7 @@ class DpEvent(object):
         elements = [(k, _to_named_tuple(v)) for k, v in value.items()]
         mapping_type = type(value)
         value = mapping_type(elements)
-      elif isinstance(value, Sequence):
+      elif isinstance(value, Sequence) and not isinstance(value, (str, bytes)):
         elements = [_to_named_tuple(x) for x in value]
         sequence_type = type(value)
         value = sequence_type(elements)
@@ -161,7 +161,7 @@ class DpEvent(object):
         elements = [(k, _from_named_tuple(v)) for k, v in value.items()]
         mapping_type = type(value)
         value = mapping_type(elements)
-      elif isinstance(value, Sequence):
+      elif isinstance(value, Sequence) and not isinstance(value, (str, bytes)):
         elements = [_from_named_tuple(x) for x in value]
         sequence_type = type(value)
         value = sequence_type(elements)
-- 
2.43.0


From 513fa68b0a6cf6756fac82ccc88832aee1c076d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 15/29] fix: refuse self-compositions with a negative count in
 DpEventBuilder

Two nested negative counts multiplied to a positive one and were recorded.
---
 python/dp_accounting/dp_accounting/dp_event_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/dp_event_builder.py b/python/dp_accounting/dp_accounting/dp_event_builder.py
index 284bc4d..8eb3810 100644
--- a/python/dp_accounting/dp_accounting/dp_event_builder.py
+++ b/python/dp_accounting/dp_accounting/dp_event_builder.py
@@ -48,6 +48,8 @@ class DpEventBuilder(object):
     if isinstance(event, dp_event.NoOpDpEvent):
       return
     elif isinstance(event, dp_event.SelfComposedDpEvent):
+      if event.count < 1:
+        raise ValueError(f'`count` must be positive. Found {event.count}.')
       self.compose(event.event, count * event.count)
     else:
       if self._event_counts and self._event_counts[-1][0] == event:
-- 
2.43.0


From a7201b722954d6ed3caa09c9303cd7f38cb6ffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:13 +0000
Subject: [PATCH 16/29] fix: accept uniformly random randomized response in
 PLDAccountant

A noise parameter of one is documented as valid and reported as supported,
but composing it raised after the event had entered the ledger.
---
 .../dp_accounting/pld/pld_privacy_accountant.py              | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index 48c36fe..fb7589b 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -71,8 +71,9 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
         return CompositionErrorDetails(
             invalid_event=event, error_message=error_msg)
       if do_compose:
-        if event.num_buckets == 1:
-          # This is a NoOp event, even when noise_parameter is zero.
+        if event.num_buckets == 1 or event.noise_parameter == 1:
+          # This is a NoOp event: the output does not depend on the input, even
+          # when there is a single bucket and noise_parameter is zero.
           pass
         elif event.noise_parameter == 0:
           self._contains_non_dp_event = True
-- 
2.43.0


From 82eb6ae725d0fcc44e0076bd7102419018d78f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:13 +0000
Subject: [PATCH 17/29] fix: unlimited noise costs nothing in PLDAccountant

An infinite noise multiplier raised for Gaussian events after they had entered
the ledger, and made epsilon nan for Laplace events.
---
 .../dp_accounting/pld/pld_privacy_accountant.py           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index fb7589b..bf88047 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -90,7 +90,7 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
       if do_compose:
         if event.noise_multiplier == 0:
           self._contains_non_dp_event = True
-        else:
+        elif event.noise_multiplier != math.inf:
           gaussian_pld = PLD.from_gaussian_mechanism(
               standard_deviation=event.noise_multiplier / math.sqrt(count),
               value_discretization_interval=self._value_discretization_interval)
@@ -100,7 +100,7 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
       if do_compose:
         if event.noise_multiplier == 0:
           self._contains_non_dp_event = True
-        else:
+        elif event.noise_multiplier != math.inf:
           laplace_pld = PLD.from_laplace_mechanism(
               parameter=event.noise_multiplier,
               value_discretization_interval=self._value_discretization_interval
@@ -138,7 +138,7 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
             pass
           elif event.event.noise_multiplier == 0:
             self._contains_non_dp_event = True
-          else:
+          elif event.event.noise_multiplier != math.inf:
             subsampled_gaussian_pld = PLD.from_gaussian_mechanism(
                 standard_deviation=event.event.noise_multiplier,
                 value_discretization_interval=self
@@ -152,7 +152,7 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
             pass
           elif event.event.noise_multiplier == 0:
             self._contains_non_dp_event = True
-          else:
+          elif event.event.noise_multiplier != math.inf:
             subsampled_laplace_pld = PLD.from_laplace_mechanism(
                 parameter=event.event.noise_multiplier,
                 value_discretization_interval=self
-- 
2.43.0


From e5eb680b859df06734740a8678f9b5faae56c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:35 +0000
Subject: [PATCH 18/29] fix: keep optimistic dense self-composition optimistic
 under tail truncation

The truncated tail mass was moved to infinite loss, and mass outside the
truncation bounds wrapped around to larger losses, for optimistic estimates
too, so their delta could exceed the true one.
---
 .../dp_accounting/dp_accounting/pld/pld_pmf.py   | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 9953691..c9e020c 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -364,10 +364,18 @@ class DensePLDPmf(PLDPmf):
     lower_loss += truncation_lower_bound
     probs = np.array(probs)
     # infinity mass after composition is given as
-    # tail_mass_truncation + 1 - (1 - infinity_mass)**num_times
-    # Below we use a numerically stable approach to compute the second term.
-    inf_prob = (tail_mass_truncation
-                - math.expm1(num_times * math.log1p(- self._infinity_mass)))
+    # 1 - (1 - infinity_mass)**num_times, which is computed below in a
+    # numerically stable way. The mass outside of the truncation bounds (at most
+    # tail_mass_truncation) is added to it for a pessimistic estimate.
+    inf_prob = -math.expm1(num_times * math.log1p(- self._infinity_mass))
+    if self._pessimistic_estimate:
+      inf_prob += tail_mass_truncation
+    elif tail_mass_truncation > 0:
+      # That mass may have been wrapped around to larger losses. For an
+      # optimistic estimate the same mass is discarded from the largest losses.
+      mass_above = np.cumsum(probs[::-1])[::-1] - probs
+      probs = probs - np.clip(tail_mass_truncation - mass_above, 0,
+                              np.maximum(probs, 0))
     return DensePLDPmf(self._discretization, lower_loss, probs,
                        inf_prob, self._pessimistic_estimate)
 
-- 
2.43.0


From e43f184ec7661cbf9b7df9e75cc44aacfd21c881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:45 +0000
Subject: [PATCH 19/29] fix: calibration stays inside the bracket interval,
 also with swapped endpoints

When Brent's method returned a point just over the target, root +/- tol was
tried, and could be returned, even when it lay outside the bracket interval
(e.g. a sampling probability above 1). With endpoint_1 > endpoint_2 the bisection
fallback stopped at once and returned an endpoint.
---
 .../dp_accounting/mechanism_calibration.py    | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index 773f7ba..ab39b00 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -247,6 +247,9 @@ def calibrate_dp_mechanism(
     raise TypeError(f'Unrecognized bracket_interval type: '
                     f'{type(bracket_interval)}')
 
+  lower = min(bracket_interval.endpoint_1, bracket_interval.endpoint_2)
+  upper = max(bracket_interval.endpoint_1, bracket_interval.endpoint_2)
+
   try:
     root, result = optimize.brentq(
         epsilon_gap,
@@ -266,23 +269,21 @@ def calibrate_dp_mechanism(
     # parameter gives no less privacy than was requested. Since epsilon_gap can
     # be expensive to compute, we first try values near the returned root.
     # Considering brentq's contract that there exists a root within tol of the
-    # returned value, in most cases adding +/- tol will suffice.
+    # returned value, in most cases adding +/- tol will suffice. Never leave the
+    # bracket interval: the event may be undefined there.
     if epsilon_gap(root) > 0:
-      if epsilon_gap(root + tol) < 0:
-        root += tol
-      elif epsilon_gap(root - tol) < 0:
-        root -= tol
+      above = min(root + tol, float(upper))
+      below = max(root - tol, float(lower))
+      if epsilon_gap(above) < 0:
+        root = above
+      elif epsilon_gap(below) < 0:
+        root = below
       else:
         root = None
 
   if root is None:
     # Fallback to custom bisection that guarantees root with non-positive value.
-    root = _bisect(
-        epsilon_gap,
-        bracket_interval.endpoint_1,
-        bracket_interval.endpoint_2,
-        tol,
-    )
+    root = _bisect(epsilon_gap, lower, upper, tol)
 
   if discrete:
     root = round(root)
-- 
2.43.0


From fb281ba3eaf29af7d206ac9cd7831f4889e94bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:31 +0000
Subject: [PATCH 20/29] fix: search all of the range that can contain a
 mixture's inverse loss

The inverse was searched between the inverses for the smallest and the largest
sensitivity alone. With three or more sensitivities the inverse can lie outside
that range, and the reported delta was then too small.
---
 .../pld/privacy_loss_mechanism.py             | 29 ++++++++-----------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index d67a420..a31e518 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -1947,9 +1947,8 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
     self._log_sampling_probs = np.log(self.sampling_probs)
     self._pos_sampling_probs = self.sampling_probs[self.sensitivities > 0.0]
     self._sampling_prob = np.clip(self._pos_sampling_probs.sum(), 0, 1)
-    nonzero_sens = self.sensitivities[self.sensitivities > 0.0]
-    self._min_sens = np.min(nonzero_sens)
-    self._max_sens = np.max(nonzero_sens)
+    self._pos_sensitivities = self.sensitivities[self.sensitivities > 0.0]
+    self._max_sens = np.max(self._pos_sensitivities)
     self._gaussian_random_variable = stats.norm(scale=standard_deviation)
 
   def mu_upper_cdf(
@@ -2303,26 +2302,22 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
 
     # Now, we need to determine a suitable range to binary search over. To do
     # this, we consider the subsampled Gaussian mechanisms given by moving
-    # all the probability mass on non-zero sensitivities to either the
-    # smallest or largest sensitivity. We can show the privacy loss of the
-    # mixture is contained between these two mechanisms' privacy losses, and
-    # the subsampled Gaussian privacy loss is easy to invert. Then, we can
-    # compute the inverse privacy loss at min_pl and max_pl to get four
-    # candidate bounds, and take the min/max of these bounds.
-    loss_bounds = np.array([min_pl, min_pl, max_pl, max_pl])
-    sens_bounds = np.array([
-        self._min_sens,
-        self._max_sens,
-        self._min_sens,
-        self._max_sens,
-    ])
+    # all the probability mass on non-zero sensitivities to one of them. At any
+    # point, the privacy loss of the mixture is an average (on the scale of
+    # likelihood ratios) of the privacy losses of these mechanisms, so it lies
+    # between the smallest and the largest of them. Note that these need not be
+    # attained at the smallest or largest sensitivity. The subsampled Gaussian
+    # privacy loss is easy to invert, so we compute the inverse privacy loss at
+    # min_pl and max_pl for each sensitivity, and take the min/max of these.
+    loss_bounds = np.array([min_pl, max_pl])
     if self.adjacency_type == AdjacencyType.ADD:
       pl_without_sampling = _pl_without_sampling_add
     else:  # Case: self.adjacency_type == AdjacencyType.REMOVE
       pl_without_sampling = _pl_without_sampling_remove
 
     possible_bounds = self.inverse_privacy_loss_for_single_gaussian(
-        pl_without_sampling(loss_bounds, self._sampling_prob), sens_bounds
+        pl_without_sampling(loss_bounds, self._sampling_prob)[:, np.newaxis],
+        self._pos_sensitivities[np.newaxis, :],
     )
     bounds = (
         np.floor(np.min(possible_bounds) / precision) * precision,
-- 
2.43.0


From 72224132487422398722c6aa90c4eea0adeb8837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:31 +0000
Subject: [PATCH 21/29] fix: only treat mixture losses within 1e-9 of the
 extreme one as extreme

Losses within a relative 1e-5 of the largest (ADD) or smallest (REMOVE) loss
were given an infinite inverse, so that delta could be understated by up to
1e-5, and an input in which all losses were that close raised a ValueError.
---
 .../pld/privacy_loss_mechanism.py             | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index a31e518..4cf0de5 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -2289,16 +2289,24 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
             f'max of privacy_losses ({max_pl}) is larger than '
             f'-log(1 - sampling_prob)={-log_1m_prob}.'
         )
-      finite_indices = np.logical_not(np.isclose(privacy_losses, -log_1m_prob))
-      max_pl = np.max(privacy_losses[finite_indices])
+      finite_indices = np.logical_not(
+          np.isclose(privacy_losses, -log_1m_prob, rtol=1e-9, atol=1e-12)
+      )
+      output = np.full(np.shape(privacy_losses), -np.inf)
     else:  # Case: self.adjacency_type == AdjacencyType.REMOVE
       if min_pl <= log_1m_prob:
         raise ValueError(
             f'min of privacy_losses ({min_pl}) is smaller than '
             f'log(1 - sampling_prob)={log_1m_prob}'
         )
-      finite_indices = np.logical_not(np.isclose(privacy_losses, log_1m_prob))
-      min_pl = np.min(privacy_losses[finite_indices])
+      finite_indices = np.logical_not(
+          np.isclose(privacy_losses, log_1m_prob, rtol=1e-9, atol=1e-12)
+      )
+      output = np.full(np.shape(privacy_losses), np.inf)
+    if not finite_indices.any():
+      return output
+    min_pl = np.min(privacy_losses[finite_indices])
+    max_pl = np.max(privacy_losses[finite_indices])
 
     # Now, we need to determine a suitable range to binary search over. To do
     # this, we consider the subsampled Gaussian mechanisms given by moving
@@ -2323,14 +2331,6 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
         np.floor(np.min(possible_bounds) / precision) * precision,
         np.ceil(np.max(possible_bounds) / precision) * precision,
     )
-    if self.adjacency_type == AdjacencyType.ADD:
-      output = self.privacy_loss_for_single_gaussian(
-          np.full_like(privacy_losses, np.inf)
-      )
-    else:
-      output = self.privacy_loss_for_single_gaussian(
-          np.full_like(privacy_losses, -np.inf)
-      )
     output[finite_indices] = self._inverse_privacy_losses_with_range(
         privacy_losses[finite_indices], bounds, precision
     )
-- 
2.43.0


From e5b1df91c30e833c586171cf32c9c30c0ce37c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:38 +0000
Subject: [PATCH 22/29] fix: truncate single-sensitivity Gaussian mixtures
 despite rounding errors

The search for the lower truncation found nothing, and the mechanism raised a
TypeError, when rounding put the mass at the end of the search interval just
above the tail mass.
---
 .../dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index 4cf0de5..8d0a897 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -2099,6 +2099,10 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
           ),
           increasing=True,
       )
+      if lower_x_truncation is None:
+        # Up to rounding errors the tail mass is reached exactly at the lower
+        # end of the search interval (e.g. if there is a single sensitivity).
+        lower_x_truncation = z_value - self._max_sens
     if self._pessimistic_estimate:
       tail_probability_mass_function = {
           math.inf: self.mu_upper_cdf(lower_x_truncation),
-- 
2.43.0


From 096a14708f7b19be6e1983694f6d6069e263381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:43 +0000
Subject: [PATCH 23/29] fix: splitting an empty sample into training and test
 halves is refused like a single one

---
 .../dp_auditorium/testers/property_tester_utils.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py b/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py
index dbe283f..069d909 100644
--- a/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py
+++ b/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py
@@ -40,7 +40,7 @@ def split_train_test_samples(
     ValueError if samples has less than 2 elements.
   """
   n = samples.shape[0]
-  if n == 1:
+  if n < 2:
     raise ValueError(
         'Must have at least 2 elements in sample to generate '
         'training and test samples'
-- 
2.43.0


From b63b1ab1c7147d7711f89f97f2a9bf9f77272e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 24/29] fix: report a divergence estimate of zero to Vizier

---
 .../dp_auditorium/generators/vizier_dataset_generator.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py b/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
index 574a90f..ca0e277 100644
--- a/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
+++ b/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
@@ -219,7 +219,7 @@ class VizierDatasetGenerator(interfaces.DatasetGenerator):
     Returns:
       Array with Vizier suggestions for new neighboring datasets.
     """
-    if last_trial_result:
+    if last_trial_result is not None:
       self._complete_trial(last_trial_result)
 
     self._load_trial()
-- 
2.43.0


From 8ccac9ed56b75480b49f9d69878956fd72b9438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:40 +0000
Subject: [PATCH 25/29] fix: as many class labels as configured in
 classification datasets

---
 .../generators/classification_dataset_generator.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_auditorium/dp_auditorium/generators/classification_dataset_generator.py b/python/dp_auditorium/dp_auditorium/generators/classification_dataset_generator.py
index 5036617..2f8e5cd 100644
--- a/python/dp_auditorium/dp_auditorium/generators/classification_dataset_generator.py
+++ b/python/dp_auditorium/dp_auditorium/generators/classification_dataset_generator.py
@@ -79,7 +79,7 @@ def _initialize_vizier_problem_and_params_lookup_table(
     problem.search_space.root.add_int_param(
         idx_to_str[i],
         min_value=0,
-        max_value=num_classes,
+        max_value=num_classes - 1,
     )
   return problem, str_to_idx
 
-- 
2.43.0


From a21dae1c997c3aebf988c8ce22b5cfdc8d49b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:56 +0000
Subject: [PATCH 26/29] fix: refuse sensitivities whose product overflows in
 the Go Laplace mechanism

---
 go/noise/laplace_noise.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/noise/laplace_noise.go b/go/noise/laplace_noise.go
index 1bc33fe..ef973b2 100644
--- a/go/noise/laplace_noise.go
+++ b/go/noise/laplace_noise.go
@@ -17,6 +17,7 @@
 package noise
 
 import (
+	"fmt"
 	"math"
 
 	"github.com/google/differential-privacy/go/v3/checks"
@@ -71,7 +72,11 @@ func (laplace) AddNoiseInt64(x, l0Sensitivity, lInfSensitivity int64, epsilon, d
 	if err := checkArgsLaplace(l0Sensitivity, float64(lInfSensitivity), epsilon, delta); err != nil {
 		return 0, err
 	}
-	return addLaplaceInt64(x, epsilon, lInfSensitivity*l0Sensitivity /* l1Sensitivity */), nil
+	l1Sensitivity := lInfSensitivity * l0Sensitivity
+	if l1Sensitivity/l0Sensitivity != lInfSensitivity {
+		return 0, fmt.Errorf("L0Sensitivity (%d) and LInfSensitivity (%d) are too high - the L1 sensitivity overflows", l0Sensitivity, lInfSensitivity)
+	}
+	return addLaplaceInt64(x, epsilon, l1Sensitivity), nil
 }
 
 // Threshold returns the smallest threshold k to use in a differentially private
-- 
2.43.0


From 96030ae719503e66d9157d0defe356f9f1f317a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:33 +0000
Subject: [PATCH 27/29] fix: Go BoundedQuantiles counts values next to the
 upper bound in the last leaf

When the bounds differ by much in magnitude, value-lower and upper-lower may
round to the same number for a value below upper. The value was then counted
beyond the last leaf, whose parent in the heap layout is the leftmost leaf, so
it was taken for one of the smallest values.
---
 go/dpagg/quantiles.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/dpagg/quantiles.go b/go/dpagg/quantiles.go
index ed84df8..1b68053 100644
--- a/go/dpagg/quantiles.go
+++ b/go/dpagg/quantiles.go
@@ -288,7 +288,9 @@ func (bq *BoundedQuantiles) Result(rank float64) (float64, error) {
 // the leaf nodes partition the range betwen lower and upper into intervals of equal size.
 func (bq *BoundedQuantiles) getIndex(value float64) int {
 	indexFromLeftmostLeaf := int((value - bq.lower) / (bq.upper - bq.lower) * float64(bq.numLeaves))
-	if value == bq.upper {
+	// The quotient is 1 for the upper bound, and, since the differences are rounded, possibly also
+	// for values slightly below it.
+	if indexFromLeftmostLeaf >= bq.numLeaves {
 		indexFromLeftmostLeaf = bq.numLeaves - 1
 	}
 	return bq.leftmostLeafIndex + indexFromLeftmostLeaf
-- 
2.43.0


From 0c608b752cf2ba24efcd3c8806ef913d06105383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:05 +0000
Subject: [PATCH 28/29] fix: Go rand source never returns a negative 63-bit
 number

---
 go/rand/rand.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/go/rand/rand.go b/go/rand/rand.go
index 68871fa..b0668f9 100644
--- a/go/rand/rand.go
+++ b/go/rand/rand.go
@@ -146,11 +146,9 @@ func (rs randSource) Int63() int64 {
 	if _, err := readRandBuf(r[:]); err != nil {
 		log.Fatalf("out of randomness, should never happen: %v", err)
 	}
-	i := int64(binary.LittleEndian.Uint64(r[:]))
-	if i < 0 {
-		return -i
-	}
-	return i
+	// Set the sign bit to 0. Negating a negative number is not an option because the smallest int64
+	// has no positive counterpart.
+	return int64(binary.LittleEndian.Uint64(r[:])) & math.MaxInt64
 }
 
 // Seed is a no-op.
-- 
2.43.0


From 2fdb084fdfca83274c431d0d879c4c048295decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:01 +0000
Subject: [PATCH 29/29] fix: Go GetHardThreshold counts the privacy units below
 the pre-threshold

---
 go/dpagg/select_partition.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/dpagg/select_partition.go b/go/dpagg/select_partition.go
index 4b67612..c681684 100644
--- a/go/dpagg/select_partition.go
+++ b/go/dpagg/select_partition.go
@@ -384,7 +384,8 @@ func (s *PreAggSelectPartition) GetHardThreshold() (int, error) {
 			return 0, err
 		}
 		if prob >= 1 { // keepPartitionProbability converges to 1.
-			return int(i), nil
+			// Only the privacy units above the pre-threshold count towards the probability.
+			return int(i + s.preThreshold - 1), nil
 		}
 	}
 }
-- 
2.43.0

