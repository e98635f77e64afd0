From fe70c01cbdd91db0bdb8127385fdab2237acb111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 01/66] fix: widen the inverse search range of
 MixtureGaussianPrivacyLoss

The privacy loss of a Gaussian at a fixed outcome is not monotone in the
sensitivity, so the loss of the mixture need not lie between the losses of its
smallest and largest sensitivities. The binary search then missed the inverse
and pessimistic distributions under-reported delta.
---
 .../dp_accounting/pld/privacy_loss_mechanism.py       | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index d67a420..1533cd1 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -2328,6 +2328,17 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
         np.floor(np.min(possible_bounds) / precision) * precision,
         np.ceil(np.max(possible_bounds) / precision) * precision,
     )
+    # The privacy loss at a fixed x is not monotone in the sensitivity, so the
+    # inverses can lie outside of these bounds (by more than rounding), in which
+    # case we widen them.
+    step = max(bounds[1] - bounds[0], self._standard_deviation)
+    while self.privacy_loss(bounds[0] - precision) < max_pl:
+      bounds = (bounds[0] - step, bounds[1])
+      step *= 2
+    step = max(bounds[1] - bounds[0], self._standard_deviation)
+    while self.privacy_loss(bounds[1] + precision) > min_pl:
+      bounds = (bounds[0], bounds[1] + step)
+      step *= 2
     if self.adjacency_type == AdjacencyType.ADD:
       output = self.privacy_loss_for_single_gaussian(
           np.full_like(privacy_losses, np.inf)
-- 
2.43.0


From 614ee13e964ea814433bfc1e29e55242ebf6f709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 02/66] fix: MixtureGaussianPrivacyLoss at its extreme privacy
 loss

Inverting only privacy losses equal to the loss at infinity took the maximum of
an empty array and raised.
---
 .../dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index 1533cd1..00facad 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -2291,6 +2291,8 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
             f'-log(1 - sampling_prob)={-log_1m_prob}.'
         )
       finite_indices = np.logical_not(np.isclose(privacy_losses, -log_1m_prob))
+      if not finite_indices.any():
+        return np.full_like(privacy_losses, -np.inf)
       max_pl = np.max(privacy_losses[finite_indices])
     else:  # Case: self.adjacency_type == AdjacencyType.REMOVE
       if min_pl <= log_1m_prob:
@@ -2299,6 +2301,8 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
             f'log(1 - sampling_prob)={log_1m_prob}'
         )
       finite_indices = np.logical_not(np.isclose(privacy_losses, log_1m_prob))
+      if not finite_indices.any():
+        return np.full_like(privacy_losses, np.inf)
       min_pl = np.min(privacy_losses[finite_indices])
 
     # Now, we need to determine a suitable range to binary search over. To do
-- 
2.43.0


From 1ba503bd164b269b1602b830688add1e4fa971d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 03/66] fix: count repeated randomized response in
 PLDAccountant

The count (and the count of an enclosing SelfComposedDpEvent) was ignored, so
any number of repetitions was accounted for as a single one.
---
 .../dp_accounting/dp_accounting/pld/pld_privacy_accountant.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index 5fafb0b..6a989c4 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -76,7 +76,7 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
               num_buckets=event.num_buckets,
               value_discretization_interval=self._value_discretization_interval,
               neighboring_relation=self._neighboring_relation,
-          )
+          ).self_compose(count)
           self._pld = self._pld.compose(rr_pld)
       return None
     elif isinstance(event, dp_event.GaussianDpEvent):
-- 
2.43.0


From c65f8115292a4f05f50272fc67a63f4630d96e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 04/66] fix: leave accountants unchanged when composing an
 invalid event raises

The event was put on the ledger, and its valid parts composed, before its
parameters were found to be invalid. RdpAccountant also lost all previously
composed events when this happened inside a RepeatAndSelectDpEvent.
---
 .../dp_accounting/dp_accounting/privacy_accountant.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/privacy_accountant.py b/python/dp_accounting/dp_accounting/privacy_accountant.py
index 2ea9d92..abefe1c 100644
--- a/python/dp_accounting/dp_accounting/privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/privacy_accountant.py
@@ -14,6 +14,7 @@
 """PrivacyAccountant abstract base class."""
 
 import abc
+import copy
 import enum
 from typing import Any, Optional
 
@@ -125,8 +126,16 @@ class PrivacyAccountant(metaclass=abc.ABCMeta):
           f'Unsupported event: {event}. Error: '
           f'[{composition_error.error_message}] caused by subevent '
           f'{composition_error.invalid_event}.')
+    # Rejects invalid counts before anything changes.
+    dp_event_builder.DpEventBuilder().compose(event, count)
+    saved_state = {k: copy.copy(v) for k, v in vars(self).items()}
+    try:
+      self._maybe_compose(event, count, True)
+    except Exception:
+      # An event with invalid parameters must not be composed partially.
+      vars(self).update(saved_state)
+      raise
     self._ledger.compose(event, count)
-    self._maybe_compose(event, count, True)
     return self
 
   @property
-- 
2.43.0


From 4fae3923fd3f04ba373d41d30c3508f3dba9ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 05/66] fix: account for all sampled Gaussians when a noise
 multiplier is an integer

A noise multiplier that is not a float was taken for an offending event, so the
remaining events of the composition and the count were dropped and RdpAccountant
under-reported the privacy loss.
---
 .../dp_accounting/rdp/rdp_privacy_accountant.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index ec00763..f233317 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -568,13 +568,13 @@ def _effective_gaussian_noise_multiplier(
     sum_sigma_inv_sq = 0
     for e in event.events:
       sigma = _effective_gaussian_noise_multiplier(e)
-      if not isinstance(sigma, float):
+      if isinstance(sigma, dp_event.DpEvent):
         return sigma
-      sum_sigma_inv_sq += sigma**-2
+      sum_sigma_inv_sq += float(sigma) ** -2
     return sum_sigma_inv_sq**-0.5
   elif isinstance(event, dp_event.SelfComposedDpEvent):
     sigma = _effective_gaussian_noise_multiplier(event.event)
-    if not isinstance(sigma, float):
+    if isinstance(sigma, dp_event.DpEvent):
       return sigma
     return sigma * event.count**-0.5
   else:
-- 
2.43.0


From d8b41f24195e8602793ca7ed91f28175432a3b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 06/66] fix: handle events without noise and without sub-events
 in RdpAccountant

A Laplace or sampled event without noise raised ZeroDivisionError instead of
making the privacy loss infinite, and so did sampling an empty composition, which
has no privacy loss.
---
 .../dp_accounting/rdp/rdp_privacy_accountant.py   | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index f233317..46895f0 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -383,7 +383,7 @@ def _compute_rdp_poisson_subsampled_gaussian(
     )
 
   def compute_one_order(q, alpha):
-    if q == 0:
+    if q == 0 or np.isinf(noise_multiplier):
       return 0
 
     if np.isinf(alpha) or noise_multiplier == 0:
@@ -443,9 +443,12 @@ def _compute_rdp_sample_wor_gaussian_scalar(
 
   assert (q <= 1) and (q >= 0) and (alpha >= 1)
 
-  if q == 0:
+  if q == 0 or np.isinf(sigma):
     return 0
 
+  if sigma == 0:
+    return np.inf
+
   if q == 1.0:
     return alpha / (2 * sigma**2)
 
@@ -570,8 +573,8 @@ def _effective_gaussian_noise_multiplier(
       sigma = _effective_gaussian_noise_multiplier(e)
       if isinstance(sigma, dp_event.DpEvent):
         return sigma
-      sum_sigma_inv_sq += float(sigma) ** -2
-    return sum_sigma_inv_sq**-0.5
+      sum_sigma_inv_sq += float(sigma) ** -2 if sigma else math.inf
+    return sum_sigma_inv_sq**-0.5 if sum_sigma_inv_sq else math.inf
   elif isinstance(event, dp_event.SelfComposedDpEvent):
     sigma = _effective_gaussian_noise_multiplier(event.event)
     if isinstance(sigma, dp_event.DpEvent):
@@ -1097,7 +1100,9 @@ class RdpAccountant(privacy_accountant.PrivacyAccountant):
         )
       return None
     elif isinstance(event, dp_event.LaplaceDpEvent):
-      if do_compose:
+      if do_compose and event.noise_multiplier == 0:
+        self._rdp += np.inf
+      elif do_compose:
         eps = 1 / event.noise_multiplier
         self._rdp += count * np.array(
             [_laplace_rdp(eps, order) for order in self._orders]
-- 
2.43.0


From a761669d8ec569e8652c4543e3ca9e8f270f445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 07/66] fix: accept events without privacy loss in
 PLDAccountant

Randomized response that always randomizes, and mixtures of Gaussians whose
sensitivity is always zero, are supported events but raised ValueError.
---
 .../dp_accounting/pld/pld_privacy_accountant.py             | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index 6a989c4..134e108 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -65,7 +65,7 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
         return CompositionErrorDetails(
             invalid_event=event, error_message=error_msg)
       if do_compose:
-        if event.num_buckets == 1:
+        if event.num_buckets == 1 or event.noise_parameter == 1:
           # This is a NoOp event, even when noise_parameter is zero.
           pass
         elif event.noise_parameter == 0:
@@ -102,7 +102,9 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
       return None
     elif isinstance(event, dp_event.MixtureOfGaussiansDpEvent):
       if do_compose:
-        if len(event.sensitivities) == 1 and event.sensitivities[0] == 0.0:
+        if not any(
+            s and p for s, p in zip(event.sensitivities, event.sampling_probs)
+        ):
           pass
         elif event.standard_deviation == 0:
           self._contains_non_dp_event = True
-- 
2.43.0


From 19dc6a05035315957f2e6047fe2a78bb9a69844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 08/66] fix: tail of MixtureGaussianPrivacyLoss with a single
 sensitivity

If all sensitivities are equal the lower truncation point is the left endpoint
of the searched range. Because of rounding the search could find no point at all
and constructing the privacy loss distribution raised TypeError.
---
 .../dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index 00facad..a7717bd 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -2100,6 +2100,9 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
           ),
           increasing=True,
       )
+      if lower_x_truncation is None:
+        # The answer is the left endpoint, which was missed because of rounding.
+        lower_x_truncation = z_value - self._max_sens
     if self._pessimistic_estimate:
       tail_probability_mass_function = {
           math.inf: self.mu_upper_cdf(lower_x_truncation),
-- 
2.43.0


From 10d7af75aca5ae04e912a381c029ae4ccdeab196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 09/66] fix: no negative masses when the largest loss is a
 multiple of the interval

If rounding made the multiple exceed the largest privacy loss of the Laplace
mechanism, its inverse was -infinity, a bucket got a negative mass and delta was
under-reported by a large amount.
---
 .../dp_accounting/pld/privacy_loss_distribution.py        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
index b22df0f..0053f19 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
@@ -915,8 +915,12 @@ def _create_pld_pmf_from_monotone_privacy_loss(
           upper_x_privacy_loss):
         x = upper_x
       else:
-        x = monotone_privacy_loss.inverse_privacy_loss(
-            value_discretization_interval * rounded_down_value)
+        # Because of rounding, the inverse could be slightly out of range (or
+        # -infinity), whereas the points must be non-decreasing.
+        x = max(
+            x,
+            monotone_privacy_loss.inverse_privacy_loss(
+                value_discretization_interval * rounded_down_value))
 
       xs.append(x)
       rounded_values.append(round_fn(rounded_down_value + 0.5))
-- 
2.43.0


From cd2d32c16fe8bf33c84dfd97201f2643ff6f4a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 10/66] fix: compose privacy loss distributions whose mass is
 almost all infinite

Truncating the tails of a result with (almost) no finite mass left an empty list
and composition raised IndexError, e.g. for a repeated guarantee with large delta.
---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index e798abd..b8ba7ab 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -173,7 +173,7 @@ def _truncate_tails(probs: ArrayLike, tail_mass_truncation: float,
     Tuple of (size of truncated prefix, truncated array, mass that goes to
     infinity).
   """
-  if tail_mass_truncation == 0:
+  if tail_mass_truncation == 0 or len(probs) == 0:  # pylint: disable=g-explicit-length-test
     return 0, probs, 0
 
   def _find_prefix_to_truncate(arr: np.ndarray, threshold: float) -> int:
@@ -192,6 +192,7 @@ def _truncate_tails(probs: ArrayLike, tail_mass_truncation: float,
   # Be sure that left_idx < right_idx. left_idx >= right_idx might be when
   # tail_mass_truncation is too large or if probs has too small mass
   # (i.e. if a few truncations were operated on it already).
+  left_idx = min(left_idx, len(probs) - 1)
   right_idx = max(right_idx, left_idx + 1)
 
   left_mass = np.sum(probs[:left_idx])
@@ -541,7 +542,8 @@ class SparsePLDPmf(PLDPmf):
 
   def to_dense_pmf(self) -> DensePLDPmf:
     """"Converts to dense PMF."""
-    lower_loss, probs = common.dictionary_to_list(self._loss_probs)
+    lower_loss, probs = common.dictionary_to_list(
+        self._loss_probs or {0: 0.0})
     return DensePLDPmf(self._discretization, lower_loss, np.array(probs),
                        self._infinity_mass, self._pessimistic_estimate)
 
-- 
2.43.0


From 98137db33a89a4834b3a03777260a175bcc1406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 11/66] fix: vectorised deltas at very large and very small
 epsilons

---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index b8ba7ab..f7d296e 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -76,7 +76,8 @@ def _get_delta_for_epsilon_vectorized(infinity_mass: float,
   Returns:
     The list of epsilon-hockey stick divergences for epsilons.
   """
-  are_epsilons_sorted = np.all(np.diff(epsilons) >= 0)
+  epsilons = np.asarray(epsilons)
+  are_epsilons_sorted = np.all(epsilons[1:] >= epsilons[:-1])
   if not are_epsilons_sorted:
     raise ValueError(
         'Epsilons in get_delta_for_epsilon must be sorted in ascending order')
@@ -93,9 +94,11 @@ def _get_delta_for_epsilon_vectorized(infinity_mass: float,
   #
   # Denote sums in the last formula as mu_upper_mass, mu_lower_mass. We can
   # compute them gradually, which makes computation efficiently for multiple
-  # epsilons.
+  # epsilons. To avoid overflows, mu_lower_mass is stored multiplied by
+  # exp(last_loss), where last_loss is the last loss added to it.
   deltas = np.zeros_like(epsilons, dtype=np.float64)
   mu_upper_mass, mu_lower_mass = infinity_mass, 0
+  last_loss = math.inf
   i = len(probs) - 1
   j = len(epsilons) - 1
 
@@ -104,11 +107,14 @@ def _get_delta_for_epsilon_vectorized(infinity_mass: float,
       deltas[j] = infinity_mass
       j -= 1
     elif i < 0 or losses[i] <= epsilons[j]:
-      deltas[j] = mu_upper_mass - np.exp(epsilons[j]) * mu_lower_mass
+      deltas[j] = (
+          mu_upper_mass - np.exp(epsilons[j] - last_loss) * mu_lower_mass)
       j -= 1
     else:
       mu_upper_mass += probs[i]
-      mu_lower_mass += probs[i] * np.exp(-losses[i])
+      mu_lower_mass = (
+          probs[i] + mu_lower_mass * np.exp(losses[i] - last_loss))
+      last_loss = losses[i]
       i -= 1
 
   return deltas
-- 
2.43.0


From d67e142b096ac520e05d91485b233400b55b3c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 12/66] fix: delta of a composition with very large losses

---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index f7d296e..0d8a49b 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -419,7 +419,10 @@ class DensePLDPmf(PLDPmf):
       return delta
 
     i, j = 0, len_other - 1
+    # To avoid overflows, lower_mass is stored multiplied by exp(last_loss),
+    # where last_loss is the last loss of other added to it.
     upper_mass = lower_mass = 0
+    last_loss = math.inf
 
     # This is summation by i,j, such that self_loss(i) + other_loss(j) >=
     # epsilon, and self_loss(i) + other_loss(j-1)< epsilon, as in the
@@ -432,7 +435,9 @@ class DensePLDPmf(PLDPmf):
     # Else if j is too large then decrease it.
     while j >= 0 and self_loss(i) + other_loss(j - 1) >= epsilon:
       upper_mass += other_probs[j]
-      lower_mass += other_probs[j] * np.exp(-other_loss(j))
+      lower_mass = (
+          other_probs[j] + lower_mass * np.exp(other_loss(j) - last_loss))
+      last_loss = other_loss(j)
       j -= 1
 
     # Invariant:
@@ -441,10 +446,13 @@ class DensePLDPmf(PLDPmf):
     for i in range(i, len_self):
       if j >= 0:
         upper_mass += other_probs[j]
-        lower_mass += other_probs[j] * np.exp(-other_loss(j))
+        lower_mass = (
+            other_probs[j] + lower_mass * np.exp(other_loss(j) - last_loss))
+        last_loss = other_loss(j)
       j -= 1
       delta += self_probs[i] * (
-          upper_mass - np.exp(epsilon - self_loss(i)) * lower_mass)
+          upper_mass
+          - np.exp(epsilon - self_loss(i) - last_loss) * lower_mass)
 
     return delta
 
-- 
2.43.0


From 6d1c82e3e043f22fcf436f126748ba336a2c0dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 13/66] fix: self-composition of distributions with only
 infinite losses

---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 0d8a49b..9ff6a62 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -360,6 +360,9 @@ class DensePLDPmf(PLDPmf):
     """See base class."""
     if num_times <= 0:
       raise ValueError(f'num_times should be >= 1, num_times={num_times}')
+    if self._infinity_mass >= 1:
+      # All the mass is infinite, also after the composition.
+      return self
     lower_loss = self._lower_loss * num_times
     truncation_lower_bound, probs = common.self_convolve(
         self._probs, num_times, tail_mass_truncation)
-- 
2.43.0


From c0bd12c04fb0aa44b884673be67ec38cbb53a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 14/66] fix: epsilon of distributions with very negative losses

---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 9ff6a62..fc4a966 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -141,6 +141,9 @@ def _get_epsilon_for_delta(infinity_mass: float,
   mass_upper, mass_lower = infinity_mass, 0
 
   for loss, prob in zip(reversed_losses, probs):
+    if loss <= 0:
+      # Only positive losses contribute to deltas of non-negative epsilons.
+      break
     if (mass_upper > delta and mass_lower > 0 and math.log(
         (mass_upper - delta) / mass_lower) >= loss):
       # Epsilon is greater than or equal to loss.
-- 
2.43.0


From db77b0c3dea10c539234b7c1c39cbf4143ecbd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 15/66] fix: distributions from privacy parameters with very
 large epsilon

---
 .../dp_accounting/pld/privacy_loss_distribution.py             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
index 0053f19..7361ee9 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
@@ -1469,7 +1469,8 @@ def from_privacy_parameters(
       value_discretization_interval)] = (1 - delta) / (1 + math.exp(-epsilon))
   rounded_probability_mass_function[math.ceil(
       -epsilon /
-      value_discretization_interval)] += (1 - delta) / (1 + math.exp(epsilon))
+      value_discretization_interval)] += (
+          (1 - delta) * math.exp(-epsilon) / (1 + math.exp(-epsilon)))
 
   return PrivacyLossDistribution.create_from_rounded_probability(
       rounded_probability_mass_function, privacy_parameters.delta,
-- 
2.43.0


From 96a4912100b9fcbc3d1ecc0bb02a3951544b8be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 16/66] fix: epsilon of distributions with losses above 700

---
 .../dp_accounting/pld/pld_pmf.py              | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index fc4a966..5a60f7a 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -138,28 +138,27 @@ def _get_epsilon_for_delta(infinity_mass: float,
   if infinity_mass > delta:
     return math.inf
 
+  # To avoid underflows, mass_lower is stored multiplied by exp(last_loss), where
+  # last_loss is the last loss added to it.
   mass_upper, mass_lower = infinity_mass, 0
+  last_loss = math.inf
 
   for loss, prob in zip(reversed_losses, probs):
     if loss <= 0:
       # Only positive losses contribute to deltas of non-negative epsilons.
       break
-    if (mass_upper > delta and mass_lower > 0 and math.log(
-        (mass_upper - delta) / mass_lower) >= loss):
+    if (mass_upper > delta and mass_lower > 0 and
+        last_loss + math.log((mass_upper - delta) / mass_lower) >= loss):
       # Epsilon is greater than or equal to loss.
       break
 
     mass_upper += prob
-    mass_lower += math.exp(-loss) * prob
-
-    if mass_upper >= delta and mass_lower == 0:
-      # This only occurs when loss is very large, which results in exp(-loss)
-      # being treated as zero.
-      return max(0, loss)
+    mass_lower = prob + mass_lower * math.exp(loss - last_loss)
+    last_loss = loss
 
-  if mass_upper <= mass_lower + delta:
+  if mass_upper <= mass_lower * math.exp(-last_loss) + delta:
     return 0
-  return math.log((mass_upper - delta) / mass_lower)
+  return last_loss + math.log((mass_upper - delta) / mass_lower)
 
 
 def _truncate_tails(probs: ArrayLike, tail_mass_truncation: float,
-- 
2.43.0


From 8f5d1321e11d5256ca312aa576d2d809841b9dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 17/66] fix: self-convolution of lists without positive mass

---
 python/dp_accounting/dp_accounting/pld/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/common.py b/python/dp_accounting/dp_accounting/pld/common.py
index e468c9a..cbea4bb 100644
--- a/python/dp_accounting/dp_accounting/pld/common.py
+++ b/python/dp_accounting/dp_accounting/pld/common.py
@@ -252,6 +252,9 @@ def compute_self_convolve_bounds(
     # the supplementary material.
     bound = (num_times * log_mgf_value +
              math.log(2 / tail_mass_truncation)) / order
+    if not math.isfinite(bound):
+      # There is no (positive) mass, e.g. when all the mass is infinite.
+      continue
     if order > 0:
       upper_bound = min(upper_bound, math.ceil(bound))
     if order < 0:
-- 
2.43.0


From fc916a7fae590c8adaffb2f2c2b9220441ee9c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 18/66] fix: infinity mass above one after self-composition

---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 5a60f7a..6e4d245 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -375,6 +375,7 @@ class DensePLDPmf(PLDPmf):
     # Below we use a numerically stable approach to compute the second term.
     inf_prob = (tail_mass_truncation
                 - math.expm1(num_times * math.log1p(- self._infinity_mass)))
+    inf_prob = min(1, inf_prob)
     return DensePLDPmf(self._discretization, lower_loss, probs,
                        inf_prob, self._pessimistic_estimate)
 
-- 
2.43.0


From 5bc3868b090b94a72b72a1b9f64c36fded1b1083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 19/66] fix: self-convolution of lists with less mass than the
 truncation bound

---
 python/dp_accounting/dp_accounting/pld/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/common.py b/python/dp_accounting/dp_accounting/pld/common.py
index cbea4bb..4aea67a 100644
--- a/python/dp_accounting/dp_accounting/pld/common.py
+++ b/python/dp_accounting/dp_accounting/pld/common.py
@@ -260,6 +260,10 @@ def compute_self_convolve_bounds(
     if order < 0:
       lower_bound = max(lower_bound, math.floor(bound))
 
+  if lower_bound > upper_bound:
+    # The total mass is at most tail_mass_truncation.
+    lower_bound = upper_bound = (len(input_list) - 1) * num_times
+
   return lower_bound, upper_bound
 
 
-- 
2.43.0


From c4fc92954d5df67e4d6f61d37fcac27cde33fd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 20/66] fix: epsilon for tiny masses at the largest losses

---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 6e4d245..59b154a 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -156,9 +156,9 @@ def _get_epsilon_for_delta(infinity_mass: float,
     mass_lower = prob + mass_lower * math.exp(loss - last_loss)
     last_loss = loss
 
-  if mass_upper <= mass_lower * math.exp(-last_loss) + delta:
+  if mass_upper <= delta:
     return 0
-  return last_loss + math.log((mass_upper - delta) / mass_lower)
+  return max(0, last_loss + math.log((mass_upper - delta) / mass_lower))
 
 
 def _truncate_tails(probs: ArrayLike, tail_mass_truncation: float,
-- 
2.43.0


From 7c1035e2d415440ec7b85cb720a01ede868ddb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 21/66] fix: default truncation of discrete Gaussian noise for
 large sensitivities

---
 .../dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index a7717bd..bf57cd0 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -1543,7 +1543,9 @@ class DiscreteGaussianPrivacyLoss(AdditiveNoisePrivacyLoss):
     if truncation_bound is None:
       # Tail bound from Canonne et al. ensures that the mass that gets truncated
       # is at most 1e-30. (See Proposition 1 in the supplementary material.)
-      self._truncation_bound = math.ceil(11.6 * sigma)
+      # It is at least half of the sensitivity so that the supports overlap.
+      self._truncation_bound = max(
+          math.ceil(11.6 * sigma), math.ceil(0.5 * sensitivity))
     else:
       self._truncation_bound = truncation_bound
 
-- 
2.43.0


From d7f42ac48349d716ab47e27f6fa10588ed9f5455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 22/66] fix: delta of Renyi curves with tiny positive values

---
 .../dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index 46895f0..cfd6efd 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -201,7 +201,7 @@ def compute_delta(
     elif r == 0:
       logdelta = -np.inf
     else:
-      logdelta = 0.5 * math.log1p(-math.exp(-r))
+      logdelta = 0.5 * math.log(-math.expm1(-r))
     if a > 1.01:
       # This bound is not numerically stable as alpha->1.
       # Thus we have a min value for alpha.
-- 
2.43.0


From 43c7ccb8bba0e316253d564ae6f0e2655cffd39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 23/66] fix: rounding errors in the deltas of mechanisms with
 little noise

---
 .../dp_accounting/pld/privacy_loss_distribution.py            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
index 7361ee9..2e366c4 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
@@ -848,6 +848,8 @@ def _create_pld_pmf_from_monotone_privacy_loss(
 
         deltas = monotone_privacy_loss.get_delta_for_epsilon(
             rounded_epsilons * value_discretization_interval)
+        # Deltas must not increase, not even by rounding errors.
+        deltas = np.maximum.accumulate(deltas[::-1])[::-1]
 
         return pld_pmf.create_pmf_pessimistic_connect_dots(
             value_discretization_interval,
@@ -868,6 +870,8 @@ def _create_pld_pmf_from_monotone_privacy_loss(
 
         deltas = monotone_privacy_loss.get_delta_for_epsilon(
             rounded_epsilons * value_discretization_interval)
+        # Deltas must not increase, not even by rounding errors.
+        deltas = np.maximum.accumulate(deltas[::-1])[::-1]
 
         # Use a specialized numerically stable approach for continuous noise
         return pld_pmf.create_pmf_pessimistic_connect_dots_fixed_gap(
-- 
2.43.0


From 5e688eaf3c8eafd53e5616276a64c03fcb1f882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 24/66] fix: endless search when the tolerance is below the
 floating-point resolution

---
 python/dp_accounting/dp_accounting/pld/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/common.py b/python/dp_accounting/dp_accounting/pld/common.py
index 4aea67a..53ea74a 100644
--- a/python/dp_accounting/dp_accounting/pld/common.py
+++ b/python/dp_accounting/dp_accounting/pld/common.py
@@ -111,6 +111,8 @@ def inverse_monotone_function(func: Callable[[float], float],
       mid_x = (upper_x + lower_x) // 2
     else:
       mid_x = (upper_x + lower_x) / 2
+      if mid_x in (lower_x, upper_x):
+        break  # The tolerance is below the floating-point resolution.
 
     if check(func(mid_x), value):
       lower_x = mid_x
-- 
2.43.0


From d857ed125d630ff4d28434d366971153537e332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 25/66] fix: overflow of advanced_composition for many queries

---
 python/dp_accounting/dp_accounting/pld/accountant.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/accountant.py b/python/dp_accounting/dp_accounting/pld/accountant.py
index 59d9b9c..db3ca59 100644
--- a/python/dp_accounting/dp_accounting/pld/accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/accountant.py
@@ -16,7 +16,6 @@
 import math
 from typing import Callable, Optional
 
-from scipy import special
 
 from dp_accounting.pld import common
 from dp_accounting.pld import privacy_loss_distribution
@@ -260,12 +259,16 @@ def advanced_composition(
   k = num_queries
 
   # The calculation follows Theorem 3.3 of https://arxiv.org/pdf/1311.0776.pdf
+  # Everything is computed relative to (1 + exp(epsilon))^k to avoid overflows.
+  log_denominator = k * (epsilon + math.log1p(math.exp(-epsilon)))
   for i in range(k // 2, -1, -1):
     delta_i = 0
     for l in range(i):
-      delta_i += special.binom(k, l) * (
-          math.exp(epsilon * (k - l)) - math.exp(epsilon * (k - 2 * i + l)))
-    delta_i /= ((1 + math.exp(epsilon))**k)
+      log_binom = (math.lgamma(k + 1) - math.lgamma(l + 1) -
+                   math.lgamma(k - l + 1))
+      delta_i -= (
+          math.exp(log_binom + epsilon * (k - l) - log_denominator) *
+          math.expm1(2 * epsilon * (l - i)))
     if 1 - ((1 - delta) ** k) * (1 - delta_i) <= total_delta:
       return epsilon * (k - 2 * i)
   return None
-- 
2.43.0


From c66f41e2ea320be12270c53846aa2601be91b087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 26/66] fix: no epsilon from advanced composition because of a
 rounding error

---
 python/dp_accounting/dp_accounting/pld/accountant.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/accountant.py b/python/dp_accounting/dp_accounting/pld/accountant.py
index db3ca59..37eb8a5 100644
--- a/python/dp_accounting/dp_accounting/pld/accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/accountant.py
@@ -302,8 +302,9 @@ def get_smallest_epsilon_from_advanced_composition(
   if 1 - ((1 - delta) ** num_queries) > total_privacy_parameters.delta:
     return None
 
+  # The lower bound is rounded down since it must satisfy basic composition.
   search_parameters = common.BinarySearchParameters(
-      total_privacy_parameters.epsilon / num_queries,
+      math.nextafter(total_privacy_parameters.epsilon / num_queries, 0),
       total_privacy_parameters.epsilon)
 
   def get_total_epsilon_for_epsilon(epsilon):
-- 
2.43.0


From 0e39eab686c5a6ce177d44f31daf9ab4da7d2f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 27/66] fix: noise of subsampled mechanisms which need none

---
 python/dp_accounting/dp_accounting/pld/accountant.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/accountant.py b/python/dp_accounting/dp_accounting/pld/accountant.py
index 37eb8a5..e14cc91 100644
--- a/python/dp_accounting/dp_accounting/pld/accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/accountant.py
@@ -16,7 +16,6 @@
 import math
 from typing import Callable, Optional
 
-
 from dp_accounting.pld import common
 from dp_accounting.pld import privacy_loss_distribution
 from dp_accounting.pld import privacy_loss_mechanism
@@ -213,6 +212,12 @@ def get_smallest_subsampled_gaussian_noise(
             1e-3, 0.1 * privacy_parameters.epsilon / num_queries),
         sampling_prob=sampling_prob)
 
+  # Even without noise nothing is revealed about a record that is not sampled.
+  if (sampling_prob < 1 and
+      -math.expm1(num_queries * math.log1p(-sampling_prob)) <=
+      privacy_parameters.delta):
+    return 0
+
   upper_bound = get_smallest_gaussian_noise(
       privacy_parameters, num_queries, sensitivity)
   search_parameters = common.BinarySearchParameters(0, upper_bound)
-- 
2.43.0


From bdc2d07862b44645a18714d47a6c6d7bbee538c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 28/66] fix: named-tuple round trip of events with string
 fields

---
 python/dp_accounting/dp_accounting/dp_event.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/dp_event.py b/python/dp_accounting/dp_accounting/dp_event.py
index 3d490bd..39bd8f3 100644
--- a/python/dp_accounting/dp_accounting/dp_event.py
+++ b/python/dp_accounting/dp_accounting/dp_event.py
@@ -119,7 +119,7 @@ class DpEvent(object):
         elements = [(k, _to_named_tuple(v)) for k, v in value.items()]
         mapping_type = type(value)
         value = mapping_type(elements)
-      elif isinstance(value, Sequence):
+      elif isinstance(value, Sequence) and not isinstance(value, str):
         elements = [_to_named_tuple(x) for x in value]
         sequence_type = type(value)
         value = sequence_type(elements)
@@ -161,7 +161,7 @@ class DpEvent(object):
         elements = [(k, _from_named_tuple(v)) for k, v in value.items()]
         mapping_type = type(value)
         value = mapping_type(elements)
-      elif isinstance(value, Sequence):
+      elif isinstance(value, Sequence) and not isinstance(value, str):
         elements = [_from_named_tuple(x) for x in value]
         sequence_type = type(value)
         value = sequence_type(elements)
-- 
2.43.0


From 8102375605c9664878fe73690115f176111308ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 29/66] fix: endless bisection when the tolerance is below the
 floating-point resolution

---
 python/dp_accounting/dp_accounting/mechanism_calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index 773f7ba..305428f 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -139,6 +139,8 @@ def _bisect(
     return lower if lower_value < 0 else upper
 
   middle = (lower + upper) / 2
+  if middle in (lower, upper):  # tol is below the floating-point resolution.
+    return lower if lower_value < 0 else upper
   middle_value = function(middle)
 
   if middle_value == 0:
-- 
2.43.0


From 8dd81b3bacde4c7f8b1b9721ca75c4565317cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 30/66] fix: calibration with small gaps whose product
 underflows

---
 .../dp_accounting/dp_accounting/mechanism_calibration.py  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index 305428f..dfd44f4 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -82,7 +82,9 @@ def _search_for_explicit_bracket_interval(
   gap = upper - lower
   num_tries = 0
 
-  while lower_value * upper_value > 0:
+  # Compares signs: the product of two small gaps may underflow.
+  while (lower_value < 0 and upper_value < 0) or (
+      lower_value > 0 and upper_value > 0):
     num_tries += 1
     if num_tries > 30:
       raise NoBracketIntervalFoundError(
@@ -132,7 +134,7 @@ def _bisect(
   if upper_value == 0:
     return upper
 
-  if lower_value * upper_value > 0:
+  if (lower_value < 0) == (upper_value < 0):
     raise ValueError('Values must have opposite signs.')
 
   if upper - lower <= tol:
@@ -145,7 +147,7 @@ def _bisect(
 
   if middle_value == 0:
     return middle
-  elif lower_value * middle_value < 0:
+  elif (lower_value < 0) != (middle_value < 0):
     return _bisect(function, lower, middle, tol, lower_value, middle_value)
   else:
     return _bisect(function, middle, upper, tol, middle_value, upper_value)
-- 
2.43.0


From 45c6873b124e5901b93e188947f187f307b25ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 31/66] fix: calibration falls back to bisection on reversed
 bracket intervals

---
 python/dp_accounting/dp_accounting/mechanism_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index dfd44f4..7d54aa6 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -283,8 +283,8 @@ def calibrate_dp_mechanism(
     # Fallback to custom bisection that guarantees root with non-positive value.
     root = _bisect(
         epsilon_gap,
-        bracket_interval.endpoint_1,
-        bracket_interval.endpoint_2,
+        min(attr.astuple(bracket_interval)),
+        max(attr.astuple(bracket_interval)),
         tol,
     )
 
-- 
2.43.0


From 1bfb02deda47ccd7e95bd81939cebe4987006743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 32/66] fix: calibration evaluated parameters outside of the
 bracket interval

---
 .../dp_accounting/mechanism_calibration.py            | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index 7d54aa6..a962175 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -272,10 +272,13 @@ def calibrate_dp_mechanism(
     # Considering brentq's contract that there exists a root within tol of the
     # returned value, in most cases adding +/- tol will suffice.
     if epsilon_gap(root) > 0:
-      if epsilon_gap(root + tol) < 0:
-        root += tol
-      elif epsilon_gap(root - tol) < 0:
-        root -= tol
+      # The mechanism might not be defined outside of the bracket interval.
+      above = min(root + tol, max(attr.astuple(bracket_interval)))
+      below = max(root - tol, min(attr.astuple(bracket_interval)))
+      if epsilon_gap(above) < 0:
+        root = above
+      elif epsilon_gap(below) < 0:
+        root = below
       else:
         root = None
 
-- 
2.43.0


From 083015ea8e7273c3a9065fa30150027c2f766cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:45 +0000
Subject: [PATCH 33/66] fix: discrete Laplace noise search no longer inflated
 by rounding errors on the loss grid

---
 python/dp_accounting/dp_accounting/pld/accountant.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/accountant.py b/python/dp_accounting/dp_accounting/pld/accountant.py
index e14cc91..d6a3794 100644
--- a/python/dp_accounting/dp_accounting/pld/accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/accountant.py
@@ -130,11 +130,13 @@ def get_smallest_discrete_laplace_noise(
     parameter = 1 / inverse_parameter
     # Setting value_discretization_interval equal to parameter because the
     # privacy loss of discrete Laplace mechanism is always divisible by the
-    # parameter.
+    # parameter. The connect-the-dots algorithm is used since it stays exact
+    # even when the quotient is not an integer because of rounding errors.
     return privacy_loss_distribution.from_discrete_laplace_mechanism(
         parameter,
         sensitivity=sensitivity,
-        value_discretization_interval=parameter)
+        value_discretization_interval=parameter,
+        use_connect_dots=True)
 
   # discrete Laplace mechanism with parameter
   # epsilon / (sensitivity * num_queries) is epsilon-DP (for num_queries
-- 
2.43.0


From f72dc464bb148e1148e892cb09670de25c6f53db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 34/66] fix: Gaussian noise for a privacy guarantee with zero
 epsilon

---
 .../dp_accounting/pld/privacy_loss_mechanism.py    | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index bf57cd0..d66748b 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -1176,11 +1176,17 @@ class GaussianPrivacyLoss(AdditiveNoisePrivacyLoss):
     # epsilon is no more than one, the Gaussian mechanism with this standard
     # deviation is (epsilon, delta)-DP. See e.g. Appendix A in Dwork and Roth
     # book, "The Algorithmic Foundations of Differential Privacy".
+    # When epsilon is zero or negligible, sensitivity / (sqrt(2 * pi) * delta) is
+    # used instead. With this standard deviation the mechanism is (0, delta)-DP.
+    if privacy_parameters.epsilon < privacy_parameters.delta:
+      initial_guess = (
+          sensitivity / (math.sqrt(2 * math.pi) * privacy_parameters.delta))
+    else:
+      initial_guess = (
+          math.sqrt(2 * math.log(1.5 / privacy_parameters.delta)) *
+          sensitivity / privacy_parameters.epsilon)
     search_parameters = common.BinarySearchParameters(
-        0,
-        math.inf,
-        initial_guess=math.sqrt(2 * math.log(1.5 / privacy_parameters.delta)) *
-        sensitivity / privacy_parameters.epsilon)
+        0, math.inf, initial_guess=initial_guess)
 
     def _get_delta_for_standard_deviation(current_standard_deviation):
       return GaussianPrivacyLoss(
-- 
2.43.0


From 49c4a1792614fa48b0f020401808079982a178a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:31 +0000
Subject: [PATCH 35/66] fix: inverse privacy loss for sampling probabilities
 close to one

---
 .../dp_accounting/pld/privacy_loss_mechanism.py          | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index d66748b..fe910f1 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -525,7 +525,8 @@ class AdditiveNoisePrivacyLoss(MonotonePrivacyLoss, metaclass=abc.ABCMeta):
         ValueError
     """
     # For performance, the case of sampling_prob=1 is handled separately.
-    if self.sampling_prob == 1.0:
+    # A privacy loss of zero is not changed by sub-sampling.
+    if self.sampling_prob == 1.0 or privacy_loss == 0:
       return self.inverse_privacy_loss_without_subsampling(privacy_loss)
 
     if self.adjacency_type == AdjacencyType.ADD:
@@ -538,7 +539,8 @@ class AdditiveNoisePrivacyLoss(MonotonePrivacyLoss, metaclass=abc.ABCMeta):
       # Privacy loss without subsampling is
       # -log(1 + (exp(-privacy_loss) - 1) / sampling_prob).
       privacy_loss_without_subsampling = -common.log_a_times_exp_b_plus_c(
-          1 / self.sampling_prob, -privacy_loss, 1 - 1 / self.sampling_prob)
+          1 / self.sampling_prob, -privacy_loss,
+          -(1 - self.sampling_prob) / self.sampling_prob)
       return self.inverse_privacy_loss_without_subsampling(
           privacy_loss_without_subsampling)
 
@@ -552,7 +554,8 @@ class AdditiveNoisePrivacyLoss(MonotonePrivacyLoss, metaclass=abc.ABCMeta):
       # Privacy loss without subsampling is
       # log(1 + (exp(privacy_loss) - 1) / sampling_prob).
       privacy_loss_without_subsampling = common.log_a_times_exp_b_plus_c(
-          1 / self.sampling_prob, privacy_loss, 1 - 1 / self.sampling_prob)
+          1 / self.sampling_prob, privacy_loss,
+          -(1 - self.sampling_prob) / self.sampling_prob)
       return self.inverse_privacy_loss_without_subsampling(
           privacy_loss_without_subsampling)
 
-- 
2.43.0


From b527211480c41719bb2dcce2b2aa8042bf46586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:31 +0000
Subject: [PATCH 36/66] fix: clipping an empty set of points

---
 learning/clustering/clustering_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/learning/clustering/clustering_params.py b/learning/clustering/clustering_params.py
index 0c3de98..fe103e2 100644
--- a/learning/clustering/clustering_params.py
+++ b/learning/clustering/clustering_params.py
@@ -194,7 +194,7 @@ class Data():
       points = self.datapoints
     scale = self.radius / np.maximum(
         np.linalg.norm(points, axis=-1), self.radius).reshape(-1, 1)
-    if np.min(scale) < 1.0:
+    if np.any(scale < 1.0):
       logging.debug(
           "Found %s points outside of radius provided, rescaling them to "
           "have norm exactly equal to the radius.", np.sum(scale < 1.0))
-- 
2.43.0


From e4b2f90e00ea87c67c5b91f09212e05d75a769a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:31 +0000
Subject: [PATCH 37/66] fix: private average of integer points

---
 learning/clustering/central_privacy_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/learning/clustering/central_privacy_utils.py b/learning/clustering/central_privacy_utils.py
index 2a4b2e3..27c78ff 100644
--- a/learning/clustering/central_privacy_utils.py
+++ b/learning/clustering/central_privacy_utils.py
@@ -62,7 +62,7 @@ def get_private_average(nonprivate_points: np.ndarray, private_count: int,
   sum_points = np.sum(nonprivate_points, axis=0)
 
   # Add noise.
-  sum_points += np.random.normal(
+  sum_points = sum_points + np.random.normal(
       scale=average_privacy_param.gaussian_standard_deviation, size=dim)
   return sum_points / private_count
 
-- 
2.43.0


From 2eb1fa050ad3429b8944e2d412d5a0cfb1214494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:50 +0000
Subject: [PATCH 38/66] fix: clustering counts need more noise than the Laplace
 accounting assumes

---
 learning/clustering/clustering_params.py  |  4 ++-
 learning/clustering/privacy_calculator.py | 32 +++++++++++++++++++++--
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/learning/clustering/clustering_params.py b/learning/clustering/clustering_params.py
index fe103e2..cdf69b3 100644
--- a/learning/clustering/clustering_params.py
+++ b/learning/clustering/clustering_params.py
@@ -78,7 +78,9 @@ class PrivacyCalculatorMultiplier():
   where gaussian_std_dev is used to calculate the sum Gaussian noise when
   adding points (used when averaging points), and laplace_param is used to
   calculate the discrete Laplace noise when counting points (used when averaging
-  points and constructing the tree).
+  points and constructing the tree). The accounting is done for Laplace noise
+  with laplace_param; the discrete noise gets the slightly smaller parameter
+  whose privacy loss is dominated by it.
 
   All else fixed, increasing the multiplier corresponding to a given operation
   roughly shifts more noise towards those operations (and decreases noise for
diff --git a/learning/clustering/privacy_calculator.py b/learning/clustering/privacy_calculator.py
index 1240238..f48f50a 100644
--- a/learning/clustering/privacy_calculator.py
+++ b/learning/clustering/privacy_calculator.py
@@ -96,6 +96,34 @@ def get_alpha_interval(
                                                      2 * lower_bound_alpha)
 
 
+def get_discrete_laplace_param(laplace_param: float) -> float:
+  """Returns the parameter of count noise covered by Laplace accounting.
+
+  The counts are noised with discrete Laplace noise, but the accounting in
+  make_clustering_event uses (continuous) Laplace noise. For the same parameter
+  the discrete noise is strictly less private. The parameter returned is the
+  largest for which the privacy loss of the discrete noise is dominated by that
+  of Laplace noise with parameter laplace_param: the two mechanisms then have
+  the same total variation distance, and the hockey-stick divergence of the
+  discrete one is a tangent to that of the continuous one.
+
+  Args:
+    laplace_param: parameter of the Laplace noise used for the accounting.
+  """
+  return laplace_param / 2 + np.log1p(-np.expm1(-laplace_param / 2))
+
+
+def get_accounted_laplace_param(discrete_laplace_param: float) -> float:
+  """Returns the inverse of get_discrete_laplace_param.
+
+  Args:
+    discrete_laplace_param: parameter of the discrete Laplace noise.
+  """
+  return 2 * (
+      discrete_laplace_param + np.log1p(np.expm1(-discrete_laplace_param) / 2)
+  )
+
+
 class PrivacyCalculator():
   """Calculates and returns privacy parameters.
 
@@ -152,7 +180,7 @@ class PrivacyCalculator():
         multipliers.get_gaussian_std_dev(alpha, radius), radius
     )
     self.count_privacy_param = central_privacy_utils.CountPrivacyParam(
-        multipliers.get_laplace_param(alpha)
+        get_discrete_laplace_param(multipliers.get_laplace_param(alpha))
     )
 
   def validate_accounting(
@@ -166,7 +194,7 @@ class PrivacyCalculator():
 
     clustering_event = make_clustering_event(
         self.average_privacy_param.gaussian_standard_deviation,
-        self.count_privacy_param.laplace_param,
+        get_accounted_laplace_param(self.count_privacy_param.laplace_param),
         self.average_privacy_param.sensitivity,
         max_depth,
     )
-- 
2.43.0


From a52ef4124431d96816627281ec5946a3440f9e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 39/66] fix: negative noisy counts removed the noise of the
 audited mean mechanism

---
 python/dp_auditorium/dp_auditorium/mechanisms/mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_auditorium/dp_auditorium/mechanisms/mean.py b/python/dp_auditorium/dp_auditorium/mechanisms/mean.py
index 5a20584..c6dea2d 100644
--- a/python/dp_auditorium/dp_auditorium/mechanisms/mean.py
+++ b/python/dp_auditorium/dp_auditorium/mechanisms/mean.py
@@ -102,7 +102,7 @@ class MeanMechanism:
         * np.abs(self._max_value - self._min_value)
         / self._epsilon_budget_scale
         / self._epsilon
-        / counts_for_noise_scale
+        / np.abs(counts_for_noise_scale)
     )
     noise_scale = np.maximum(_ZERO_TOLERANCE, noise_scale)
     return value_sum / counts_for_mean + self._noise_function(
-- 
2.43.0


From 1b0ef40864560918da2fa73235ec68f237db8902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 40/66] fix: hockey-stick tester weights for samples of
 different sizes

---
 .../dp_auditorium/testers/hockey_stick_tester.py              | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/dp_auditorium/dp_auditorium/testers/hockey_stick_tester.py b/python/dp_auditorium/dp_auditorium/testers/hockey_stick_tester.py
index 1b61eae..23e8fec 100644
--- a/python/dp_auditorium/dp_auditorium/testers/hockey_stick_tester.py
+++ b/python/dp_auditorium/dp_auditorium/testers/hockey_stick_tester.py
@@ -167,6 +167,10 @@ class HockeyStickPropertyTester(divergence_tester.DivergencePropertyTester):
       raise ValueError(f"""Mechanism outputs on dataset 1 and dataset 2 should
           have the same rank got {samples1.shape} and
            {samples2.shape}""")
+    # The label weights below assume that both samples have the same size.
+    num_samples = min(len(samples1), len(samples2))
+    samples1 = samples1[:num_samples, ...]
+    samples2 = samples2[:num_samples, ...]
     if len(samples1.shape) == 1:
       samples1 = samples1.reshape(-1, 1)
       samples2 = samples2.reshape(-1, 1)
-- 
2.43.0


From f79d454c3e86afab9fea7b8ffb2ccf4aa35bba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 41/66] fix: splitting an empty sample into training and test
 samples

---
 .../dp_auditorium/testers/property_tester_utils.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py b/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py
index dbe283f..069d909 100644
--- a/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py
+++ b/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py
@@ -40,7 +40,7 @@ def split_train_test_samples(
     ValueError if samples has less than 2 elements.
   """
   n = samples.shape[0]
-  if n == 1:
+  if n < 2:
     raise ValueError(
         'Must have at least 2 elements in sample to generate '
         'training and test samples'
-- 
2.43.0


From fd355fa7a7a400602e25408a664d5d7160080116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 42/66] fix: data set generator dropped divergence results
 equal to zero

---
 .../dp_auditorium/generators/vizier_dataset_generator.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py b/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
index 574a90f..ca0e277 100644
--- a/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
+++ b/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
@@ -219,7 +219,7 @@ class VizierDatasetGenerator(interfaces.DatasetGenerator):
     Returns:
       Array with Vizier suggestions for new neighboring datasets.
     """
-    if last_trial_result:
+    if last_trial_result is not None:
       self._complete_trial(last_trial_result)
 
     self._load_trial()
-- 
2.43.0


From 8ad5aee54ee4897d52dffe18d20c6c1c73a0bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:12 +0000
Subject: [PATCH 43/66] fix: discrete calibration could miss the optimal
 integer by one

---
 python/dp_accounting/dp_accounting/mechanism_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index a962175..421c221 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -229,9 +229,9 @@ def calibrate_dp_mechanism(
     bracket_interval = LowerEndpointAndGuess(0, 1)
 
   if tol is None:
-    tol = 1.0 if discrete else 1e-6
+    tol = 0.5 if discrete else 1e-6
   elif discrete:
-    tol = max(tol, 1.0)
+    tol = max(tol, 0.5)
   elif tol <= 0:
     raise ValueError(f'tol must be positive. Found {tol}.')
 
-- 
2.43.0


From e1f676b0c4110feef55718a1651846f58af3f788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:03 +0000
Subject: [PATCH 44/66] fix: NaN noise scales, parameters and orders were
 accepted as if valid

Comparisons such as x < 0 are false for NaN, so events, privacy loss
mechanisms and parameters with NaN (or, for nested Renyi computations, a
negative noise multiplier) were accounted with a finite guarantee.
---
 .../dp_accounting/mechanism_calibration.py    |  2 +-
 .../dp_accounting/dp_accounting/pld/common.py | 11 +++++++--
 .../pld/privacy_loss_distribution.py          |  4 ++--
 .../pld/privacy_loss_mechanism.py             | 20 ++++++++--------
 .../rdp/rdp_privacy_accountant.py             | 24 +++++++++++++------
 5 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index 421c221..4a7ec75 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -217,7 +217,7 @@ def calibrate_dp_mechanism(
     raise TypeError(f'make_event_from_param must be callable. '
                     f'found {type(make_event_from_param)}.')
 
-  if target_epsilon < 0:
+  if not target_epsilon >= 0:
     raise ValueError(f'target_epsilon must be nonnegative. Found '
                      f'{target_epsilon}.')
 
diff --git a/python/dp_accounting/dp_accounting/pld/common.py b/python/dp_accounting/dp_accounting/pld/common.py
index 53ea74a..25decc9 100644
--- a/python/dp_accounting/dp_accounting/pld/common.py
+++ b/python/dp_accounting/dp_accounting/pld/common.py
@@ -37,12 +37,19 @@ class DifferentialPrivacyParameters(object):
   delta: float = 0
 
   def __post_init__(self):
-    if self.epsilon < 0:
+    if not self.epsilon >= 0:
       raise ValueError(f'epsilon should be positive: {self.epsilon}')
-    if self.delta < 0 or self.delta > 1:
+    if not 0 <= self.delta <= 1:
       raise ValueError(f'delta should be between 0 and 1: {self.delta}')
 
 
+def validate_discretization_interval(interval: float):
+  """Raises ValueError unless the interval is a finite positive number."""
+  if not 0 < interval < math.inf:
+    raise ValueError(
+        f'The discretization interval must be positive and finite: {interval}')
+
+
 @dataclasses.dataclass
 class BinarySearchParameters(object):
   """Parameters used for binary search.
diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
index 2e366c4..eeb6863 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
@@ -1074,11 +1074,11 @@ def from_randomized_response(
     The privacy loss distribution constructed as specified.
   """
 
-  if noise_parameter <= 0 or noise_parameter >= 1:
+  if not 0 < noise_parameter < 1:
     raise ValueError(f'Noise parameter must be strictly between 0 and 1: '
                      f'Found {noise_parameter}')
 
-  if num_buckets <= 1:
+  if not num_buckets > 1:
     raise ValueError(
         f'Number of buckets must be strictly greater than 1: {num_buckets}')
 
diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
index fe910f1..b5318aa 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_mechanism.py
@@ -281,10 +281,10 @@ class AdditiveNoisePrivacyLoss(MonotonePrivacyLoss, metaclass=abc.ABCMeta):
                is_discrete: bool,
                sampling_prob: float = 1.0,
                adjacency_type: AdjacencyType = AdjacencyType.REMOVE):
-    if sensitivity <= 0:
+    if not sensitivity > 0:
       raise ValueError(
           f'Sensitivity is not a positive real number: {sensitivity}')
-    if sampling_prob <= 0 or sampling_prob > 1:
+    if not 0 < sampling_prob <= 1:
       raise ValueError(
           f'Sampling probability is not in (0,1] : {sampling_prob}')
     self.sensitivity = sensitivity
@@ -706,7 +706,7 @@ class LaplacePrivacyLoss(AdditiveNoisePrivacyLoss):
       adjacency_type: type of adjacency relation to used for defining the
         privacy loss distribution.
     """
-    if parameter <= 0:
+    if not parameter > 0:
       raise ValueError(f'Parameter is not a positive real number: {parameter}')
 
     self._parameter = parameter
@@ -964,7 +964,7 @@ class GaussianPrivacyLoss(AdditiveNoisePrivacyLoss):
       adjacency_type: type of adjacency relation to used for defining the
         privacy loss distribution.
     """
-    if standard_deviation <= 0:
+    if not standard_deviation > 0:
       raise ValueError(f'Standard deviation is not a positive real number: '
                        f'{standard_deviation}')
     if log_mass_truncation_bound > 0:
@@ -1275,7 +1275,7 @@ class DiscreteLaplacePrivacyLoss(AdditiveNoisePrivacyLoss):
       adjacency_type: type of adjacency relation to used for defining the
         privacy loss distribution.
     """
-    if parameter <= 0:
+    if not parameter > 0:
       raise ValueError(f'Parameter is not a positive real number: {parameter}')
 
     if not isinstance(sensitivity, int):
@@ -1447,7 +1447,7 @@ class DiscreteLaplacePrivacyLoss(AdditiveNoisePrivacyLoss):
     """
     if not isinstance(sensitivity, int):
       raise ValueError(f'Sensitivity is not an integer : {sensitivity}')
-    if sensitivity <= 0:
+    if not sensitivity > 0:
       raise ValueError(
           f'Sensitivity is not a positive real number: {sensitivity}')
     if sampling_prob <= 0 or math.isclose(sampling_prob, 0):
@@ -1543,7 +1543,7 @@ class DiscreteGaussianPrivacyLoss(AdditiveNoisePrivacyLoss):
       adjacency_type: type of adjacency relation to used for defining the
         privacy loss distribution.
     """
-    if sigma <= 0:
+    if not sigma > 0:
       raise ValueError(f'Sigma is not a positive real number: {sigma}')
     if not isinstance(sensitivity, int):
       raise ValueError(f'Sensitivity is not an integer : {sensitivity}')
@@ -1910,7 +1910,7 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
       ValueError: If args are invalid, e.g. standard_deviation is negative or
       sensitivities and sampling_probs are different lengths.
     """
-    if standard_deviation <= 0:
+    if not standard_deviation > 0:
       raise ValueError(
           'Standard deviation is not a positive real number: '
           f'{standard_deviation}'
@@ -1930,7 +1930,7 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
     non_zero_indices = np.asarray(sampling_probs) != 0.0
     sensitivities = np.asarray(sensitivities)[non_zero_indices]
     sampling_probs = np.asarray(sampling_probs)[non_zero_indices]
-    if np.any(sensitivities < 0):
+    if not np.all(sensitivities >= 0):
       raise ValueError(
           f'Sensitivities contains a negative number: {sensitivities}.'
       )
@@ -1941,7 +1941,7 @@ class MixtureGaussianPrivacyLoss(MonotonePrivacyLoss):
           f'Probabilities do not add up to 1: {sum(sampling_probs)}'
       )
     for sampling_prob in sampling_probs:
-      if sampling_prob <= 0 or sampling_prob > 1:
+      if not 0 < sampling_prob <= 1:
         raise ValueError(
             f'Sampling probability is not in (0,1] : {sampling_prob}'
         )
diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index cfd6efd..c3c8638 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -186,7 +186,7 @@ def compute_delta(
   # Improved bound from https://arxiv.org/abs/2004.00010 Proposition 12 (in v4):
   logdeltas = []  # work in log space to avoid overflows
   for a, r in zip(orders, rdp):
-    if a < 1:
+    if not a >= 1:
       raise ValueError(f'Renyi divergence order must be at least 1. Found {a}.')
     if r < 0:
       logging.warning(
@@ -195,6 +195,8 @@ def compute_delta(
           r,
       )
       logdelta = -np.inf
+    elif math.isnan(r):
+      logdelta = 0.0  # Nothing is known.
     # For small alpha, we are better of with bound via KL divergence:
     # delta <= sqrt(1-exp(-KL)).
     # Take a min of the two bounds.
@@ -250,7 +252,7 @@ def compute_epsilon(
   # Also appears in https://arxiv.org/abs/2001.05990 Equation 20 (in v1).
   eps = []
   for a, r in zip(orders, rdp):
-    if a < 1:
+    if not a >= 1:
       raise ValueError(f'Renyi divergence order must be at least 1. Found {a}.')
     if r < 0:
       logging.warning(
@@ -377,7 +379,7 @@ def _compute_rdp_poisson_subsampled_gaussian(
   if not 0 <= q <= 1:
     raise ValueError(f'Sampling rate must be in [0, 1]. Found {q}.')
 
-  if noise_multiplier < 0:
+  if not noise_multiplier >= 0:
     raise ValueError(
         f'Noise multiplier must be non-negative: {noise_multiplier}'
     )
@@ -566,6 +568,10 @@ def _effective_gaussian_noise_multiplier(
     out in `dp_event.GaussianDpEvent`s, returns offending subevent.
   """
   if isinstance(event, dp_event.GaussianDpEvent):
+    if not event.noise_multiplier >= 0:
+      raise ValueError(
+          f'Noise multiplier must be non-negative: {event.noise_multiplier}'
+      )
     return event.noise_multiplier
   elif isinstance(event, dp_event.ComposedDpEvent):
     sum_sigma_inv_sq = 0
@@ -607,7 +613,7 @@ def _compute_rdp_single_epoch_tree_aggregation(
   Returns:
     The RDPs at all orders. Can be `np.inf`.
   """
-  if noise_multiplier < 0:
+  if not noise_multiplier >= 0:
     raise ValueError(
         f'noise_multiplier must be non-negative. Got {noise_multiplier}.'
     )
@@ -624,7 +630,7 @@ def _compute_rdp_single_epoch_tree_aggregation(
     step_counts = [step_counts]
 
   for steps in step_counts:
-    if steps < 0:
+    if not steps >= 0:
       raise ValueError(f'Steps must be non-negative. Got {step_counts}')
 
   max_depth = math.ceil(math.log2(max(step_counts) + 1))
@@ -956,9 +962,9 @@ def _compute_randomized_response_rdp(
   Returns:
     The RDP of Randomized Response at given orders.
   """
-  if noise_parameter < 0 or noise_parameter > 1:
+  if not 0 <= noise_parameter <= 1:
     raise ValueError(f'noise_parameter must be in [0,1]. Got {noise_parameter}')
-  if num_buckets < 1:
+  if not num_buckets >= 1:
     raise ValueError(f'num_buckets must be >= 1. Got {num_buckets}')
   rr_rdp_fn = (
       _randomized_response_rdp_replace_one
@@ -1103,6 +1109,10 @@ class RdpAccountant(privacy_accountant.PrivacyAccountant):
       if do_compose and event.noise_multiplier == 0:
         self._rdp += np.inf
       elif do_compose:
+        if not event.noise_multiplier > 0:
+          raise ValueError(
+              f'Noise multiplier must be non-negative: {event.noise_multiplier}'
+          )
         eps = 1 / event.noise_multiplier
         self._rdp += count * np.array(
             [_laplace_rdp(eps, order) for order in self._orders]
-- 
2.43.0


From e22a6ae79a95ca357c28f1f0808a7be2b7ef4250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:03 +0000
Subject: [PATCH 45/66] fix: Renyi curves with an infinite order were converted
 to epsilon zero

---
 .../dp_accounting/rdp/rdp_privacy_accountant.py              | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index c3c8638..f3ee1f0 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -261,10 +261,15 @@ def compute_epsilon(
           r,
       )
       epsilon = 0.0
+    elif math.isnan(r):
+      epsilon = np.inf  # Nothing is known.
     elif delta**2 + math.expm1(-r) > 0:
       # In this case, we can simply bound via KL divergence:
       # delta <= sqrt(1-exp(-KL)).
       epsilon = 0  # No need to try further computation if we have epsilon = 0.
+    elif np.isinf(a):
+      # The Renyi divergence of infinite order bounds the privacy loss itself.
+      epsilon = r
     elif a > 1.01:
       # This bound is not numerically stable as alpha->1.
       # Thus we have a min value of alpha.
-- 
2.43.0


From 96cb6934c11c9204b96e65e959e3e07657237016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:03 +0000
Subject: [PATCH 46/66] fix: NaN epsilon and delta targets were answered with a
 guarantee

---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py          | 7 +++++++
 .../dp_accounting/rdp/rdp_privacy_accountant.py            | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 59b154a..87f1ba9 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -50,6 +50,9 @@ def _get_delta_for_epsilon(infinity_mass: float,
   Returns:
     The epsilon-hockey stick divergence.
   """
+  if math.isnan(epsilon):
+    raise ValueError('Epsilon in get_delta_for_epsilon must not be NaN')
+
   # delta is inf_mass + sum_{loss} max(0, 1 - exp(epsilon - loss)) * prob
   losses = np.asarray(losses)
   probs = np.asarray(probs)
@@ -77,6 +80,8 @@ def _get_delta_for_epsilon_vectorized(infinity_mass: float,
     The list of epsilon-hockey stick divergences for epsilons.
   """
   epsilons = np.asarray(epsilons)
+  if np.any(np.isnan(epsilons)):
+    raise ValueError('Epsilons in get_delta_for_epsilon must not be NaN')
   are_epsilons_sorted = np.all(epsilons[1:] >= epsilons[:-1])
   if not are_epsilons_sorted:
     raise ValueError(
@@ -135,6 +140,8 @@ def _get_epsilon_for_delta(infinity_mass: float,
      The smallest epsilon such that the epsilon-hockey stick divergence is at
      most delta. When no such finite epsilon exists, return math.inf.
   """
+  if math.isnan(delta):
+    raise ValueError('Delta in get_epsilon_for_delta must not be NaN')
   if infinity_mass > delta:
     return math.inf
 
diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index f3ee1f0..a999bff 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -175,7 +175,7 @@ def compute_delta(
   Raises:
     ValueError: If input is malformed.
   """
-  if epsilon < 0:
+  if not epsilon >= 0:
     raise ValueError(f'Epsilon cannot be negative. Found {epsilon}.')
   if len(orders) != len(rdp):
     raise ValueError('Input lists must have the same length.')
@@ -233,7 +233,7 @@ def compute_epsilon(
   Raises:
     ValueError: If input is malformed.
   """
-  if delta < 0:
+  if not delta >= 0:
     raise ValueError(f'Delta cannot be negative. Found {delta}.')
 
   if delta == 0:
-- 
2.43.0


From f95c4ff16210639f986546e0463e67deed4a57aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:03 +0000
Subject: [PATCH 47/66] fix: invalid discretization intervals were accepted

An infinite interval produced privacy loss distributions with epsilon zero.
---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py               | 1 +
 .../dp_accounting/pld/privacy_loss_distribution.py              | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index 87f1ba9..358cab1 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -253,6 +253,7 @@ class PLDPmf(abc.ABC):
 
   def __init__(self, discretization: float, infinity_mass: float,
                pessimistic_estimate: bool):
+    common.validate_discretization_interval(discretization)
     self._discretization = discretization
     self._infinity_mass = infinity_mass
     self._pessimistic_estimate = pessimistic_estimate
diff --git a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
index eeb6863..a4f6fee 100644
--- a/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
+++ b/python/dp_accounting/dp_accounting/pld/privacy_loss_distribution.py
@@ -819,6 +819,7 @@ def _create_pld_pmf_from_monotone_privacy_loss(
   Returns:
     The privacy loss distribution constructed as specified.
   """
+  common.validate_discretization_interval(value_discretization_interval)
   if use_connect_dots:
     if not pessimistic_estimate:
       logging.warning('Connect-the-Dots implementation does not support '
@@ -971,6 +972,7 @@ def create_from_cdf(
   Returns:
     The privacy loss distribution constructed as specified.
   """
+  common.validate_discretization_interval(value_discretization_interval)
   rounded_probability_mass_function = {}
 
   # Construct the distribution for value greater than or equal to zero.
-- 
2.43.0


From aca61e0c8ba5b6855c451369fe3a349be9433264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:03 +0000
Subject: [PATCH 48/66] fix: self-composed events with a negative count were
 accepted

---
 .../dp_accounting/dp_accounting/pld/pld_privacy_accountant.py   | 2 ++
 .../dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index 134e108..3126153 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -48,6 +48,8 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
         self._contains_non_dp_event = True
       return None
     elif isinstance(event, dp_event.SelfComposedDpEvent):
+      if do_compose and not event.count >= 0:
+        raise ValueError(f'Count must be non-negative: {event.count}')
       return self._maybe_compose(event.event, event.count * count, do_compose)
     elif isinstance(event, dp_event.ComposedDpEvent):
       for e in event.events:
diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index a999bff..fc6996f 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -1023,6 +1023,8 @@ class RdpAccountant(privacy_accountant.PrivacyAccountant):
         self._rdp += np.inf
       return None
     elif isinstance(event, dp_event.SelfComposedDpEvent):
+      if do_compose and not event.count >= 0:
+        raise ValueError(f'Count must be non-negative: {event.count}')
       return self._maybe_compose(event.event, event.count * count, do_compose)
     elif isinstance(event, dp_event.ComposedDpEvent):
       for e in event.events:
-- 
2.43.0


From c343979f31715ba6d68f04e91db46146aa8dd6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:03 +0000
Subject: [PATCH 49/66] fix: PLDAccountant accepted mixtures with lists of
 different lengths

---
 .../dp_accounting/dp_accounting/pld/pld_privacy_accountant.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index 3126153..c9c2e6a 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -104,7 +104,7 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
       return None
     elif isinstance(event, dp_event.MixtureOfGaussiansDpEvent):
       if do_compose:
-        if not any(
+        if len(event.sensitivities) == len(event.sampling_probs) and not any(
             s and p for s, p in zip(event.sensitivities, event.sampling_probs)
         ):
           pass
-- 
2.43.0


From a51157225144f12cdd8c7e6d39571b8cc6838210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:03 +0000
Subject: [PATCH 50/66] fix: invalid arguments of
 get_smallest_subsampled_gaussian_noise

---
 python/dp_accounting/dp_accounting/pld/accountant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/accountant.py b/python/dp_accounting/dp_accounting/pld/accountant.py
index d6a3794..34c29ca 100644
--- a/python/dp_accounting/dp_accounting/pld/accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/accountant.py
@@ -215,7 +215,7 @@ def get_smallest_subsampled_gaussian_noise(
         sampling_prob=sampling_prob)
 
   # Even without noise nothing is revealed about a record that is not sampled.
-  if (sampling_prob < 1 and
+  if (0 <= sampling_prob < 1 and num_queries >= 1 and
       -math.expm1(num_queries * math.log1p(-sampling_prob)) <=
       privacy_parameters.delta):
     return 0
-- 
2.43.0


From 0f2bcc77fe5870c4f8db783fa43c5448893f7a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:03 +0000
Subject: [PATCH 51/66] fix: NaN noise parameters were accepted by the
 clustering library

---
 learning/clustering/central_privacy_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/learning/clustering/central_privacy_utils.py b/learning/clustering/central_privacy_utils.py
index 27c78ff..a845cb6 100644
--- a/learning/clustering/central_privacy_utils.py
+++ b/learning/clustering/central_privacy_utils.py
@@ -27,13 +27,13 @@ class AveragePrivacyParam():
 
   def __post_init__(self):
     # Standard deviation can be 0 to indicate no noise.
-    if self.gaussian_standard_deviation < 0:
+    if not self.gaussian_standard_deviation >= 0:
       raise ValueError(
           f'Gaussian standard deviation was {self.gaussian_standard_deviation},'
           ' but it must be nonnegative.'
       )
 
-    if self.sensitivity <= 0:
+    if not self.sensitivity > 0:
       raise ValueError(
           f'Sensitivity for averaging was {self.sensitivity}, but it must be '
           'positive.')
@@ -55,7 +55,7 @@ def get_private_average(nonprivate_points: np.ndarray, private_count: int,
   Returns:
     A differentially private average of the given data points.
   """
-  if private_count < 1:
+  if not private_count >= 1:
     raise ValueError(
         f'get_private_average() called with private_count={private_count}')
 
@@ -75,7 +75,7 @@ class CountPrivacyParam():
   def __post_init__(self):
     # No noise means laplace_param == inf, not 0. We invert the discrete Laplace
     # param for accounting.
-    if self.laplace_param <= 0:
+    if not self.laplace_param > 0:
       raise ValueError(f'Discrete Laplace param was {self.laplace_param}, '
                        'but it must be positive.')
 
-- 
2.43.0


From 380f8ab41038469aca3191dc569ff199eaee9e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:03 +0000
Subject: [PATCH 52/66] fix: NaN parameters were accepted by the privacy
 testers

---
 .../dp_auditorium/testers/property_tester_utils.py          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py b/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py
index 069d909..16ff15e 100644
--- a/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py
+++ b/python/dp_auditorium/dp_auditorium/testers/property_tester_utils.py
@@ -75,7 +75,7 @@ def _validate_epsilon_parameter(epsilon: Optional[float]):
   """Checks that the epsilon parameter is valid."""
   if not epsilon:
     raise ValueError('`epsilon` should be specified.')
-  if epsilon <= 0:
+  if not epsilon > 0:
     raise ValueError('`epsilon` should be positive.')
 
 
@@ -95,7 +95,7 @@ def validate_approximate_dp_property(
   if approximate_dp.delta is None:
     raise ValueError('`delta` should be specified for approximate DP.')
 
-  if approximate_dp.delta < 0:
+  if not approximate_dp.delta >= 0:
     raise ValueError('`delta` should be non-negative.')
 
 
@@ -126,7 +126,7 @@ def validate_renyi_dp_property(renyi_dp: privacy_property.RenyiDp):
     raise ValueError(
         'The order Renyi divergence `alpha` should be specified for Renyi DP.'
     )
-  if renyi_dp.alpha <= 1:
+  if not renyi_dp.alpha > 1:
     raise ValueError(
         'The order of Renyi divergence `alpha` should be greater than one.'
     )
-- 
2.43.0


From cfd37a5cca076c2bcb9dfd936129cc1a8dccbadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:02 +0000
Subject: [PATCH 53/66] fix: Go Laplace noise with an overflowing L1
 sensitivity hung or was too small

---
 go/noise/laplace_noise.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/noise/laplace_noise.go b/go/noise/laplace_noise.go
index 1bc33fe..61f903f 100644
--- a/go/noise/laplace_noise.go
+++ b/go/noise/laplace_noise.go
@@ -17,6 +17,7 @@
 package noise
 
 import (
+	"fmt"
 	"math"
 
 	"github.com/google/differential-privacy/go/v3/checks"
@@ -71,7 +72,11 @@ func (laplace) AddNoiseInt64(x, l0Sensitivity, lInfSensitivity int64, epsilon, d
 	if err := checkArgsLaplace(l0Sensitivity, float64(lInfSensitivity), epsilon, delta); err != nil {
 		return 0, err
 	}
-	return addLaplaceInt64(x, epsilon, lInfSensitivity*l0Sensitivity /* l1Sensitivity */), nil
+	l1Sensitivity := lInfSensitivity * l0Sensitivity
+	if l1Sensitivity/l0Sensitivity != lInfSensitivity {
+		return 0, fmt.Errorf("L1Sensitivity (%d * %d) overflows int64", l0Sensitivity, lInfSensitivity)
+	}
+	return addLaplaceInt64(x, epsilon, l1Sensitivity), nil
 }
 
 // Threshold returns the smallest threshold k to use in a differentially private
-- 
2.43.0


From 77a9317c363615cc37d6d20af229d021362ebc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:54 +0000
Subject: [PATCH 54/66] fix: Go BoundedQuantiles.Result never returned for a
 NaN rank

---
 go/dpagg/quantiles.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/dpagg/quantiles.go b/go/dpagg/quantiles.go
index ed84df8..a441da1 100644
--- a/go/dpagg/quantiles.go
+++ b/go/dpagg/quantiles.go
@@ -216,7 +216,7 @@ func (bq *BoundedQuantiles) Result(rank float64) (float64, error) {
 	}
 	bq.state = resultReturned
 
-	if rank < 0.0 || rank > 1.0 {
+	if !(rank >= 0.0 && rank <= 1.0) {
 		return 0, fmt.Errorf("rank %f must be >= 0 and <= 1", rank)
 	}
 	rank = adjustRank(rank)
-- 
2.43.0


From 832904820c5b415ddf82e883d7872795c261ba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:54 +0000
Subject: [PATCH 55/66] fix: Go BoundedQuantiles counted values next to upper
 outside of the leaves

---
 go/dpagg/quantiles.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/dpagg/quantiles.go b/go/dpagg/quantiles.go
index a441da1..1a9cc44 100644
--- a/go/dpagg/quantiles.go
+++ b/go/dpagg/quantiles.go
@@ -288,7 +288,8 @@ func (bq *BoundedQuantiles) Result(rank float64) (float64, error) {
 // the leaf nodes partition the range betwen lower and upper into intervals of equal size.
 func (bq *BoundedQuantiles) getIndex(value float64) int {
 	indexFromLeftmostLeaf := int((value - bq.lower) / (bq.upper - bq.lower) * float64(bq.numLeaves))
-	if value == bq.upper {
+	// Values equal to (or, because of rounding, close to) upper belong to the rightmost leaf.
+	if indexFromLeftmostLeaf >= bq.numLeaves {
 		indexFromLeftmostLeaf = bq.numLeaves - 1
 	}
 	return bq.leftmostLeafIndex + indexFromLeftmostLeaf
-- 
2.43.0


From 23c0c1234d7590c572a2589c4c20f6415a3336bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:54 +0000
Subject: [PATCH 56/66] fix: Go mean and variance accepted a total delta of one
 or more

---
 go/dpagg/mean.go     | 4 ++++
 go/dpagg/variance.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/go/dpagg/mean.go b/go/dpagg/mean.go
index 15f0ca7..65b5ec3 100644
--- a/go/dpagg/mean.go
+++ b/go/dpagg/mean.go
@@ -133,6 +133,10 @@ func NewBoundedMean(opt *BoundedMeanOptions) (*BoundedMean, error) {
 	maxDistFromMidpoint := upper - midPoint
 
 	eps, del := opt.Epsilon, opt.Delta
+	// The budget is split below, so a share of an invalid delta can look valid.
+	if err := checks.CheckDelta(del); err != nil {
+		return nil, fmt.Errorf("NewBoundedMean: %w", err)
+	}
 	// We split the budget in half to calculate the count and the normalized sum
 	// TODO: this can be optimized for the Gaussian noise
 	halfEpsilon := eps / 2
diff --git a/go/dpagg/variance.go b/go/dpagg/variance.go
index 7cde595..df5063d 100644
--- a/go/dpagg/variance.go
+++ b/go/dpagg/variance.go
@@ -131,6 +131,10 @@ func NewBoundedVariance(opt *BoundedVarianceOptions) (*BoundedVariance, error) {
 	sumMaxDistFromMidpoint := upper - midPoint
 
 	eps, del := opt.Epsilon, opt.Delta
+	// The budget is split below, so a share of an invalid delta can look valid.
+	if err := checks.CheckDelta(del); err != nil {
+		return nil, fmt.Errorf("NewBoundedVariance: %w", err)
+	}
 	// We split the budget equally in three to calculate the count, the normalized sum and
 	// normalized sum of squares.
 	// TODO: This can be optimized.
-- 
2.43.0


From d91c46b5ee6b47d718d6694cf671b25a4ada2dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:54 +0000
Subject: [PATCH 57/66] fix: Go Count.PreThresholdedResult could be asked again
 after dropping the partition

---
 go/dpagg/count.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/go/dpagg/count.go b/go/dpagg/count.go
index 0925b8d..3be11dd 100644
--- a/go/dpagg/count.go
+++ b/go/dpagg/count.go
@@ -225,20 +225,22 @@ func (c *Count) PreThresholdedResult(preThreshold int64, thresholdDelta float64)
 	if preThreshold < 1 {
 		preThreshold = 1
 	}
-	// Pre-thresholding guarantees that at least this number of unique contributions are in the
-	// partition.
-	if c.count < preThreshold {
-		return nil, nil
-	}
 
 	threshold, err := c.Noise.Threshold(c.l0Sensitivity, float64(c.lInfSensitivity), c.epsilon, c.delta, thresholdDelta)
 	if err != nil {
 		return nil, err
 	}
+	// The result is computed (and the state updated) even if the partition is dropped below, so
+	// that it is not possible to ask for another result afterwards.
 	result, err := c.Result()
 	if err != nil {
 		return nil, err
 	}
+	// Pre-thresholding guarantees that at least this number of unique contributions are in the
+	// partition.
+	if c.count < preThreshold {
+		return nil, nil
+	}
 	// Rounding up the threshold when converting it to int64 to ensure that no DP guarantees
 	// are violated due to a result being returned that is less than the fractional threshold.
 	if result < int64(math.Ceil(threshold))+(preThreshold-1) {
-- 
2.43.0


From 84fb4c53e976c4ef9192174045dad9b90333a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:20 +0000
Subject: [PATCH 58/66] fix: Go integer thresholds of 2^63 or more let every
 partition through

---
 go/dpagg/count.go   |  4 ++--
 go/dpagg/helpers.go | 14 ++++++++++++++
 go/dpagg/sum.go     |  2 +-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/go/dpagg/count.go b/go/dpagg/count.go
index 3be11dd..84bc5bf 100644
--- a/go/dpagg/count.go
+++ b/go/dpagg/count.go
@@ -202,7 +202,7 @@ func (c *Count) ThresholdedResult(thresholdDelta float64) (*int64, error) {
 	}
 	// Rounding up the threshold when converting it to int64 to ensure that no DP guarantees
 	// are violated due to a result being returned that is less than the fractional threshold.
-	if result < int64(math.Ceil(threshold)) {
+	if result < thresholdInt64(threshold) {
 		return nil, nil
 	}
 	return &result, nil
@@ -243,7 +243,7 @@ func (c *Count) PreThresholdedResult(preThreshold int64, thresholdDelta float64)
 	}
 	// Rounding up the threshold when converting it to int64 to ensure that no DP guarantees
 	// are violated due to a result being returned that is less than the fractional threshold.
-	if result < int64(math.Ceil(threshold))+(preThreshold-1) {
+	if intThreshold := thresholdInt64(threshold); intThreshold > math.MaxInt64-(preThreshold-1) || result < intThreshold+(preThreshold-1) {
 		// PreThreshold is set to 1 as the default, we subtract it here so it has no effect.
 		// This subtraction also ensures that partition might be kept if preThreshold = count.
 		return nil, nil
diff --git a/go/dpagg/helpers.go b/go/dpagg/helpers.go
index 820fb75..e30b033 100644
--- a/go/dpagg/helpers.go
+++ b/go/dpagg/helpers.go
@@ -40,6 +40,20 @@ func ClampFloat64(e, lower, upper float64) (float64, error) {
 	return e, nil
 }
 
+// thresholdInt64 returns the smallest int64 that is not less than threshold. Thresholds beyond
+// the range of int64 (or NaN) are mapped to the largest int64, as converting them directly
+// yields an arbitrary (on some platforms negative) value.
+func thresholdInt64(threshold float64) int64 {
+	ceil := math.Ceil(threshold)
+	if ceil < -(1 << 63) {
+		return math.MinInt64
+	}
+	if ceil < 1<<63 {
+		return int64(ceil)
+	}
+	return math.MaxInt64
+}
+
 // ClampInt64 clamps e within lower and upper.
 // Returns lower if e < lower.
 // Returns upper if e > upper.
diff --git a/go/dpagg/sum.go b/go/dpagg/sum.go
index 2c1f8b4..43077de 100644
--- a/go/dpagg/sum.go
+++ b/go/dpagg/sum.go
@@ -268,7 +268,7 @@ func (bs *BoundedSumInt64) ThresholdedResult(thresholdDelta float64) (*int64, er
 	}
 	// Rounding up the threshold when converting it to int64 to ensure that no DP guarantees
 	// are violated due to a result being returned that is less than the fractional threshold.
-	if result < int64(math.Ceil(threshold)) {
+	if result < thresholdInt64(threshold) {
 		return nil, nil
 	}
 	return &result, nil
-- 
2.43.0


From 73a42fd51a55e03cac7a5d70a9c0000ca8d53709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:20 +0000
Subject: [PATCH 59/66] fix: Go NewBoundedStandardDeviation panicked without
 options

---
 go/dpagg/standard_deviation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/dpagg/standard_deviation.go b/go/dpagg/standard_deviation.go
index 7b3d9b4..2dbb23b 100644
--- a/go/dpagg/standard_deviation.go
+++ b/go/dpagg/standard_deviation.go
@@ -64,6 +64,10 @@ type BoundedStandardDeviationOptions struct {
 
 // NewBoundedStandardDeviation returns a new BoundedStandardDeviation.
 func NewBoundedStandardDeviation(opt *BoundedStandardDeviationOptions) (*BoundedStandardDeviation, error) {
+	if opt == nil {
+		opt = &BoundedStandardDeviationOptions{} // Prevents panicking due to a nil pointer dereference.
+	}
+
 	variance, err := NewBoundedVariance(&BoundedVarianceOptions{
 		Epsilon:                      opt.Epsilon,
 		Delta:                        opt.Delta,
-- 
2.43.0


From 48a5baf1e9c56e1a3bd0f8cbd332aede18c28c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:20 +0000
Subject: [PATCH 60/66] fix: Go partition selection lost precision for small
 epsilons

---
 go/dpagg/select_partition.go | 42 ++++++++++--------------------------
 1 file changed, 11 insertions(+), 31 deletions(-)

diff --git a/go/dpagg/select_partition.go b/go/dpagg/select_partition.go
index 4b67612..32b3d3e 100644
--- a/go/dpagg/select_partition.go
+++ b/go/dpagg/select_partition.go
@@ -279,18 +279,11 @@ func sumExpPowers(epsilon float64, minPower, numPowers int64) (float64, error) {
 		return 0, fmt.Errorf("sumExpPowers: numPowers (%d) must be > 0", numPowers)
 	}
 
-	// expEpsilonPow returns exp(a * epsilon).
-	expEpsilonPow := func(a int64) float64 {
-		return math.Exp(float64(a) * epsilon)
-	}
-
-	if math.IsInf(expEpsilonPow(minPower), 1) {
+	if math.IsInf(math.Exp(float64(minPower)*epsilon), 1) {
 		return math.Inf(1), nil
 	}
-	// In the case ε=0, sumExpPowers is simply numPowers. We use exp(-ε) = 1 to
-	// identify this case because our closed form solutions would otherwise
-	// result in division by 0 under finite precision arithmetic.
-	if math.Exp(-epsilon) == 1 {
+	// In the case ε=0, sumExpPowers is simply numPowers.
+	if epsilon == 0 {
 		return float64(numPowers), nil
 	}
 
@@ -301,28 +294,15 @@ func sumExpPowers(epsilon float64, minPower, numPowers int64) (float64, error) {
 	//   exp(minPower*ε) * (exp(numPowers*ε) - 1) / (exp(ε) - 1)
 	//
 	// In our setting, it is OK to return +∞ but not OK to return NaN. We use the
-	// following mathematically equivalent formulas to avoid returning NaN when
+	// following mathematically equivalent formula to avoid returning NaN when
 	// using our finite precision arithmetic:
-	//   exp((minPower-1)*ε) * (exp(numPowers*ε) - 1) / (1 - exp(-ε))               (1)
-	//   (exp((numPowers+minPower-1)*ε) - exp((minPower-1)*ε)) / (1 - exp(-ε))      (2)
+	//   exp((numPowers+minPower-1)*ε) * (1 - exp(-numPowers*ε)) / (1 - exp(-ε))
 	//
-	// We use (1) when minPower >= 1. In that case, (exp(numPowers*ε) - 1) is
-	// the only potentially infinite term. The other two terms satisfy
-	// exp((minPower-1) * ε) >= 1 and 0 < (1 - exp(-ε)) <= 1. The
-	// multiplication and division operations involving these other two
-	// terms increase the result. Thus, the result is never NaN, and +∞ is
-	// returned only when necessary.
-	//
-	// We use (2) when minPower < 1. In that case, 0 <= exp((minPower-1)*ε) < 1,
-	// so the numerator
-	//   (exp((numPowers+minPower-1)*ε) - exp((minPower-1)*ε))
-	// is never NaN, and is only +∞ when necessary. The denominator in (2)
-	// satisfies 0 < (1-exp(-ε)) <= 1. The result of (2) is never NaN and
-	// only achieves +∞ when necessary overall.
-	if minPower >= 1 {
-		return expEpsilonPow(minPower-1) * (expEpsilonPow(numPowers) - 1) / (1 - expEpsilonPow(-1)), nil
-	}
-	return (expEpsilonPow(numPowers+minPower-1) - expEpsilonPow(minPower-1)) / (1 - expEpsilonPow(-1)), nil
+	// Only the first term is potentially infinite, and the other two terms are
+	// in (0, 1]. Thus, the result is never NaN, and +∞ is returned only when
+	// necessary. The differences are computed by Expm1 because they cancel for
+	// small ε.
+	return math.Exp(float64(numPowers+minPower-1)*epsilon) * (math.Expm1(-float64(numPowers)*epsilon) / math.Expm1(-epsilon)), nil
 }
 
 // keepPartitionProbability calculates the value of keepPartitionProbability
@@ -342,7 +322,7 @@ func keepPartitionProbability(idCount, l0Sensitivity int64, epsilon, delta float
 	// (i.e., the value 1) on the highest region of the domain. We denote by nCr
 	// the crossover point in the domain from (1) to (2).
 	nCr := int64(1 + math.Floor((1/pEpsilon)*math.Log(
-		(1+math.Exp(-pEpsilon)*(2*pDelta-1))/(pDelta*(1+math.Exp(-pEpsilon))))))
+		(2*pDelta*math.Exp(-pEpsilon)-math.Expm1(-pEpsilon))/(pDelta*(1+math.Exp(-pEpsilon))))))
 
 	if idCount <= nCr {
 		// Closed form solution of keepPartitionProbability(n) on [0, nCr].
-- 
2.43.0


From fa92e47119e54bfb19a59991bac5d9277dfad294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:37 +0000
Subject: [PATCH 61/66] fix: Go GetHardThreshold ignored the pre-threshold

---
 go/dpagg/select_partition.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/dpagg/select_partition.go b/go/dpagg/select_partition.go
index 32b3d3e..66ca2cf 100644
--- a/go/dpagg/select_partition.go
+++ b/go/dpagg/select_partition.go
@@ -364,7 +364,8 @@ func (s *PreAggSelectPartition) GetHardThreshold() (int, error) {
 			return 0, err
 		}
 		if prob >= 1 { // keepPartitionProbability converges to 1.
-			return int(i), nil
+			// ShouldKeepPartition does not count the first preThreshold-1 privacy units.
+			return int(i + s.preThreshold - 1), nil
 		}
 	}
 }
-- 
2.43.0


From 115f145e6d9310e61b87f6ff64c3c1a441c04a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:01 +0000
Subject: [PATCH 62/66] fix: Go bounded sum, mean and variance skipped overflow
 checks for the default noise

---
 go/dpagg/mean.go     | 2 +-
 go/dpagg/sum.go      | 8 ++++----
 go/dpagg/variance.go | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/go/dpagg/mean.go b/go/dpagg/mean.go
index 65b5ec3..6771624 100644
--- a/go/dpagg/mean.go
+++ b/go/dpagg/mean.go
@@ -111,7 +111,7 @@ func NewBoundedMean(opt *BoundedMeanOptions) (*BoundedMean, error) {
 	if lower == 0 && upper == 0 {
 		return nil, fmt.Errorf("NewBoundedMean: Lower and Upper must be set (automatic bounds determination is not implemented yet). Lower and Upper cannot be both 0")
 	}
-	switch noise.ToKind(opt.Noise) {
+	switch noise.ToKind(n) {
 	case noise.Unrecognised:
 		err = checks.CheckBoundsFloat64IgnoreOverflows(lower, upper)
 	default:
diff --git a/go/dpagg/sum.go b/go/dpagg/sum.go
index 43077de..7b02ca2 100644
--- a/go/dpagg/sum.go
+++ b/go/dpagg/sum.go
@@ -112,7 +112,7 @@ func NewBoundedSumInt64(opt *BoundedSumInt64Options) (*BoundedSumInt64, error) {
 		return nil, fmt.Errorf("NewBoundedSumInt64: Lower and Upper must be set (automatic bounds determination is not implemented yet). Lower and Upper cannot be both 0")
 	}
 	var err error
-	switch noise.ToKind(opt.Noise) {
+	switch noise.ToKind(n) {
 	case noise.Unrecognised:
 		err = checks.CheckBoundsInt64IgnoreOverflows(lower, upper)
 	default:
@@ -123,7 +123,7 @@ func NewBoundedSumInt64(opt *BoundedSumInt64Options) (*BoundedSumInt64, error) {
 	}
 	lInf, err := getLInfInt(lower, upper, maxContributionsPerPartition)
 	if err != nil {
-		if noise.ToKind(opt.Noise) == noise.Unrecognised {
+		if noise.ToKind(n) == noise.Unrecognised {
 			// Ignore sensitivity overflows if noise is not recognised.
 			log.Warningf("NewBoundedSumInt64: getLInfInt failed with %q, using largest representable integer as lInf_sensitivity", err.Error())
 		} else {
@@ -438,7 +438,7 @@ func NewBoundedSumFloat64(opt *BoundedSumFloat64Options) (*BoundedSumFloat64, er
 		return nil, fmt.Errorf("NewBoundedSumFloat64: Lower and Upper must be set (automatic bounds determination is not implemented yet). Lower and Upper cannot be both 0")
 	}
 	var err error
-	switch noise.ToKind(opt.Noise) {
+	switch noise.ToKind(n) {
 	case noise.Unrecognised:
 		err = checks.CheckBoundsFloat64IgnoreOverflows(lower, upper)
 	default:
@@ -449,7 +449,7 @@ func NewBoundedSumFloat64(opt *BoundedSumFloat64Options) (*BoundedSumFloat64, er
 	}
 	lInf, err := getLInfFloat(lower, upper, maxContributionsPerPartition)
 	if err != nil {
-		if noise.ToKind(opt.Noise) == noise.Unrecognised {
+		if noise.ToKind(n) == noise.Unrecognised {
 			// Ignore sensitivity overflows if noise is not recognised.
 			log.Warningf("NewBoundedSumFloat64: getLInfFloat failed with %q, using largest representable integer as lInf_sensitivity", err.Error())
 		} else {
diff --git a/go/dpagg/variance.go b/go/dpagg/variance.go
index df5063d..7932f76 100644
--- a/go/dpagg/variance.go
+++ b/go/dpagg/variance.go
@@ -108,7 +108,7 @@ func NewBoundedVariance(opt *BoundedVarianceOptions) (*BoundedVariance, error) {
 	if lower == 0 && upper == 0 {
 		return nil, fmt.Errorf("NewBoundedVariance: Lower and  Upper must be set (automatic bounds determination is not implemented yet). Lower and Upper cannot be both 0")
 	}
-	switch noise.ToKind(opt.Noise) {
+	switch noise.ToKind(n) {
 	case noise.Unrecognised:
 		if err := checks.CheckBoundsFloat64IgnoreOverflows(lower, upper); err != nil {
 			return nil, fmt.Errorf("NewBoundedVariance: CheckBoundFloat64IgnoreOverflows: %w", err)
-- 
2.43.0


From cf9f5f307b77de09ad78ede90e59a41cb2d07188 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 06:39:33 +0000
Subject: [PATCH 63/66] fix: C++ GaussianMechanism built from a standard
 deviation had zero variance and empty confidence intervals

---
 cc/algorithms/numerical-mechanisms.cc | 2 +-
 cc/algorithms/numerical-mechanisms.h  | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/cc/algorithms/numerical-mechanisms.cc b/cc/algorithms/numerical-mechanisms.cc
index 7db1dd1..a4cb0ba 100644
--- a/cc/algorithms/numerical-mechanisms.cc
+++ b/cc/algorithms/numerical-mechanisms.cc
@@ -349,7 +349,7 @@ int64_t GaussianMechanism::MemoryUsed() {
 NumericalMechanism::NoiseConfidenceIntervalResult
 GaussianMechanism::UncheckedNoiseConfidenceInterval(
     double confidence_level, double noised_result) const {
-  const double stddev = CalculateStddev(GetEpsilon(), delta_, l2_sensitivity_);
+  const double stddev = CalculateStddev();
   // calculated using the symmetric properties of the Gaussian distribution
   // and the cumulative distribution function for the distribution
   double bound =
diff --git a/cc/algorithms/numerical-mechanisms.h b/cc/algorithms/numerical-mechanisms.h
index c261c42..2d0c326 100644
--- a/cc/algorithms/numerical-mechanisms.h
+++ b/cc/algorithms/numerical-mechanisms.h
@@ -425,8 +425,7 @@ class GaussianMechanism : public NumericalMechanism {
   double GetL2Sensitivity() const { return l2_sensitivity_; }
 
   double GetVariance() const override {
-    return std::pow(CalculateStddev(GetEpsilon(), GetDelta(), l2_sensitivity_),
-                    2);
+    return std::pow(CalculateStddev(), 2);
   }
 
   double Cdf(double x) const override {
-- 
2.43.0


From 92aa0b260941c0c491127487126a4e65aece05ac Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 06:39:33 +0000
Subject: [PATCH 64/66] fix: C++ Laplace partition selection threshold was too
 low for delta above one half

---
 cc/algorithms/partition-selection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cc/algorithms/partition-selection.h b/cc/algorithms/partition-selection.h
index e6808dd..0ee3e86 100644
--- a/cc/algorithms/partition-selection.h
+++ b/cc/algorithms/partition-selection.h
@@ -402,7 +402,7 @@ class LaplacePartitionSelection : public PartitionSelectionStrategy {
     ASSIGN_OR_RETURN(double adjusted_delta,
                      CalculateAdjustedDelta(delta, max_partitions_contributed));
 
-    if (delta > 0.5) {
+    if (adjusted_delta > 0.5) {
       return 1 + CalculateDiversity(epsilon, max_partitions_contributed) *
                      std::log(2 * (1 - adjusted_delta));
     } else {
-- 
2.43.0


From 80ab9f1855e7de100926c13517c5975af405d6b2 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 06:39:33 +0000
Subject: [PATCH 65/66] fix: C++ BoundedVariance of integers rounded the
 midpoints, exceeding the sensitivity of the noise

---
 cc/algorithms/bounded-variance.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cc/algorithms/bounded-variance.h b/cc/algorithms/bounded-variance.h
index de82899..f0ec94a 100644
--- a/cc/algorithms/bounded-variance.h
+++ b/cc/algorithms/bounded-variance.h
@@ -159,9 +159,9 @@ class BoundedVariance : public Algorithm<T> {
   static double MidpointOfSquares(T lower, T upper) {
     DCHECK_GE(upper, lower);
     if (0 > lower && 0 < upper) {
-      return std::max(lower * lower, upper * upper) / 2;
+      return std::max(lower * lower, upper * upper) / 2.0;
     }
-    return lower * lower + (upper * upper - lower * lower) / 2;
+    return lower * lower + (upper * upper - lower * lower) / 2.0;
   }
 
   // Friend class for testing only
@@ -245,7 +245,7 @@ class BoundedVarianceWithFixedBounds : public BoundedVariance<T> {
 
  protected:
   absl::StatusOr<Output> GenerateResult(double noise_interval_level) override {
-    const double sum_midpoint = lower_ + ((upper_ - lower_) / 2);
+    const double sum_midpoint = lower_ + ((upper_ - lower_) / 2.0);
     const double sum_of_squares_midpoint =
         BoundedVariance<T>::MidpointOfSquares(lower_, upper_);
 
@@ -482,7 +482,7 @@ class BoundedVarianceWithApproxBounds : public BoundedVariance<T> {
     const double noised_count = count_mechanism_->AddNoise(partial_count_);
 
     // Calculate noised normalized sum
-    const T sum_midpoint = lower + ((upper - lower) / 2);
+    const double sum_midpoint = lower + ((upper - lower) / 2.0);
     ASSIGN_OR_RETURN(
         std::unique_ptr<NumericalMechanism> sum_mechanism,
         BoundedVariance<T>::BuildSumMechanism(
-- 
2.43.0


From 01f9e77d35464a2951c10ea71b40e8315708a103 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 06:39:33 +0000
Subject: [PATCH 66/66] fix: C++ QuantileTree overflowed the product of
 partitions and height

---
 cc/algorithms/quantile-tree.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cc/algorithms/quantile-tree.h b/cc/algorithms/quantile-tree.h
index 854d4a8..2df5469 100644
--- a/cc/algorithms/quantile-tree.h
+++ b/cc/algorithms/quantile-tree.h
@@ -94,8 +94,9 @@ class QuantileTree {
         std::unique_ptr<NumericalMechanism> mech,
         params.mechanism_builder->SetEpsilon(params.epsilon)
             .SetDelta(params.delta)
-            .SetL0Sensitivity(params.max_partitions_contributed_to *
-                              tree_.GetHeight())
+            .SetL0Sensitivity(
+                static_cast<double>(params.max_partitions_contributed_to) *
+                tree_.GetHeight())
             .SetLInfSensitivity(params.max_contributions_per_partition)
             .Build());
     return Privatized(upper_, lower_, std::move(mech), tree_);
-- 
2.43.0

