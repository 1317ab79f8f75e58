From c20eb5024db99d2356128a71640236ab63ed9654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 01/50] fix: base arm update increments the pull counter
 instead of a read-only property

---
 causal_effect_bandits/arms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 6d7d320..374b694 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -88,7 +88,7 @@ class VarianceEstimatorArm:
     """
     del new_data, delta  # for subclassing
     self._ci = (0, np.inf)  # default ci.
-    self.num_pulled += 1
+    self._num_pulled += 1
     return self._ci
 
   def reset(self) -> None:
-- 
2.43.0


From 18a4c417ac6d6daf13642cfca231039f0bdfe6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 02/50] fix: resetting an arm restores its initial confidence
 interval

---
 causal_effect_bandits/arms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 374b694..144d54e 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -93,7 +93,7 @@ class VarianceEstimatorArm:
 
   def reset(self) -> None:
     """Resets the arm to its default state."""
-    self._ci = (None, None)
+    self._ci = (-np.inf, np.inf)
     self._eta.reset()
     self._ate = None
     self._var_est = None
-- 
2.43.0


From 724554cc782fd04c9ec02a49b6606e884304e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 03/50] fix: arms without stable splits re-split all their data
 instead of dropping it

---
 causal_effect_bandits/arms.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 144d54e..9386a69 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -213,7 +213,11 @@ class SampleSplittingArm(VarianceEstimatorArm):
         for i in range(2):
           self._split_data[i].append(new_split[i])
       else:
-        self._split_data = self._data_transformer(new_data).k_fold(2)
+        # Pool everything seen so far with the new data and split it afresh.
+        pooled = self._split_data[0]
+        pooled.append(self._split_data[1])
+        pooled.append(self._data_transformer(new_data))
+        self._split_data = pooled.k_fold(2)
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
@@ -340,8 +344,12 @@ class BootstrapArm(VarianceEstimatorArm):
         for i in range(self.n_splits):
           self._split_data[i].append(new_split[i])
       else:
-        self._split_data = self._data_transformer(new_data).k_fold(
-            self.n_splits)
+        # Pool everything seen so far with the new data and split it afresh.
+        pooled = self._split_data[0]
+        for fold in self._split_data[1:]:
+          pooled.append(fold)
+        pooled.append(self._data_transformer(new_data))
+        self._split_data = pooled.k_fold(self.n_splits)
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
-- 
2.43.0


From 34bfa039f72b9856457011aceb5634d5827ba6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 04/50] fix: split-sample arm with fewer than two held-out
 units reports a vacuous interval

---
 causal_effect_bandits/arms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 9386a69..edf400f 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -224,7 +224,8 @@ class SampleSplittingArm(VarianceEstimatorArm):
 
     # We need to check that all folds and all control, treatment groups
     # Have at least one unit. Otherwise, return [0, np.inf) for the confidence.
-    if not self._eta.has_enough_samples():
+    # A variance also needs at least two held-out units.
+    if not self._eta.has_enough_samples() or len(self._split_data[1]) < 2:
       self._ci = (0, np.inf)
       self._ate = np.nan
       self._var_est = np.inf
-- 
2.43.0


From 3172cecd743c25e28d5c801aa71d0659624f58ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 05/50] fix: CLT intervals of all pulls share the error budget
 delta

---
 causal_effect_bandits/arms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index edf400f..f2ef0c8 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -250,7 +250,8 @@ class SampleSplittingArm(VarianceEstimatorArm):
       self._ci = (ci_low, ci_high)
 
     elif self._ci_algorithm is CIAlgorithm.CLT:
-      clt_delta = delta / self._num_pulled**2
+      # The levels of all pulls sum to at most delta: sum_k 1/k^2 = pi^2/6.
+      clt_delta = 6 * delta / (np.pi * self._num_pulled)**2
       n = self._split_data[1].n_units
       scores = self._eta.calculate_score(self._split_data[1])
       var_of_var = np.var((scores - self._ate)**2)
-- 
2.43.0


From 8addbf55d888ad65862e1ef187449c0f98b4d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 06/50] fix: bootstrap arm reports the number of units it has
 seen

---
 causal_effect_bandits/arms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index f2ef0c8..0540916 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -384,3 +384,9 @@ class BootstrapArm(VarianceEstimatorArm):
     self._var_est = np.var(self._eta.calculate_score(self._split_data[1]))
 
     return self._ci
+
+  def get_num_units(self) -> int:
+    """Returns the number of units seen by this arm."""
+    if self._split_data is None:
+      return 0
+    return sum(len(data) for data in self._split_data)
-- 
2.43.0


From 8fc56f8f1f7d720df1dc784403607934f6fbf9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:33 +0000
Subject: [PATCH 07/50] fix: bootstrap arm estimates use the fit on the whole
 first split

---
 causal_effect_bandits/arms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 0540916..999254b 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -378,6 +378,9 @@ class BootstrapArm(VarianceEstimatorArm):
     ci_high = b_samples[int(np.ceil((1 - delta / 2) * n_bootstraps)) - 1]
     self._ci = (ci_low, ci_high)
 
+    # The bootstrap refitted eta on subsamples; restore the fit on the first split
+    self._eta.fit(self._split_data[0])
+
     # Use the second split to learn the ATE and variance
     self._ate = np.mean(self._eta.calculate_score(self._split_data[1]))
 
-- 
2.43.0


From 9013c2623007f6a475637f44d88555a20884255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 08/50] fix: bootstrap arm without enough data reports a
 vacuous interval, not NaN

---
 causal_effect_bandits/arms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 999254b..7e1da1f 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -356,6 +356,13 @@ class BootstrapArm(VarianceEstimatorArm):
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
 
+    # As in SampleSplittingArm, without enough data the interval is vacuous.
+    if not self._eta.has_enough_samples() or len(self._split_data[1]) < 2:
+      self._ci = (0, np.inf)
+      self._ate = np.nan
+      self._var_est = np.inf
+      return self._ci
+
     if self.n_bootstraps == 0:
       n_bootstraps = int(np.ceil(4 / delta))
     else:
-- 
2.43.0


From 767550eda11d5e74ba598c06168de107c620c9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 09/50] fix: LUCB picks leader and challenger from their own
 sets, and survives all-tied estimates

---
 causal_effect_bandits/bandits.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index da69ce9..2fc7191 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -397,15 +397,17 @@ class LUCBAlgorithm(BAIBanditAlgorithm):
       )
       return np.random.choice(self._arms, size=2, replace=False)
 
-    best_arm_mask = [v == lowest_var for v in var_ests]
+    best_arm_mask = np.array([v == lowest_var for v in var_ests])
+    if all(best_arm_mask):  # there is no remaining arm to compare with
+      return np.random.choice(self._arms, size=2, replace=False)
 
     # Select the arm in this set with the highest ucb
     high_ucb = max(ucbs[best_arm_mask])
-    high_ucb_mask = [u == high_ucb for u in ucbs]
+    high_ucb_mask = best_arm_mask & (ucbs == high_ucb)
 
     # Also select the arm with the lowest lcb of the remaining arms
-    low_lcb = min(lcbs[[not i for i in best_arm_mask]])
-    low_lcb_mask = [l == low_lcb for l in lcbs]
+    low_lcb = min(lcbs[~best_arm_mask])
+    low_lcb_mask = ~best_arm_mask & (lcbs == low_lcb)
 
     # We will pick between these two arms
     u_index = np.random.choice(np.arange(self._num_arms)[high_ucb_mask])
-- 
2.43.0


From 0d9458c11705a6d41e9dea4f53bf1e849289ac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 10/50] fix: sample_limit=None means no limit, as documented

---
 causal_effect_bandits/bandits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 2fc7191..5fe3992 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -120,6 +120,8 @@ class BAIBanditAlgorithm:
     if error_tol < 0.0:
       raise ValueError(f"error_tol={error_tol}; must be nonnegative.")
     self.error_tol = error_tol
+    if sample_limit is None:  # no limit on the number of samples
+      sample_limit = np.inf
     if confidence is None and np.isinf(sample_limit):
       raise ValueError(
           "Either the confidence or the number of rounds must be specified")
-- 
2.43.0


From c166026858602a7f5101f6c71825ecded274b732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 11/50] fix: error_tol relaxes the end condition instead of
 tightening it

---
 causal_effect_bandits/bandits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 5fe3992..d2cd2ec 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -169,7 +169,7 @@ class BAIBanditAlgorithm:
     remaining_lcbs = [
         lcbs[i] for i in range(len(self._arms)) if i != min_var_arm
     ]
-    return (ucbs[min_var_arm] < min(remaining_lcbs) - self.error_tol,
+    return (ucbs[min_var_arm] < min(remaining_lcbs) + self.error_tol,
             [self._arms[min_var_arm]])
 
   def _select_arms_with_mask(self, boolean_mask):
-- 
2.43.0


From a91f397461d1ea7b3883ff8b11068e6b3a0b0f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 12/50] fix: successive elimination never returns an arm it has
 eliminated

---
 causal_effect_bandits/bandits.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index d2cd2ec..e041139 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -491,10 +491,12 @@ class SuccessiveEliminationAlgorithm(BAIBanditAlgorithm):
     while len(candidate_arms) > 1:
       epoch += 1
       if total_samples > self.sample_limit:
-        _, _, var_ests = self.collect_bounds()
-        # Select the arms with the lowest var estimates.
-        candidate_arms = self._select_arms_with_mask(
-            [v == min(var_ests) for v in var_ests])
+        # Select the candidate arms with the lowest var estimates.
+        lowest_var = min(arm.cost * arm.var_est for arm in candidate_arms)
+        candidate_arms = [
+            arm for arm in candidate_arms
+            if arm.cost * arm.var_est == lowest_var
+        ]
         break
 
       for arm in candidate_arms:
-- 
2.43.0


From 6e30e83190e0ceb16bf379d601806eefd51217b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 13/50] fix: successive elimination keeps the best arm when its
 interval has zero width

---
 causal_effect_bandits/bandits.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index e041139..87580f3 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -532,10 +532,12 @@ class SuccessiveEliminationAlgorithm(BAIBanditAlgorithm):
           if low_var_mask[i]
       ])
 
-      # We now eliminate all arms with lcbs that are larger than lowest_ucb.
+      # We now eliminate all arms with lcbs that are not below lowest_ucb,
+      # except the best arm itself (whose interval could have zero width).
       new_candidate_arms = []
-      for arm in candidate_arms:
-        if lcb_by_arm[arm][-1] < lowest_ucb:
+      for i, arm in enumerate(candidate_arms):
+        is_best = low_var_mask[i] and ucb_by_arm[arm][-1] == lowest_ucb
+        if is_best or lcb_by_arm[arm][-1] < lowest_ucb:
           new_candidate_arms.append(arm)
       candidate_arms = new_candidate_arms
 
-- 
2.43.0


From b9b51b75d23e922eb8af4518e00d5f23df446446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 14/50] fix: a failed ExpData.append leaves the data unchanged

---
 causal_effect_bandits/data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 51fd892..10e16e8 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -68,14 +68,15 @@ class ExpData:
     """Appends the new data."""
     if new_data.n_features != self.n_features:
       raise ValueError("The new data has incompatible shape")
+    # Check everything before changing anything.
+    if self.exp is not None and new_data.exp is None:
+      raise ValueError("new_data.exp is missing but expected")
+    if self.rsp is not None and new_data.rsp is None:
+      raise ValueError("new_data.rsp is missing but expected")
     self.cov = np.r_[self.cov, new_data.cov]
     if self.exp is not None:
-      if new_data.exp is None:
-        raise ValueError("new_data.exp is missing but expected")
       self.exp = np.r_[self.exp, new_data.exp]
     if self.rsp is not None:
-      if new_data.rsp is None:
-        raise ValueError("new_data.rsp is missing but expected")
       self.rsp = np.r_[self.rsp, new_data.rsp]
 
     self.n_units = self.cov.shape[0]
-- 
2.43.0


From 56af704103f54ae1a7d69b3702347b5cdef308c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 15/50] fix: the default DataGenerator.generate no longer
 raises TypeError

---
 causal_effect_bandits/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 10e16e8..e552cbf 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -222,7 +222,7 @@ class DataGenerator:
 
   def generate(self, n_samples: int):
     return ExpData(
-        np.zeros(n_samples, 1),
+        np.zeros((n_samples, 1)),
         np.zeros(n_samples),
         np.zeros(n_samples),
     )
-- 
2.43.0


From 714158601340f79cd57d8d945d16799e9e68ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 16/50] fix: LinearDataGenerator uses the noise whose length it
 checked

---
 causal_effect_bandits/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index e552cbf..c14d652 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -281,7 +281,7 @@ class LinearDataGenerator(DataGenerator):
       raise ValueError(
           f"noise_model's output is {len(noise)} but should be {n_samples}.")
 
-    y = x.dot(self._beta) + self._tau * t + self._noise_model(n_samples)
+    y = x.dot(self._beta) + self._tau * t + noise
     return ExpData(x, t, y)
 
   @property
-- 
2.43.0


From 8e9b687ec6ae77cb0a11b632dcbd6753fca448d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 17/50] fix: refitting a TabularCPD forgets the support of the
 previous data

---
 causal_effect_bandits/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index c14d652..a913834 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -347,6 +347,8 @@ class TabularCPD:
     default_fn = lambda: collections.defaultdict(lambda: 0.0)
     self.table = collections.defaultdict(default_fn)
     self.x_marginal = collections.defaultdict(lambda: 0.0)
+    self.x_values = {}
+    self.z_values = {}
     for xi, zi in zip(x, z):
       self.table[xi.tobytes()][
           zi.tobytes()] = self.table[xi.tobytes()][zi.tobytes()] + 1
-- 
2.43.0


From 69030c35a4905ed2b626e819e0c14e7d8b86f83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:22 +0000
Subject: [PATCH 18/50] fix: smoothed TabularCPD rows sum to one and respect
 the minimum probability

---
 causal_effect_bandits/data.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index a913834..98b74cc 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -368,22 +368,23 @@ class TabularCPD:
       x_table = self.table[x_key]
       num_samples = sum(x_table.values())
       self.x_marginal[x_key] = num_samples / self.n_units
-      non_violating_z = []
-      total_violations = 0
       for z_key in self.z_values:
         x_table[z_key] = x_table[z_key] / num_samples
-        if x_table[z_key] < self.min_prob:
+      # Raise the probabilities below min_prob and lower the other ones equally
+      # to make P(Z|x = x_key) sum to 1. Lowering can push more probabilities
+      # below min_prob, so we repeat until there are none.
+      non_violating_z = list(self.z_values)
+      while True:
+        violating_z = [z for z in non_violating_z if x_table[z] < self.min_prob]
+        if not violating_z or len(violating_z) == len(non_violating_z):
+          break
+        total_violations = 0
+        for z_key in violating_z:
           total_violations += self.min_prob - x_table[z_key]
           x_table[z_key] = self.min_prob
-        elif x_table[z_key] > 1 - self.min_prob:
-          total_violations += x_table[z_key] - (1 - self.min_prob)
-          x_table[z_key] = 1 - self.min_prob
-        else:
-          non_violating_z.append(z_key)
-      # Now, we adjust non_violating_z to make P(Z|x = x_key) sum to 1
-      for z_key in non_violating_z:
-        x_table[z_key] = (
-            x_table[z_key] - total_violations / len(non_violating_z))
+          non_violating_z.remove(z_key)
+        for z_key in non_violating_z:
+          x_table[z_key] -= total_violations / len(non_violating_z)
 
   def x_support(self):
     return list(self.x_values.values())
-- 
2.43.0


From dcedd846dd0c7cc366b29f19aea07153cd8fefa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 19/50] fix: SCM.compute_treatment_effect works and always
 restores the model

---
 causal_effect_bandits/scm.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index a70a02b..ec3e053 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -114,15 +114,16 @@ class SCM(data.DataGenerator):
       An estimate of the ATE of the SCM.
     """
     old_t_cpd = self.cpds[self.treatment_variable]
-    treatment_cpd = lambda n, parents: self.deterministic_cpd(n, 1)
-    self.cpds[self.treatment_variable] = treatment_cpd
-    treatment_sample = self.generate(n_samples)
-
-    control_cpd = lambda n, parents: self.deterministic_cpd(n, 0)
-    self.cpds[self.treatment_variable] = control_cpd
-    control_sample = self.generate(n_samples)
-
-    self.cpds[self.treatment_variable] = old_t_cpd
+    try:
+      treatment_cpd = lambda n, parents: deterministic_cpd(n, 1)
+      self.cpds[self.treatment_variable] = treatment_cpd
+      treatment_sample = self.generate(n_samples)
+
+      control_cpd = lambda n, parents: deterministic_cpd(n, 0)
+      self.cpds[self.treatment_variable] = control_cpd
+      control_sample = self.generate(n_samples)
+    finally:  # leave the model as it was, also if a cpd raised
+      self.cpds[self.treatment_variable] = old_t_cpd
     return np.mean(treatment_sample.rsp) - np.mean(control_sample.rsp)
 
 
-- 
2.43.0


From b063bc6597a29ea9ee623c3455ce329c98a8c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 20/50] fix: categorical_conditioning does not modify the
 caller's parents list

---
 causal_effect_bandits/scm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index ec3e053..818e30c 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -151,6 +151,7 @@ def categorical_conditioning(parents, conditioning_on_idx, distributions):
         "Treatment_idx is greater than the number of distributions.")
   # Remove treatment_idx from parents
   distribution_indices = parents[conditioning_on_idx]
+  parents = list(parents)  # leave the caller's list alone
   del parents[conditioning_on_idx]
 
   samples = []
-- 
2.43.0


From 57366f892751468433018d9ae1807625ab57b0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 21/50] fix: linear CPDs accept integer-valued parents next to
 real-valued ones

---
 causal_effect_bandits/scm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index 818e30c..2b28626 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -181,7 +181,7 @@ def normal_cpd(parents, betas, mean, cov):
   n_units = len(parents[0])
   total_mean = parents[0].dot(betas[0])
   for i in range(1, len(parents)):
-    total_mean += parents[i].dot(betas[i])
+    total_mean = total_mean + parents[i].dot(betas[i])
   if total_mean.ndim == 1:  # Y is univariate
     return total_mean + np.random.normal(mean, np.sqrt(cov), size=n_units)
   else:
@@ -236,7 +236,7 @@ def transformed_normal_cpd(parents, betas, fns, mean, cov):
     raise ValueError("parents and fns should be the same length.")
   total_mean = fns[0](parents[0].dot(betas[0]))
   for i in range(1, len(parents)):
-    total_mean += fns[i](parents[i].dot(betas[i]))
+    total_mean = total_mean + fns[i](parents[i].dot(betas[i]))
 
   # infer whether the output should be 1 or 2 dim from mean
   if np.ndim(mean) == 0:  # we should return (n_units,) array
@@ -304,7 +304,7 @@ def logistic_linear_bernoulli_cpd(parents, gammas):
   def f(parents):
     params = 0
     for i in range(len(parents)):
-      params += parents[i].dot(gammas[i])
+      params = params + parents[i].dot(gammas[i])
     return params
 
   return logistic_bernoulli_cpd(parents, f)
-- 
2.43.0


From 5fb890dbab5fa6abb0d78c05b219a4441afa591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 22/50] fix: LinearParameterBinaryTreatment recognizes data
 lacking treated or control units

---
 causal_effect_bandits/parameters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index f9a953d..c2883f1 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -195,7 +195,7 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
 
     self.recent_data = d
 
-    if treat_data == 0 or cont_data == 0:
+    if not treat_data or not cont_data:
       logging.warning(
           "Nuisance parameter was fit on data not including treatment and control"
       )
@@ -274,6 +274,9 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
     self.cont_response.coef_ = data_gen.beta
     self.cont_response.intercept_ = 0
 
+  def has_enough_samples(self) -> bool:
+    return self._has_been_fit
+
 
 class Predictor(Protocol):
 
-- 
2.43.0


From f14f7ab2623a4f718bf677e88768b50a24c29b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:40 +0000
Subject: [PATCH 23/50] fix: LinearRegressionParameter can be reset

---
 causal_effect_bandits/parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index c2883f1..fa2426f 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -878,6 +878,9 @@ class LinearRegressionParameter(NuisanceParameter):
     self._model = np.zeros(((n_features + 1), (n_features + 1)))
     self.l_reg = l_reg
 
+  def reset(self):
+    self.__init__(self._cov_dim, self.l_reg)
+
   def fit(self, d: data.ExpData):
     """Fits eta to the provided experimental d.
 
-- 
2.43.0


From b73604ad7cdb298da647e92bb251e5837719a194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 24/50] fix: confidence widths of rank-deficient data are
 infinite, not NaN or complex

---
 causal_effect_bandits/parameters.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index fa2426f..2dfa684 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -390,7 +390,10 @@ class AIPW(NuisanceParameter):
     radius = np.sqrt(numerator - denominator)
 
     norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
-    w, _ = np.linalg.eig(norm_matrix)
+    # norm_matrix is symmetric up to rounding errors
+    w = np.linalg.eigvalsh((norm_matrix + norm_matrix.transpose()) / 2)
+    if min(w) <= 0:  # the data do not span all directions
+      return np.inf
     mu_radius = radius / np.sqrt(min(w))
 
     eta_radius = mu_radius
@@ -656,7 +659,10 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     radius = np.sqrt(numerator - denominator)
 
     norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
-    w, _ = np.linalg.eig(norm_matrix)
+    # norm_matrix is symmetric up to rounding errors
+    w = np.linalg.eigvalsh((norm_matrix + norm_matrix.transpose()) / 2)
+    if min(w) <= 0:  # the data do not span all directions
+      return np.inf
     mu_radius = radius / np.sqrt(min(w))
 
     def uniform_boundary(n, delta):
-- 
2.43.0


From ebbf6231993404689fe7f1ab10edfce14f692966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 25/50] fix: front-door scores handle covariates with several
 features

---
 causal_effect_bandits/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 2dfa684..37e65f1 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -756,8 +756,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
                          np.tile(z,
                                  (len(d), 1))]))  # mu_y(z, X=1), z in support
       f_1 += mu_yzx_i * (
-          self.cov_given_exp.predict(np.array([1]), z) -
-          self.cov_given_exp.predict(np.array([0]), z))
+          self.cov_given_exp.predict(np.array([1]), [z]) -
+          self.cov_given_exp.predict(np.array([0]), [z]))
 
       f_3 += (
           self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x1
-- 
2.43.0


From 1c2dcb6c7c2935ac03c6127cb1f4344f43917c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 26/50] fix: front-door estimator does not depend on the
 numeric type of the exposure

---
 causal_effect_bandits/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 37e65f1..fa23ca1 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -626,7 +626,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     self.y_response.fit(np.array(np.c_[d.exp, d.cov]), d.rsp)
     self.exp_prob = np.clip(
         np.mean(d.exp), self._min_overlap, 1 - self._min_overlap)
-    self.cov_given_exp.fit(d.exp, d.cov)
+    self.cov_given_exp.fit(np.asarray(d.exp, dtype=int), d.cov)
 
     self._has_been_fit = True
 
@@ -733,7 +733,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     mu_y_zx = self.y_response.predict(np.array(np.c_[d.exp, d.cov]))
     p_z_x1 = self.cov_given_exp.predict(np.ones(n_units, dtype=int), d.cov)
     p_z_x0 = self.cov_given_exp.predict(np.zeros(n_units, dtype=int), d.cov)
-    p_z_x = self.cov_given_exp.predict(d.exp, d.cov)
+    p_z_x = self.cov_given_exp.predict(np.asarray(d.exp, dtype=int), d.cov)
 
     p_z_x1 = np.clip(p_z_x1, self._min_overlap, 1 - self._min_overlap)
     p_z_x0 = np.clip(p_z_x0, self._min_overlap, 1 - self._min_overlap)
-- 
2.43.0


From 4a61897d6c9b4e975ed671ea75f6e227e57ba0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 27/50] fix: last term of the front-door score averages over
 P(z'|X) as the influence function requires

---
 causal_effect_bandits/parameters.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index fa23ca1..7fd88f7 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -557,7 +557,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       + sum_x' mu_Y(x',X)(P(Z=x'|X=1) - P(Z=x'|X=0))
       + (X/P(X) - (1-X)(1-P(X)) * {
         sum_{t'} mu_Y(Z,t')f(t')
-        - sum_{x', t'} mu_Y(x', t')P(Z|t')P(t')
+        - sum_{x', t'} mu_Y(x', t')P(Z=x'|X)P(t')
       }
 
   We assume a binary X. We thus need to estimate two densities, P(Z|X=1) and
@@ -695,7 +695,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       4:  W(z_i) = (z_i / P(X=1) - (1-z_i) / P(X=0))),
       5:  f_1(x_i) = sum_z' mu_Y(z',x_i)(P(Z=z'|X=1) - P(Z=z'|X=0)),
       6:  f_2(z_i) = sum_{x'} mu_Y(z_i,x') P(X=x'),
-      7:  f_3(z_i) = sum_{z', x'} mu_Y(z', x') P(z_i|X=x') P(X=x'),
+      7:  f_3(x_i) = sum_{z', x'} mu_Y(z', x') P(Z=z'|X=x_i) P(X=x'),
     )
 
     The corresponding phi function is
@@ -704,7 +704,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       + sum_z' mu_Y(z',X)(P(Z=z'|X=1) - P(Z=z'|X=0))
       + (X/P(X) - (1-X)(1-P(X)) * {
         sum_{x'} mu_Y(Z,x')P(x')
-        - sum_{z', x'} mu_Y(z', x')P(Z|x')P(x')
+        - sum_{z', x'} mu_Y(z', x')P(Z=z'|X)P(x')
       }
     Which translates to
      phi(W,eta) =
@@ -759,10 +759,11 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
           self.cov_given_exp.predict(np.array([1]), [z]) -
           self.cov_given_exp.predict(np.array([0]), [z]))
 
-      f_3 += (
-          self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x1
-          + self.y_response.predict([np.insert(z, 0, 0)]) *
-          (1 - self.exp_prob) * p_z_x0)
+      p_zx_i = self.cov_given_exp.predict(  # P(z|x_i), z in support
+          np.asarray(d.exp, dtype=int), np.tile(z, (len(d), 1)))
+      f_3 += p_zx_i * (
+          self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob +
+          self.y_response.predict([np.insert(z, 0, 0)]) * (1 - self.exp_prob))
 
     w = d.exp / self.exp_prob - (1 - d.exp) / (1 - self.exp_prob)
 
@@ -791,7 +792,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       4:  W(x_i) = (x_i / P(X=1) - (1-x_i) / P(X=0))),
       5:  f_1(x_i) = sum_z' mu_Y(z',x_i)(P(Z=z'|X=1) - P(Z=z'|X=0)),
       6:  f_2(z_i) = sum_{x'} mu_Y(z_i,x') P(X=x'),
-      7:  f_3(z_i) = sum_{z', x'} mu_Y(z', x') P(Z=z_i|X=x') P(X=x'),
+      7:  f_3(x_i) = sum_{z', x'} mu_Y(z', x') P(Z=z'|X=x_i) P(X=x'),
     )
 
     The corresponding phi function is
@@ -800,7 +801,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       + sum_z' mu_Y(z',X)(P(Z=z'|X=1) - P(Z=z'|X=0))
       + (X/P(X) - (1-X)(1-P(X)) * {
         sum_{x'} mu_Y(Z,x')P(x')
-        - sum_{z', x'} mu_Y(z', x')P(Z|x')P(x')
+        - sum_{z', x'} mu_Y(z', x')P(Z=z'|X)P(x')
       }
     Which translates to
      phi(W,eta) =
-- 
2.43.0


From a31c97b8a768f5309e02fab95d238b51d260a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 28/50] fix: set_to_truth also works on an estimator that has
 not been fitted

---
 causal_effect_bandits/parameters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 7fd88f7..0740506 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -273,6 +273,7 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
     self.treat_response.coef_ = data_gen.beta
     self.cont_response.coef_ = data_gen.beta
     self.cont_response.intercept_ = 0
+    self._has_been_fit = True
 
   def has_enough_samples(self) -> bool:
     return self._has_been_fit
@@ -476,8 +477,11 @@ class AIPW(NuisanceParameter):
       raise ValueError(("The DataGenerator is not a LinearDataGenerator and is "
                         "not identifiable in this model"))
     self.response.coef_ = np.r_[data_gen.tau, data_gen.beta]
+    self.response.intercept_ = 0.0
     self.propensity.coef_ = data_gen.gamma.reshape(1, self._cov_dim)
-    self.propensity.intercept_ = 0
+    self.propensity.intercept_ = np.zeros(1)
+    self.propensity.classes_ = np.array([0, 1])
+    self._has_been_fit = True
 
   def has_enough_samples(self) -> bool:
     return self._has_been_fit
-- 
2.43.0


From 9d7a472424ecbe758885219d5b7675479f28a86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 29/50] fix: paper arms select the columns of the covariates in
 their names

---
 causal_effect_bandits/paper_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index cb15e16..b18a525 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -481,7 +481,6 @@ def generate_example_from_cpd(
   for i in range(1, num_back_door_paths + 1):
     var_names.append('V' + str(i))
     var_names.append('Z' + str(i))
-    cov_variables.append('V' + str(i))
     cov_variables.append('Z' + str(i))
     parents['V' + str(i)] = []
     parents['Z' + str(i)] = ['V' + str(i)]
@@ -489,6 +488,8 @@ def generate_example_from_cpd(
     parents['X'].append('V' + str(i))
 
   var_names.extend(['X', 'Z0', 'Y'])
+  # All the Z_i come before all the V_i, as the indices below assume.
+  cov_variables.extend(['V' + str(i) for i in range(1, num_back_door_paths + 1)])
 
   scm_gen = scm.SCM(
       'Section 5 SCM',
-- 
2.43.0


From 243a2c73efef09eb2a3bbd0a45199352683ece88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 30/50] fix: the output components of a random nonlinear
 function are different functions

---
 causal_effect_bandits/nonlinear_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/nonlinear_utils.py b/causal_effect_bandits/nonlinear_utils.py
index ca3b31f..a0762cc 100644
--- a/causal_effect_bandits/nonlinear_utils.py
+++ b/causal_effect_bandits/nonlinear_utils.py
@@ -79,13 +79,14 @@ def generate_random_nd_function(
   # create a cartesian product
   x = np.array(list(itertools.product(*[x1d] * dim))) * (max_x - min_x) + min_x
   # Choose a random starting state
+  if seed is None:
+    seed = np.random.randint(10000)
+  rng = np.random.RandomState(seed)  # shared, so that the components differ
   fns = []
   for _ in range(out_dim):
     fns.append(gaussian_process.GaussianProcessRegressor(kernel, alpha=alpha))
-    if seed is None:
-      seed = np.random.randint(10000)
     # Sample from a prior
-    y = fns[-1].sample_y(x, 1, random_state=seed)
+    y = fns[-1].sample_y(x, 1, random_state=rng)
     # Fit the GP to this prior
     fns[-1].fit(x, y)
 
-- 
2.43.0


From 73b2223d2554124b9bb43f259fdd4d597cbf5193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 31/50] fix: Section 5.2 instances are determined by their seed

---
 causal_effect_bandits/paper_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index b18a525..912ecec 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -197,7 +197,7 @@ def get_section_5_2_cpds(
 
   beta = [.2 * rng.standard_normal(size=(z_dim[0]))]
   for i in range(1, num_back_door_paths + 1):
-    strength = np.random.uniform(.1, 1.9)
+    strength = rng.uniform(.1, 1.9)
     # V
     mu_v.append(0 * rng.standard_normal(size=v_dim[i]))
     cov_v.append(1 * np.identity(v_dim[i]))
@@ -266,6 +266,7 @@ def get_section_5_2_cpds(
             min_x=-2,
             max_x=2,
             n_points=10,
+            seed=int(rng.integers(10000)),
             alpha=1e0))
 
   # f_y should have shape (n_units,1)
@@ -281,6 +282,7 @@ def get_section_5_2_cpds(
             min_x=-2,
             max_x=2,
             n_points=10,
+            seed=int(rng.integers(10000)),
             alpha=1e0))
 
   # f_x should have shape (n_units,1)
@@ -325,6 +327,7 @@ def get_section_5_2_cpds(
         min_x=-1,
         max_x=1,
         n_points=10,
+        seed=int(rng.integers(10000)),
         alpha=1e0)
     cpds['V' + str(i)] = make_v_cpd(mean=mu_v[i], cov=cov_v[i])
     cpds['Z' + str(i)] = make_z_cpd(f=f_z, mean=mu_z[i], cov=cov_z[i])
-- 
2.43.0


From 76598abab38e7c43c807550f7609d3e4f8edd39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 32/50] fix: var_y of the back-door example accounts for the
 covariance of X and Z

---
 causal_effect_bandits/example_scm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/example_scm.py b/causal_effect_bandits/example_scm.py
index 829bf68..60cac98 100644
--- a/causal_effect_bandits/example_scm.py
+++ b/causal_effect_bandits/example_scm.py
@@ -46,7 +46,8 @@ def back_door_scm():
   mu_x = .5 + alpha * p
   var_x = mu_x * (1 - mu_x)
   mu_y = tau * mu_x + beta * mu_z
-  var_y = 1 + tau**2 * var_x + beta**2 * var_z
+  cov_xz = alpha * var_z
+  var_y = 1 + tau**2 * var_x + beta**2 * var_z + 2 * tau * beta * cov_xz
 
   # populate the CPDs
   def y_cpd(_, parents):
-- 
2.43.0


From d485b78c4e244799b16dd8de4c5f36cf6032899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 33/50] fix: var_y of the front-door example includes the cross
 term of Z and U

---
 causal_effect_bandits/example_scm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/example_scm.py b/causal_effect_bandits/example_scm.py
index 60cac98..01c0219 100644
--- a/causal_effect_bandits/example_scm.py
+++ b/causal_effect_bandits/example_scm.py
@@ -122,8 +122,8 @@ def frontdoor_scm():
   pz1u0 = (g(beta) / 2 + 1 / 4) * (1 - p)
   pz0u1 = ((1 - g(beta)) * g(alpha_1) + (1 - g(alpha_1)) / 2) * p
   # Take the expectation of Y^2 by hand.
-  mu_y2 = 1 + (gamma**2 +
-               alpha_2**2) * pz1u1 + gamma**2 * pz1u0 + alpha_2**2 * pz0u1
+  mu_y2 = 1 + (gamma +
+               alpha_2)**2 * pz1u1 + gamma**2 * pz1u0 + alpha_2**2 * pz0u1
   var_y = mu_y2 - mu_y**2
 
   # populate the CPDs
-- 
2.43.0


From 8f711a3fb499fa122c3262263f8633abc69e9bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 34/50] fix: arms without stable splits forget the fit on the
 previous split

---
 causal_effect_bandits/arms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 7e1da1f..440a303 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -218,6 +218,8 @@ class SampleSplittingArm(VarianceEstimatorArm):
         pooled.append(self._split_data[1])
         pooled.append(self._data_transformer(new_data))
         self._split_data = pooled.k_fold(2)
+        # The old fit has seen units that may now be held out.
+        self._eta.reset()
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
@@ -352,6 +354,8 @@ class BootstrapArm(VarianceEstimatorArm):
           pooled.append(fold)
         pooled.append(self._data_transformer(new_data))
         self._split_data = pooled.k_fold(self.n_splits)
+        # The old fit has seen units that may now be held out.
+        self._eta.reset()
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
-- 
2.43.0


From 41a8d05f6f9fc2461b8401374e9d50380eb426d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 35/50] fix: TabularCPD treats 0.0 and -0.0 as the same value

---
 causal_effect_bandits/data.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 98b74cc..9760813 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -339,7 +339,7 @@ class TabularCPD:
         have finite support.
     """
     x = np.asarray(x)
-    z = np.asarray(z)
+    z = self._merge_zeros(z)
 
     if len(x) != len(z):
       raise ValueError("z and x must be the same length")
@@ -386,6 +386,12 @@ class TabularCPD:
         for z_key in non_violating_z:
           x_table[z_key] -= total_violations / len(non_violating_z)
 
+  @staticmethod
+  def _merge_zeros(z):
+    """Replaces -0.0 by 0.0: they are equal but have different bytes."""
+    z = np.asarray(z)
+    return z + 0.0 if np.issubdtype(z.dtype, np.floating) else z
+
   def x_support(self):
     return list(self.x_values.values())
 
@@ -407,7 +413,7 @@ class TabularCPD:
     """
     probs = []
     x = np.asarray(x)
-    z = np.asarray(z)
+    z = self._merge_zeros(z)
 
     for zi, xi in zip(z, x):
       probs.append(self.table[xi.tobytes()][zi.tobytes()])
-- 
2.43.0


From a1f163d9617c56bd9aa76ec9c8ad9cdd0dbe3396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 36/50] fix: count treated units without overflow for small
 integer types

---
 causal_effect_bandits/parameters.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 0740506..d0411f4 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -353,8 +353,9 @@ class AIPW(NuisanceParameter):
 
     self.recent_data = d
 
-    if sum(d.exp) < self._min_units or sum(d.exp) > n_units - self._min_units:
-      message = (f"{sum(d.exp)} treatment units of {n_units} total units is not"
+    n_treated = np.sum(d.exp)  # unlike sum, does not overflow for small ints
+    if n_treated < self._min_units or n_treated > n_units - self._min_units:
+      message = (f"{n_treated} treatment units of {n_units} total units is not"
                  " enough units in control or treatment to fit eta.")
       logging.warning(message)
       return
@@ -622,9 +623,10 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
 
     self.recent_data = d
 
-    if sum(d.exp) < self._min_units or sum(d.exp) > d.n_units - self._min_units:
+    n_treated = np.sum(d.exp)  # unlike sum, does not overflow for small ints
+    if n_treated < self._min_units or n_treated > d.n_units - self._min_units:
       print(
-          f"---Frontdoor: {sum(d.exp)} treatment units of {d.n_units} total units "
+          f"---Frontdoor: {n_treated} treatment units of {d.n_units} total units "
           "is not enough units in control or treatment to fit eta.")
       return
     self.y_response.fit(np.array(np.c_[d.exp, d.cov]), d.rsp)
-- 
2.43.0


From 13c417d921f1add88afa7d6e1a5558215ad82560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 37/50] fix: no overflow in the confidence width of many
 features

---
 causal_effect_bandits/parameters.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index d0411f4..85e707c 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -384,8 +384,9 @@ class AIPW(NuisanceParameter):
     d = self._cov_dim
     v = x.transpose().dot(x)
 
-    numerator = sub_g * np.log(np.linalg.det(sub_g * v + rho * np.identity(d)))
-    denominator = sub_g * np.log(rho**d * delta**2)
+    # in logarithms, as the determinant may be too large for a float
+    numerator = sub_g * np.linalg.slogdet(sub_g * v + rho * np.identity(d))[1]
+    denominator = sub_g * (d * np.log(rho) + 2 * np.log(delta))
     if numerator <= denominator:  # not enough samples have been reached
       return np.inf
 
@@ -657,8 +658,9 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     v = x.transpose().dot(x)
 
     delta = delta / 3  # we are making three confidence sequences
-    numerator = sub_g * np.log(np.linalg.det(sub_g * v + rho * np.identity(d)))
-    denominator = sub_g * np.log(rho**d * delta**2)
+    # in logarithms, as the determinant may be too large for a float
+    numerator = sub_g * np.linalg.slogdet(sub_g * v + rho * np.identity(d))[1]
+    denominator = sub_g * (d * np.log(rho) + 2 * np.log(delta))
     if numerator <= denominator:  # not enough samples have been reached
       return np.inf
 
-- 
2.43.0


From 2a34accab14da0238271636a914a09cbe440db94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 38/50] fix: report the vacuous interval if a bootstrap
 resample leaves nothing to score

The variance of an empty part is nan, so that BootstrapArm returned nan bounds
(or failed inside the estimator) and LUCBAlgorithm.select_arms raised on them.
---
 causal_effect_bandits/arms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 440a303..4e5d662 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -380,6 +380,9 @@ class BootstrapArm(VarianceEstimatorArm):
 
       # Calculate tau on this fold
       self._eta.fit(in_data)
+      if len(out_data) == 0:  # a small fold can leave no unit to score
+        b_samples.append(np.inf)
+        continue
       b_samples.append(np.var(self._eta.calculate_score(out_data)))
 
     # Next, we need to calculate the percentiles of the bootstrap samples
@@ -388,6 +391,8 @@ class BootstrapArm(VarianceEstimatorArm):
     ci_low = b_samples[int(np.floor(delta / 2 * n_bootstraps))]
     ci_high = b_samples[int(np.ceil((1 - delta / 2) * n_bootstraps)) - 1]
     self._ci = (ci_low, ci_high)
+    if np.isinf(b_samples[-1]):
+      self._ci = (0, np.inf)
 
     # The bootstrap refitted eta on subsamples; restore the fit on the first split
     self._eta.fit(self._split_data[0])
-- 
2.43.0


From 6e88bba0b8a4fc7c05d195a240e44576ca547910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:31 +0000
Subject: [PATCH 39/50] fix: accept the documented (1, 1) covariance for a
 one-dimensional variable

---
 causal_effect_bandits/scm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index 2b28626..2e59424 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -207,6 +207,7 @@ def add_gaussian_noise(x, mean, cov):
                         x.shape[1] == 1):  # variable is one-dimensional
     if np.ndim(mean) > 1:
       raise ValueError("The dimensions of x and mean are not compatible")
+    cov = np.ravel(cov)  # may have shape (1, 1)
     return x.flatten() + np.random.normal(mean, np.sqrt(cov), size=n_units)
   else:  # variable is multi-dimensional
     if x.shape[1] != len(mean):
-- 
2.43.0


From 1323c848271acc79be0d6f20c7104fa32854d4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 40/50] fix: Section 5 instances keep the largest of the ten
 sampled effects

tau_max was overwritten by every sample, because tau stays 0 in the loop. Only
the last sample counted, and if it was negative the selection was skipped: half
of the instances had a negative effect.
---
 causal_effect_bandits/paper_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index 912ecec..f256832 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -133,10 +133,10 @@ def get_section_5_1_cpds(
     p_z0x0 = softmax(.4 * rng.standard_normal(size=support_size))
     p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))
     tau_max = max(
-        tau,
+        tau_max,
         p_z0x1.dot(z0_support).dot(beta[0]) -
         p_z0x0.dot(z0_support).dot(beta[0]))
-  while tau < tau_max:  # make sure tau is big enough
+  while tau <= tau_max:  # make sure tau is big enough
     # Generate two random categorical distributions for Z0
     p_z0x0 = softmax(.4 * rng.standard_normal(size=support_size))
     p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))
@@ -226,10 +226,10 @@ def get_section_5_2_cpds(
     p_z0x0 = softmax(.4 * rng.standard_normal(size=support_size))
     p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))
     tau_max = max(
-        tau,
+        tau_max,
         p_z0x1.dot(z0_support).dot(beta[0]) -
         p_z0x0.dot(z0_support).dot(beta[0]))
-  while tau < tau_max:  # make sure tau is big enough
+  while tau <= tau_max:  # make sure tau is big enough
     # Generate two random categorical distributions for Z0
     p_z0x0 = softmax(.4 * rng.standard_normal(size=support_size))
     p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))
-- 
2.43.0


From cb82e74200c090ba982be10b7de662e5721c9a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 41/50] fix: TabularCPD.predict adds no entries for unseen
 values

Looking up an unseen x or z in the default dicts inserted it into the fitted
table: afterwards printing the table raised KeyError, and the table grew with
every prediction.
---
 causal_effect_bandits/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 9760813..7814d1b 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -416,7 +416,8 @@ class TabularCPD:
     z = self._merge_zeros(z)
 
     for zi, xi in zip(z, x):
-      probs.append(self.table[xi.tobytes()][zi.tobytes()])
+      # do not add entries for unseen values to the default dicts
+      probs.append(self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0))
     return np.array(probs)
 
   def __str__(self):
-- 
2.43.0


From 2dac5afccf6b97174197726f48ff53cf7219232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 42/50] fix: notebook plots uniform_bandit_samples, which
 exists, in the second experiment

---
 notebooks/paper_experiments.ipynb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/notebooks/paper_experiments.ipynb b/notebooks/paper_experiments.ipynb
index 7a25e8e..5efcb5c 100644
--- a/notebooks/paper_experiments.ipynb
+++ b/notebooks/paper_experiments.ipynb
@@ -596,7 +596,7 @@
         "        (f'SE:{SE_samples[-1]}\\tuniform:{uniform_bandit_samples[-1]}'))\n",
         "  \n",
         "fig, ax = plt.subplots()#figsize=(7,5))\n",
-        "plt.boxplot([LUCB_samples, SE_samples, u_bandit_samples], labels=['CS-LUCB','CS-SE','Uniform'])\n",
+        "plt.boxplot([LUCB_samples, SE_samples, uniform_bandit_samples], labels=['CS-LUCB','CS-SE','Uniform'])\n",
         "plt.ticklabel_format(axis='y', style='scientific',scilimits=(0,0))\n",
         "plt.ylim(0, 1.4e5)\n",
         "plt.ylabel(\"Samples\")\n",
-- 
2.43.0


From 5df8103a5fc1ee65e31b1e39763881e0d999be07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 43/50] fix: notebook builds models with the number of
 back-door paths it iterates over

---
 notebooks/paper_experiments.ipynb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/notebooks/paper_experiments.ipynb b/notebooks/paper_experiments.ipynb
index 5efcb5c..bab4353 100644
--- a/notebooks/paper_experiments.ipynb
+++ b/notebooks/paper_experiments.ipynb
@@ -660,7 +660,7 @@
         "      z_cost=2,\n",
         "      v_cost=1,\n",
         "      z0_cost=5,\n",
-        "      num_back_door_paths=3,\n",
+        "      num_back_door_paths=num_back_door,\n",
         "      sample_limit=sample_limit,\n",
         "      units_per_round=units_per_round,\n",
         "  )\n",
-- 
2.43.0


From 0957e9cdfe99364a9b11d19d6fd1b949a3fcc23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 44/50] fix: notebook labels its box plots without boxplot's
 removed labels argument

---
 notebooks/paper_experiments.ipynb | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/notebooks/paper_experiments.ipynb b/notebooks/paper_experiments.ipynb
index bab4353..6cd3436 100644
--- a/notebooks/paper_experiments.ipynb
+++ b/notebooks/paper_experiments.ipynb
@@ -483,8 +483,8 @@
         "      (f'SE:{SE_samples[-1]}\\tuniform:{uniform_bandit_samples[-1]}'))\n",
         "  \n",
         "fig, ax = plt.subplots()\n",
-        "plt.boxplot([LUCB_samples, SE_samples, uniform_bandit_samples],\n",
-        "            labels=['$CS-LUCB$', '$CS-SE$', '$Uniform$'])\n",
+        "plt.boxplot([LUCB_samples, SE_samples, uniform_bandit_samples])\n",
+        "plt.xticks([1, 2, 3], ['$CS-LUCB$', '$CS-SE$', '$Uniform$'])\n",
         "plt.ticklabel_format(axis='y', style='scientific',scilimits=(0,0))\n",
         "plt.ylabel(\"Samples\")\n",
         "plt.show()"
@@ -596,7 +596,8 @@
         "        (f'SE:{SE_samples[-1]}\\tuniform:{uniform_bandit_samples[-1]}'))\n",
         "  \n",
         "fig, ax = plt.subplots()#figsize=(7,5))\n",
-        "plt.boxplot([LUCB_samples, SE_samples, uniform_bandit_samples], labels=['CS-LUCB','CS-SE','Uniform'])\n",
+        "plt.boxplot([LUCB_samples, SE_samples, uniform_bandit_samples])\n",
+        "plt.xticks([1, 2, 3], ['CS-LUCB','CS-SE','Uniform'])\n",
         "plt.ticklabel_format(axis='y', style='scientific',scilimits=(0,0))\n",
         "plt.ylim(0, 1.4e5)\n",
         "plt.ylabel(\"Samples\")\n",
-- 
2.43.0


From de007d6178f79f9dc6eb693290c021b9ed81b16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 45/50] fix: accept noise means of shape (d, 1), as documented

---
 causal_effect_bandits/scm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index 2e59424..1075574 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -210,6 +210,7 @@ def add_gaussian_noise(x, mean, cov):
     cov = np.ravel(cov)  # may have shape (1, 1)
     return x.flatten() + np.random.normal(mean, np.sqrt(cov), size=n_units)
   else:  # variable is multi-dimensional
+    mean = np.ravel(mean)  # may have shape (x_dim, 1)
     if x.shape[1] != len(mean):
       raise ValueError("The dimensions of x and mean are not compatible")
     return x + np.random.multivariate_normal(mean, cov, size=n_units)
@@ -272,7 +273,9 @@ def structural_equation_with_noise(parents, f, mean, cov):
   if np.ndim(mean) < 1:  # the output is a scalar
     return f_out.flatten() + np.random.normal(mean, np.sqrt(cov), size=n_units)
   else:
-    return f_out + np.random.multivariate_normal(mean, cov, size=n_units)
+    # mean may have shape (d, 1)
+    return f_out + np.random.multivariate_normal(
+        np.ravel(mean), cov, size=n_units)
 
 
 def logistic_bernoulli_cpd(parents, f):
-- 
2.43.0


From 8b7df6f8da142b82c079d0131091171157739b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 46/50] fix: LinearDataGenerator refuses noise that would make
 the responses a matrix

---
 causal_effect_bandits/data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 7814d1b..c1fb9ce 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -277,9 +277,9 @@ class LinearDataGenerator(DataGenerator):
     t = np.random.binomial(1, t_means)
     noise = self._noise_model(n_samples)
 
-    if len(noise) != n_samples:
-      raise ValueError(
-          f"noise_model's output is {len(noise)} but should be {n_samples}.")
+    if np.shape(noise) != (n_samples,):
+      raise ValueError(f"noise_model's output has shape {np.shape(noise)} but "
+                       f"should have shape ({n_samples},).")
 
     y = x.dot(self._beta) + self._tau * t + noise
     return ExpData(x, t, y)
-- 
2.43.0


From 4cde10b0cd16b06507e92a42679cfc78d0bd68a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 47/50] fix: ExpData.append leaves the data unchanged when the
 shapes do not match

---
 causal_effect_bandits/data.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index c1fb9ce..1c34ce4 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -73,11 +73,10 @@ class ExpData:
       raise ValueError("new_data.exp is missing but expected")
     if self.rsp is not None and new_data.rsp is None:
       raise ValueError("new_data.rsp is missing but expected")
-    self.cov = np.r_[self.cov, new_data.cov]
-    if self.exp is not None:
-      self.exp = np.r_[self.exp, new_data.exp]
-    if self.rsp is not None:
-      self.rsp = np.r_[self.rsp, new_data.rsp]
+    new_cov = np.r_[self.cov, new_data.cov]
+    new_exp = None if self.exp is None else np.r_[self.exp, new_data.exp]
+    new_rsp = None if self.rsp is None else np.r_[self.rsp, new_data.rsp]
+    self.cov, self.exp, self.rsp = new_cov, new_exp, new_rsp
 
     self.n_units = self.cov.shape[0]
 
-- 
2.43.0


From f516556daf0ee570f0a3450180cbf475bd6520b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:43 +0000
Subject: [PATCH 48/50] fix: the notebook's experiments use their
 num_back_door_paths

Cells of sections 5.1 and 5.2 set num_back_door_paths and derive the
dimensions from it, but built the model with the number 3: any other
choice failed with an IndexError or left dimensions unused.
---
 notebooks/paper_experiments.ipynb | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/notebooks/paper_experiments.ipynb b/notebooks/paper_experiments.ipynb
index 6cd3436..cfd1968 100644
--- a/notebooks/paper_experiments.ipynb
+++ b/notebooks/paper_experiments.ipynb
@@ -354,7 +354,7 @@
         "                               z_cost=3,\n",
         "                               v_cost=1,\n",
         "                               z0_cost=3,\n",
-        "                               num_back_door_paths=3,\n",
+        "                               num_back_door_paths=num_back_door_paths,\n",
         "                               sample_limit = sample_limit,\n",
         "                               units_per_round = units_per_round,\n",
         "                               latex_names = True,\n",
@@ -433,7 +433,7 @@
         "      z_cost=2,\n",
         "      v_cost=1,\n",
         "      z0_cost=5,\n",
-        "      num_back_door_paths=3,\n",
+        "      num_back_door_paths=num_back_door_paths,\n",
         "      sample_limit=sample_limit,\n",
         "      units_per_round=units_per_round,\n",
         "  )\n",
@@ -546,7 +546,7 @@
         "      z_cost=2,\n",
         "      v_cost=1,\n",
         "      z0_cost=5,\n",
-        "      num_back_door_paths=3,\n",
+        "      num_back_door_paths=num_back_door_paths,\n",
         "      sample_limit=sample_limit,\n",
         "      units_per_round=units_per_round,\n",
         "  )\n",
-- 
2.43.0


From 897d7b12748f6e75f32a2e5a5a35266ca925f312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:10 +0000
Subject: [PATCH 49/50] fix: LinearRegressionParameter scores need memory
 linear in the units

The scores were computed with a diagonal matrix of the responses, so
that scoring n units took n * n floats: 20 GB for 50,000 units.
---
 causal_effect_bandits/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 85e707c..b2c3b86 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -929,7 +929,7 @@ class LinearRegressionParameter(NuisanceParameter):
     Returns:
       np.array of shape (d.n_units, )
     """
-    xzy = np.c_[d.exp, d.cov].transpose().dot(np.diag(d.rsp))
+    xzy = np.c_[d.exp, d.cov].transpose() * d.rsp
     return eta.dot(xzy)[0, :]
 
   def calculate_score(self, d: data.ExpData) -> np.ndarray:
-- 
2.43.0


From 71ad41905fc5c4b0519ffc756e82516d4cb27ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:30 +0000
Subject: [PATCH 50/50] fix: refuse a nan error_tol, with which a run at fixed
 confidence would not end

---
 causal_effect_bandits/bandits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 87580f3..eba7246 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -117,7 +117,7 @@ class BAIBanditAlgorithm:
       raise ValueError(
           f"error_prob={error_prob}; must be in the unit interval.")
     self.error_prob = error_prob
-    if error_tol < 0.0:
+    if not error_tol >= 0.0:  # also refuses nan
       raise ValueError(f"error_tol={error_tol}; must be nonnegative.")
     self.error_tol = error_tol
     if sample_limit is None:  # no limit on the number of samples
-- 
2.43.0

