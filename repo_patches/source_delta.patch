From ca62826e811d2b49e7ca3a79688040d4ba4f85cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:46 +0000
Subject: [PATCH 01/62] fix: zero importance weights no longer turn DRos
 (lambda=0) and sub-gaussian (lambda=1) estimates into NaN

---
 obp/ope/estimators.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/obp/ope/estimators.py b/obp/ope/estimators.py
index 58ee77b..051b4b9 100644
--- a/obp/ope/estimators.py
+++ b/obp/ope/estimators.py
@@ -1668,7 +1668,8 @@ class DoublyRobustWithShrinkage(DoublyRobust):
         n = action.shape[0]
         iw = action_dist[np.arange(n), action, position] / pscore
         if self.lambda_ < np.inf:
-            iw_hat = (self.lambda_ * iw) / (iw**2 + self.lambda_)
+            iw_hat = np.zeros_like(iw)  # zero weights stay zero even if `lambda_=0`
+            np.divide(self.lambda_ * iw, iw**2 + self.lambda_, out=iw_hat, where=iw > 0)
         else:
             iw_hat = iw
 
@@ -1751,7 +1752,8 @@ class DoublyRobustWithShrinkage(DoublyRobust):
         # estimate the (high probability) upper bound of the bias of DRos
         iw = action_dist[np.arange(n), action, position] / pscore
         if self.lambda_ < np.inf:
-            iw_hat = (self.lambda_ * iw) / (iw**2 + self.lambda_)
+            iw_hat = np.zeros_like(iw)  # zero weights stay zero even if `lambda_=0`
+            np.divide(self.lambda_ * iw, iw**2 + self.lambda_, out=iw_hat, where=iw > 0)
         else:
             iw_hat = iw
         if use_bias_upper_bound:
@@ -1868,7 +1870,8 @@ class SubGaussianInverseProbabilityWeighting(InverseProbabilityWeighting):
 
         """
         iw = action_dist[np.arange(action.shape[0]), action, position] / pscore
-        iw_hat = iw / (1 - self.lambda_ + self.lambda_ * iw)
+        iw_hat = np.zeros_like(iw)  # zero weights stay zero even if `lambda_=1`
+        np.divide(iw, 1 - self.lambda_ + self.lambda_ * iw, out=iw_hat, where=iw > 0)
         estimated_rewards = iw_hat * reward
 
         return estimated_rewards
@@ -1937,7 +1940,8 @@ class SubGaussianInverseProbabilityWeighting(InverseProbabilityWeighting):
 
         # estimate the (high probability) upper bound of the bias of SGIPW
         iw = action_dist[np.arange(n), action, position] / pscore
-        iw_hat = iw / (1 - self.lambda_ + self.lambda_ * iw)
+        iw_hat = np.zeros_like(iw)  # zero weights stay zero even if `lambda_=1`
+        np.divide(iw, 1 - self.lambda_ + self.lambda_ * iw, out=iw_hat, where=iw > 0)
         if use_bias_upper_bound:
             bias_term = estimate_high_probability_upper_bound_bias(
                 reward=reward,
@@ -2057,7 +2061,8 @@ class SubGaussianDoublyRobust(DoublyRobust):
         """
         n = action.shape[0]
         iw = action_dist[np.arange(n), action, position] / pscore
-        iw_hat = iw / (1 - self.lambda_ + self.lambda_ * iw)
+        iw_hat = np.zeros_like(iw)  # zero weights stay zero even if `lambda_=1`
+        np.divide(iw, 1 - self.lambda_ + self.lambda_ * iw, out=iw_hat, where=iw > 0)
 
         q_hat_at_position = estimated_rewards_by_reg_model[np.arange(n), :, position]
         q_hat_factual = estimated_rewards_by_reg_model[np.arange(n), action, position]
@@ -2137,7 +2142,8 @@ class SubGaussianDoublyRobust(DoublyRobust):
 
         # estimate the (high probability) upper bound of the bias of SGDR
         iw = action_dist[np.arange(n), action, position] / pscore
-        iw_hat = iw / (1 - self.lambda_ + self.lambda_ * iw)
+        iw_hat = np.zeros_like(iw)  # zero weights stay zero even if `lambda_=1`
+        np.divide(iw, 1 - self.lambda_ + self.lambda_ * iw, out=iw_hat, where=iw > 0)
         if use_bias_upper_bound:
             bias_term = estimate_high_probability_upper_bound_bias(
                 reward=reward,
-- 
2.43.0


From e05c4104006ca85c69e26d4ae28152b50712ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:29 +0000
Subject: [PATCH 02/62] fix: Cascade-DR pairs each slot with its own slate's
 previous slot whatever the row order

---
 obp/ope/estimators_slate.py | 39 ++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/obp/ope/estimators_slate.py b/obp/ope/estimators_slate.py
index a369d96..671366f 100644
--- a/obp/ope/estimators_slate.py
+++ b/obp/ope/estimators_slate.py
@@ -614,6 +614,7 @@ class SlateCascadeDoublyRobust(BaseSlateOffPolicyEstimator):
 
     def _estimate_round_rewards(
         self,
+        slate_id: np.ndarray,
         action: np.ndarray,
         reward: np.ndarray,
         position: np.ndarray,
@@ -627,6 +628,9 @@ class SlateCascadeDoublyRobust(BaseSlateOffPolicyEstimator):
 
         Parameters
         ----------
+        slate_id: array-like, shape (n_rounds * len_list,)
+            Indices to differentiate slates (i.e., rounds) in logged bandit data.
+
         action: array-like, (n_rounds * len_list,)
             Actions observed at each slot in a ranking/slate in logged bandit data, i.e., :math:`a_{i}(l)`,
             which is chosen by the behavior policy :math:`\\pi_b`.
@@ -658,30 +662,31 @@ class SlateCascadeDoublyRobust(BaseSlateOffPolicyEstimator):
             Rewards rewards for each slate and slot (position).
 
         """
-        # (n_rounds_ * len_list * n_unique_action, ) -> (n_rounds_, len_list, n_unique_action)
-        q_hat_3d = q_hat.reshape((-1, self.len_list, self.n_unique_action))
+        # (n_rounds * len_list * n_unique_action, ) -> (n_rounds * len_list, n_unique_action)
+        q_hat_2d = q_hat.reshape((-1, self.n_unique_action))
         # the estimated Q functions for the action taken by the behavior policy
-        # (n_rounds_, len_list, n_unique_action) -> (n_rounds_ * len_list, )
-        q_hat_for_observed_action = []
-        for i in range(self.n_rounds_):
-            for pos_ in range(self.len_list):
-                q_hat_for_observed_action.append(
-                    q_hat_3d[i, pos_, action[i * self.len_list + pos_]]
-                )
-        q_hat_for_observed_action = np.array(q_hat_for_observed_action)
+        # (n_rounds * len_list, n_unique_action) -> (n_rounds * len_list, )
+        q_hat_for_observed_action = q_hat_2d[np.arange(action.shape[0]), action]
         # the expected Q function under the evaluation policy
-        # (n_rounds_ * len_list * n_unique_action, ) -> (n_rounds_, len_list, n_unique_action) -> (n_rounds_, len_list) -> (n_rounds_ * len_list, )
+        # (n_rounds * len_list * n_unique_action, ) -> (n_rounds * len_list, n_unique_action) -> (n_rounds * len_list, )
         expected_q_hat_under_eval_policy = (
             (evaluation_policy_action_dist * q_hat)
-            .reshape((-1, self.len_list, self.n_unique_action))
-            .sum(axis=2)
-            .flatten()
+            .reshape((-1, self.n_unique_action))
+            .sum(axis=1)
         )
         # importance weights
         # (n_rounds * len_list, )
         iw = evaluation_policy_pscore / behavior_policy_pscore
-        iw_prev = np.roll(iw, 1)
-        iw_prev[np.array([i * self.len_list for i in range(self.n_rounds_)])] = 1
+        # importance weights up to the previous slot of the same slate (1 at the top slot),
+        # regardless of the order in which the rows are stored
+        order = np.lexsort((position, slate_id))
+        iw_prev_sorted = np.roll(iw[order], 1)
+        slate_id_sorted = slate_id[order]
+        iw_prev_sorted[
+            np.r_[True, slate_id_sorted[1:] != slate_id_sorted[:-1]]
+        ] = 1
+        iw_prev = np.empty_like(iw)
+        iw_prev[order] = iw_prev_sorted
         # estimate policy value given each round and slot in a doubly robust manner
         estimated_rewards = (
             iw * (reward - q_hat_for_observed_action)
@@ -754,6 +759,7 @@ class SlateCascadeDoublyRobust(BaseSlateOffPolicyEstimator):
         self.n_rounds_ = np.unique(slate_id).shape[0]
         return (
             self._estimate_round_rewards(
+                slate_id=slate_id,
                 action=action,
                 reward=reward,
                 position=position,
@@ -841,6 +847,7 @@ class SlateCascadeDoublyRobust(BaseSlateOffPolicyEstimator):
         )
         self.n_rounds_ = np.unique(slate_id).shape[0]
         estimated_rewards = self._estimate_round_rewards(
+            slate_id=slate_id,
             action=action,
             reward=reward,
             position=position,
-- 
2.43.0


From 64464fcd0aa873a18415a139e4ea48c67f5f953d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:09 +0000
Subject: [PATCH 03/62] fix: rounds drawn one by one carry a 1D context, so
 contextual policies can be simulated with n_rounds

---
 obp/simulator/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index 6f27b4d..a911f5c 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -238,8 +238,8 @@ class BanditEnvironmentSimulator:
 
         return BanditRound(
             n_actions=self.n_actions,
-            context=context,
-            action_context=self.action_context[0],
+            context=context[0],
+            action_context=self.action_context,
             rewards=rewards[0],
             expected_rewards=expected_reward_[0],
             round_delays=round_delays,
-- 
2.43.0


From ee9b105e80b6d497c4e8826366fb1045f4d42c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:09 +0000
Subject: [PATCH 04/62] fix: undelayed rounds no longer skip feedback that is
 due in them

---
 obp/simulator/simulator.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/obp/simulator/simulator.py b/obp/simulator/simulator.py
index a911f5c..77d9a9f 100755
--- a/obp/simulator/simulator.py
+++ b/obp/simulator/simulator.py
@@ -352,18 +352,15 @@ class BanditPolicySimulator:
         self.total_reward += reward_
 
         delays = self.current_round.round_delays
-        if delays is None:
-            self.update_policy(self.current_round.context, selected_action, reward_)
-        else:
-            # Add the current round to the lookup
-            round_delay = delays[selected_action]
-            self.reward_round_lookup[round_delay + self.rounds_played].append(
-                self.rounds_played
-            )
+        # Add the current round to the lookup (it is available immediately without delays)
+        round_delay = 0 if delays is None else delays[selected_action]
+        self.reward_round_lookup[round_delay + self.rounds_played].append(
+            self.rounds_played
+        )
 
-            # Update policy with all available rounds
-            available_rounds = self.reward_round_lookup.get(self.rounds_played, [])
-            self.delayed_update_policy(available_rounds, self.rounds_played)
+        # Update policy with all available rounds
+        available_rounds = self.reward_round_lookup.get(self.rounds_played, [])
+        self.delayed_update_policy(available_rounds, self.rounds_played)
 
         self.rounds_played += 1
 
-- 
2.43.0


From eb7068f8d444bb35640430e17f97fdd7ba2f4265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:59 +0000
Subject: [PATCH 05/62] fix: drifting coefficients no longer depend on how
 rounds are grouped into requests

---
 obp/simulator/coefficient_drifter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/obp/simulator/coefficient_drifter.py b/obp/simulator/coefficient_drifter.py
index 75cba87..12cf591 100644
--- a/obp/simulator/coefficient_drifter.py
+++ b/obp/simulator/coefficient_drifter.py
@@ -191,9 +191,8 @@ class CoefficientDrifter:
         if shift_start < 0:
             transition_steps = transition_steps[-shift_start:]
 
-        shift_remainder = self.available_rounds - rounds
-        if shift_remainder > 0:
-            transition_steps = transition_steps[shift_remainder:]
+        # the requested rounds are the first ones of the remaining interval
+        transition_steps = transition_steps[:rounds]
 
         weights = transition_steps / (self.transition_period + 1)
 
-- 
2.43.0


From 2679780f8a0bb07be1b00f3287c82465979985f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:27 +0000
Subject: [PATCH 06/62] fix: replay simulation calls the progress bar instead
 of the tqdm module

---
 obp/simulator/replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/simulator/replay.py b/obp/simulator/replay.py
index dd8fc53..584d142 100644
--- a/obp/simulator/replay.py
+++ b/obp/simulator/replay.py
@@ -1,5 +1,5 @@
 import numpy as np
-import tqdm as tqdm
+from tqdm import tqdm
 
 from obp.policy.policy_type import PolicyType
 from obp.simulator.simulator import BanditPolicy
-- 
2.43.0


From 402a76abbccf8edba86bdc23e63ef7ac74827168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:27 +0000
Subject: [PATCH 07/62] fix: replay simulation returns a distribution over all
 actions of the policy

---
 obp/simulator/replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/simulator/replay.py b/obp/simulator/replay.py
index 584d142..66ae6f6 100644
--- a/obp/simulator/replay.py
+++ b/obp/simulator/replay.py
@@ -76,7 +76,7 @@ def run_bandit_replay(
         selected_actions_list.append(selected_actions)
 
     action_dist = convert_to_action_dist(
-        n_actions=bandit_feedback["action"].max() + 1,
+        n_actions=policy_.n_actions,
         selected_actions=np.array(selected_actions_list),
     )
     return action_dist
-- 
2.43.0


From 6a2b6bae0c47bf4614ca909e313dc08b8328a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:27 +0000
Subject: [PATCH 08/62] fix: replay simulation leaves the caller's bandit
 feedback untouched

---
 obp/simulator/replay.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/obp/simulator/replay.py b/obp/simulator/replay.py
index 66ae6f6..4c06fec 100644
--- a/obp/simulator/replay.py
+++ b/obp/simulator/replay.py
@@ -42,15 +42,14 @@ def run_bandit_replay(
     policy_ = policy
     selected_actions_list = list()
     dim_context = bandit_feedback["context"].shape[1]
-    if bandit_feedback["position"] is None:
-        bandit_feedback["position"] = np.zeros_like(
-            bandit_feedback["action"], dtype=int
-        )
+    position = bandit_feedback["position"]
+    if position is None:
+        position = np.zeros_like(bandit_feedback["action"], dtype=int)
     for action_, reward_, position_, context_ in tqdm(
         zip(
             bandit_feedback["action"],
             bandit_feedback["reward"],
-            bandit_feedback["position"],
+            position,
             bandit_feedback["context"],
         ),
         total=bandit_feedback["n_rounds"],
-- 
2.43.0


From 4bebfd93c1f56bef744f7cd5e135834d4dd9a8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:26 +0000
Subject: [PATCH 09/62] fix: re-initialising a linear policy discards its
 learned parameters

---
 obp/policy/linear.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/obp/policy/linear.py b/obp/policy/linear.py
index 8cf4f87..48daf3d 100644
--- a/obp/policy/linear.py
+++ b/obp/policy/linear.py
@@ -41,6 +41,15 @@ class BaseLinPolicy(BaseContextualPolicy):
     def __post_init__(self) -> None:
         """Initialize class."""
         super().__post_init__()
+        self._initialize_params()
+
+    def initialize(self) -> None:
+        """Initialize policy parameters."""
+        super().initialize()
+        self._initialize_params()
+
+    def _initialize_params(self) -> None:
+        """Set the parameters of the linear models to those of the prior."""
         self.theta_hat = np.zeros((self.dim, self.n_actions))
         self.A_inv = np.concatenate(
             [np.identity(self.dim) for _ in np.arange(self.n_actions)]
-- 
2.43.0


From f599b767a75836d196cc51096398a891fc716e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:26 +0000
Subject: [PATCH 10/62] fix: re-initialising a logistic policy discards its
 learned models

---
 obp/policy/logistic.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index c13f72b..c6fdd8e 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -60,6 +60,15 @@ class BaseLogisticPolicy(BaseContextualPolicy):
 
         self.alpha_list = self.alpha_ * np.ones(self.n_actions)
         self.lambda_list = self.lambda_ * np.ones(self.n_actions)
+        self._initialize_params()
+
+    def initialize(self) -> None:
+        """Initialize policy parameters."""
+        super().initialize()
+        self._initialize_params()
+
+    def _initialize_params(self) -> None:
+        """Set the models of all actions to those of the prior."""
         self.model_list = [
             MiniBatchLogisticRegression(
                 lambda_=self.lambda_list[i],
-- 
2.43.0


From 0a0093180747c6b086990bb5c8c0b3e5c5c520dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:26 +0000
Subject: [PATCH 11/62] fix: actions of a seeded LogisticTS no longer share
 identical posterior draws

---
 obp/policy/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index c6fdd8e..240b82d 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -74,7 +74,7 @@ class BaseLogisticPolicy(BaseContextualPolicy):
                 lambda_=self.lambda_list[i],
                 alpha=self.alpha_list[i],
                 dim=self.dim,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
             for i in np.arange(self.n_actions)
         ]
-- 
2.43.0


From d469a90ef5f8a66f7332244cf85f9abc58bbfbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:11 +0000
Subject: [PATCH 12/62] fix: zero rewards count as negative examples in the
 online logistic regression

---
 obp/policy/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index 240b82d..97c911e 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -350,7 +350,7 @@ class MiniBatchLogisticRegression:
         self._m = minimize(
             self.loss,
             self._m,
-            args=(X, y),
+            args=(X, 2 * y - 1),
             jac=self.grad,
             method="L-BFGS-B",
             options={"maxiter": 20, "disp": False},
-- 
2.43.0


From b803f7ba1ea39281d16141ad36fd0a669918dd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:11 +0000
Subject: [PATCH 13/62] fix: online logistic regression accumulates the
 curvature at the fitted probabilities

---
 obp/policy/logistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index 97c911e..efb75a1 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -355,7 +355,7 @@ class MiniBatchLogisticRegression:
             method="L-BFGS-B",
             options={"maxiter": 20, "disp": False},
         ).x
-        P = (1 + np.exp(1 + X.dot(self._m))) ** (-1)
+        P = sigmoid(X.dot(self._m))
         self._q = self._q + (P * (1 - P)).dot(X**2)
 
     def sd(self) -> np.ndarray:
-- 
2.43.0


From aaf5cb5851e44d92b2854f2db84d744ef6d7eaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:11 +0000
Subject: [PATCH 14/62] fix: multi-class reduction rewards use the encoded
 classes, whatever the label values

---
 obp/dataset/multiclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/multiclass.py b/obp/dataset/multiclass.py
index 1341d6b..95c50b5 100644
--- a/obp/dataset/multiclass.py
+++ b/obp/dataset/multiclass.py
@@ -183,7 +183,7 @@ class MultiClassToBanditReduction(BaseBanditDataset):
         self.y = (rankdata(y, "dense") - 1).astype(int)  # re-index actions
         # fully observed labels (full bandit feedback)
         self.y_full = np.zeros((self.n_rounds, self.n_actions))
-        self.y_full[np.arange(self.n_rounds), y] = 1
+        self.y_full[np.arange(self.n_rounds), self.y] = 1
 
     @property
     def len_list(self) -> int:
-- 
2.43.0


From 37d2fbd7b4291b0b50f1cce7add5b46211d0592e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:36 +0000
Subject: [PATCH 15/62] fix: slate rewards use the context of their own round

---
 obp/dataset/synthetic_slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index a7d369c..820b964 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1427,7 +1427,7 @@ def action_interaction_reward_function(
         action = np.tile(action, n_rounds)
     # action_2d: array-like, shape (n_rounds (* len(enumerated_action_list)), len_list)
     action_2d = action.reshape((-1, len_list)).astype("int8")
-    n_enumerated_slate_actions = len(action) // n_rounds
+    n_enumerated_slate_actions = len(action_2d) // n_rounds
     # expected_reward: array-like, shape (n_rounds, n_unique_action)
     expected_reward = base_reward_function(
         context=context, action_context=action_context, random_state=random_state
-- 
2.43.0


From 7afaa9daf1ebbcba5627040b1f2bc323165cdf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:36 +0000
Subject: [PATCH 16/62] fix: slate rewards are computed in full precision and
 for any number of actions

---
 obp/dataset/synthetic_slate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 820b964..26da1b5 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -913,7 +913,7 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
             enumerated_slate_actions = [
                 _ for _ in permutations(np.arange(self.n_unique_action), self.len_list)
             ]
-        enumerated_slate_actions = np.array(enumerated_slate_actions).astype("int8")
+        enumerated_slate_actions = np.array(enumerated_slate_actions).astype(int)
         n_slate_actions = len(enumerated_slate_actions)
         n_rounds = len(evaluation_policy_logit_)
 
@@ -1426,7 +1426,7 @@ def action_interaction_reward_function(
     if is_enumerated:
         action = np.tile(action, n_rounds)
     # action_2d: array-like, shape (n_rounds (* len(enumerated_action_list)), len_list)
-    action_2d = action.reshape((-1, len_list)).astype("int8")
+    action_2d = action.reshape((-1, len_list)).astype(int)
     n_enumerated_slate_actions = len(action_2d) // n_rounds
     # expected_reward: array-like, shape (n_rounds, n_unique_action)
     expected_reward = base_reward_function(
@@ -1434,7 +1434,7 @@ def action_interaction_reward_function(
     )
     if reward_type == "binary":
         expected_reward = logit(expected_reward)
-    expected_reward_factual = np.zeros_like(action_2d, dtype="float16")
+    expected_reward_factual = np.zeros_like(action_2d, dtype=float)
     for pos_ in np.arange(len_list):
         tmp_fixed_reward = expected_reward[
             np.arange(len(action_2d)) // n_enumerated_slate_actions,
-- 
2.43.0


From 0407554349e4940394a6a2c6408972e4a9c937da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:36 +0000
Subject: [PATCH 17/62] fix: the optimal slate policy takes the top actions,
 the anti-optimal one the bottom actions

---
 obp/dataset/synthetic_slate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 26da1b5..9398ed2 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1124,12 +1124,12 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                 epsilon, name="epsilon", target_type=(float), min_val=0.0, max_val=1.0
             )
             if evaluation_policy_type == "optimal":
-                sorted_actions = base_expected_reward.argsort(axis=1)[
+                sorted_actions = (-base_expected_reward).argsort(axis=1)[
                     :, : self.len_list
                 ]
             else:
                 sorted_actions = base_expected_reward.argsort(axis=1)[
-                    :, -self.len_list :
+                    :, : self.len_list
                 ]
             (
                 pscore,
-- 
2.43.0


From e8096b4b6c3b4c7fd2d8df6399da2c7a5ada7e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:36 +0000
Subject: [PATCH 18/62] fix: sampling slate rewards leaves the caller's
 expected rewards untouched

---
 obp/dataset/synthetic_slate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 9398ed2..3727c6c 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -690,7 +690,7 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
             Sampled rewards.
 
         """
-        expected_reward_factual *= self.exam_weight
+        expected_reward_factual = expected_reward_factual * self.exam_weight
         if self.reward_type == "binary":
             sampled_reward_list = list()
             discount_factors = np.ones(expected_reward_factual.shape[0])
@@ -823,6 +823,7 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
         reward = self.sample_reward_given_expected_reward(
             expected_reward_factual=expected_reward_factual
         )
+        expected_reward_factual = expected_reward_factual * self.exam_weight
 
         return dict(
             n_rounds=n_rounds,
-- 
2.43.0


From 4e1ce1e2ee6b77fc35aa32cf4d9bdc0cf5ad4866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:36 +0000
Subject: [PATCH 19/62] fix: continuous slate rewards draw fresh noise for
 every slot and batch

---
 obp/dataset/synthetic_slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 3727c6c..000b100 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -719,7 +719,7 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                     b=b,
                     loc=mean,
                     scale=self.reward_std,
-                    random_state=self.random_state,
+                    random_state=self.random_,
                 )
         else:
             raise NotImplementedError
-- 
2.43.0


From 48275d492eb1044f7719e7efe0610b183194b5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:36 +0000
Subject: [PATCH 20/62] fix: slate ground-truth values average over rounds and
 follow the click model

---
 obp/dataset/synthetic_slate.py | 56 +++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 000b100..56b65fc 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -868,6 +868,38 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
 
         return reward.sum() / np.unique(slate_id).shape[0]
 
+    def _calc_marginal_slot_reward(self, expected_reward: np.ndarray) -> np.ndarray:
+        """Marginalize slot-level expected rewards over the clicks at the preceding slots.
+
+        Parameters
+        -----------
+        expected_reward: array-like, shape (n_slates, len_list)
+            Expected rewards of each slot given that the slot is fully examined.
+
+        Returns
+        ----------
+        marginal_slot_reward: array-like, shape (n_slates, len_list)
+            Expected rewards of each slot under the click model.
+
+        """
+        expected_reward = expected_reward * self.exam_weight
+        if self.reward_type != "binary":
+            return expected_reward
+        # moments[k] is the k-th moment of the discount factor at the current slot
+        moments = [np.ones(expected_reward.shape[0])] * (self.len_list + 1)
+        marginal_slot_reward = np.zeros_like(expected_reward)
+        for pos_ in np.arange(self.len_list):
+            if pos_ > 0:
+                moments = [
+                    moments[k]
+                    - (1 - self.attractiveness[pos_] ** k)
+                    * expected_reward[:, pos_ - 1]
+                    * moments[k + 1]
+                    for k in range(len(moments) - 1)
+                ]
+            marginal_slot_reward[:, pos_] = expected_reward[:, pos_] * moments[1]
+        return marginal_slot_reward
+
     def calc_ground_truth_policy_value(
         self,
         context: np.ndarray,
@@ -962,7 +994,11 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                     for pos_ in np.arange(self.len_list)
                 ]
             ).T
+            expected_slate_rewards = self._calc_marginal_slot_reward(
+                expected_slate_rewards
+            )
             policy_value = (pscores * expected_slate_rewards.sum(axis=1)).sum()
+            policy_value /= n_rounds
         else:
             n_batch = (
                 n_rounds * n_enumerated_slate_actions * self.len_list - 1
@@ -996,23 +1032,9 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
                     random_state=self.random_state,
                 )
 
-                # click models based on expected reward
-                expected_slate_rewards_ *= self.exam_weight
-                if self.reward_type == "binary":
-                    discount_factors = np.ones(expected_slate_rewards_.shape[0])
-                    previous_slot_expected_reward = np.zeros(
-                        expected_slate_rewards_.shape[0]
-                    )
-                    for pos_ in np.arange(self.len_list):
-                        discount_factors *= (
-                            previous_slot_expected_reward * self.attractiveness[pos_]
-                            + (1 - previous_slot_expected_reward)
-                        )
-                        expected_slate_rewards_[:, pos_] = (
-                            discount_factors * expected_slate_rewards_[:, pos_]
-                        )
-                        previous_slot_expected_reward = expected_slate_rewards_[:, pos_]
-
+                expected_slate_rewards_ = self._calc_marginal_slot_reward(
+                    expected_slate_rewards_
+                )
                 policy_value += (
                     pscores_.flatten() * expected_slate_rewards_.sum(axis=1)
                 ).sum()
-- 
2.43.0


From 45b0fa1fbe33b0ab5d0a203d9b24be6b9ff88572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:36 +0000
Subject: [PATCH 21/62] fix: expected continuous slate rewards are the means of
 the sampled distribution

---
 obp/dataset/synthetic_slate.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index 56b65fc..fdeed3b 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -13,6 +13,7 @@ from typing import Union
 import numpy as np
 from scipy.special import logit
 from scipy.special import perm
+from scipy.stats import norm
 from scipy.stats import truncnorm
 from sklearn.utils import check_random_state
 from sklearn.utils import check_scalar
@@ -823,7 +824,10 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
         reward = self.sample_reward_given_expected_reward(
             expected_reward_factual=expected_reward_factual
         )
-        expected_reward_factual = expected_reward_factual * self.exam_weight
+        if self.reward_type == "continuous":
+            expected_reward_factual = self._calc_truncated_mean(expected_reward_factual)
+        else:
+            expected_reward_factual = expected_reward_factual * self.exam_weight
 
         return dict(
             n_rounds=n_rounds,
@@ -868,6 +872,14 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
 
         return reward.sum() / np.unique(slate_id).shape[0]
 
+    def _calc_truncated_mean(self, mean: np.ndarray) -> np.ndarray:
+        """Mean of the truncated normal distribution from which continuous rewards are sampled."""
+        a = (self.reward_min - mean) / self.reward_std
+        b = (self.reward_max - mean) / self.reward_std
+        return mean + self.reward_std * (norm.pdf(a) - norm.pdf(b)) / (
+            norm.cdf(b) - norm.cdf(a)
+        )
+
     def _calc_marginal_slot_reward(self, expected_reward: np.ndarray) -> np.ndarray:
         """Marginalize slot-level expected rewards over the clicks at the preceding slots.
 
@@ -882,9 +894,9 @@ class SyntheticSlateBanditDataset(BaseBanditDataset):
             Expected rewards of each slot under the click model.
 
         """
+        if self.reward_type == "continuous":
+            return self._calc_truncated_mean(expected_reward)
         expected_reward = expected_reward * self.exam_weight
-        if self.reward_type != "binary":
-            return expected_reward
         # moments[k] is the k-th moment of the discount factor at the current slot
         moments = [np.ones(expected_reward.shape[0])] * (self.len_list + 1)
         marginal_slot_reward = np.zeros_like(expected_reward)
-- 
2.43.0


From 4c4aa049d3593b45879eeefbeb732430ded1d8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:29 +0000
Subject: [PATCH 22/62] fix: slots of cascade_decay slates interact with the
 preceding slots

---
 obp/dataset/synthetic_slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_slate.py b/obp/dataset/synthetic_slate.py
index fdeed3b..3180be7 100644
--- a/obp/dataset/synthetic_slate.py
+++ b/obp/dataset/synthetic_slate.py
@@ -1498,7 +1498,7 @@ def action_interaction_reward_function(
                     np.arange(len(action_2d)) // n_enumerated_slate_actions,
                     action_2d[:, pos2_],
                 ]
-                weight_ = action_interaction_weight_matrix[pos_, pos2_]
+                weight_ = action_interaction_weight_matrix[pos2_, pos_]
                 tmp_fixed_reward += expected_reward_ * weight_
         expected_reward_factual[:, pos_] = tmp_fixed_reward
 
-- 
2.43.0


From 3762788fc9216cb34d203e22638cc3f84c8884f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:31 +0000
Subject: [PATCH 23/62] fix: interval estimation of the balanced multi-logger
 estimators no longer crashes

---
 obp/ope/estimators_multi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/estimators_multi.py b/obp/ope/estimators_multi.py
index f5765f9..338b3c3 100644
--- a/obp/ope/estimators_multi.py
+++ b/obp/ope/estimators_multi.py
@@ -569,7 +569,7 @@ class MultiLoggersBalancedInverseProbabilityWeighting(
             reward=reward,
             action=action,
             position=position,
-            pscore=pscore_,
+            pscore_avg=pscore_,
             action_dist=action_dist,
         )
         return estimate_confidence_interval_by_bootstrap(
@@ -1473,7 +1473,7 @@ class MultiLoggersBalancedDoublyRobust(BaseMultiLoggersOffPolicyEstimator):
             reward=reward,
             action=action,
             position=position,
-            pscore=pscore_,
+            pscore_avg=pscore_,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
             action_dist=action_dist,
         )
-- 
2.43.0


From e108e0e2e02b203c48de70555d803cee498283fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:31 +0000
Subject: [PATCH 24/62] fix: weighted multi-logger estimators accept any
 non-negative stratum labels

---
 obp/ope/estimators_multi.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/obp/ope/estimators_multi.py b/obp/ope/estimators_multi.py
index 338b3c3..ff570f1 100644
--- a/obp/ope/estimators_multi.py
+++ b/obp/ope/estimators_multi.py
@@ -683,9 +683,11 @@ class MultiLoggersWeightedInverseProbabilityWeighting(
         if isinstance(iw, np.ndarray):
             iw = np.minimum(iw, self.lambda_)
 
-        unique_stratum_idx, n_data_strata = np.unique(stratum_idx, return_counts=True)
+        unique_stratum_idx, stratum_idx, n_data_strata = np.unique(
+            stratum_idx, return_inverse=True, return_counts=True
+        )
         var_k = np.zeros(unique_stratum_idx.shape[0])
-        for k in unique_stratum_idx:
+        for k in range(unique_stratum_idx.shape[0]):
             idx_ = stratum_idx == k
             var_k[k] = np.var(reward[idx_] * iw[idx_])
         weight_k = n / (var_k * np.sum(n_data_strata / var_k))
@@ -1600,9 +1602,11 @@ class MultiLoggersWeightedDoublyRobust(MultiLoggersNaiveDoublyRobust):
             axis=1,
         )
 
-        unique_stratum_idx, n_data_strata = np.unique(stratum_idx, return_counts=True)
+        unique_stratum_idx, stratum_idx, n_data_strata = np.unique(
+            stratum_idx, return_inverse=True, return_counts=True
+        )
         var_k = np.zeros(unique_stratum_idx.shape[0])
-        for k in unique_stratum_idx:
+        for k in range(unique_stratum_idx.shape[0]):
             idx_ = stratum_idx == k
             var_k[k] = np.var(
                 estimated_rewards[idx_]
-- 
2.43.0


From 0339dab87b4625d0a52a680df8e1dfe1ecd33d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:31 +0000
Subject: [PATCH 25/62] fix: weighted multi-logger estimators stay finite when
 a stratum has zero variance

---
 obp/ope/estimators_multi.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/obp/ope/estimators_multi.py b/obp/ope/estimators_multi.py
index ff570f1..f30d6b8 100644
--- a/obp/ope/estimators_multi.py
+++ b/obp/ope/estimators_multi.py
@@ -690,7 +690,9 @@ class MultiLoggersWeightedInverseProbabilityWeighting(
         for k in range(unique_stratum_idx.shape[0]):
             idx_ = stratum_idx == k
             var_k[k] = np.var(reward[idx_] * iw[idx_])
-        weight_k = n / (var_k * np.sum(n_data_strata / var_k))
+        # strata with zero variance take all the weight (the limit of the inverse variance)
+        precision_k = 1.0 / var_k if np.all(var_k > 0) else (var_k == 0).astype(float)
+        weight_k = n * precision_k / np.sum(n_data_strata * precision_k)
 
         return reward * iw * weight_k[stratum_idx]
 
@@ -1612,7 +1614,9 @@ class MultiLoggersWeightedDoublyRobust(MultiLoggersNaiveDoublyRobust):
                 estimated_rewards[idx_]
                 + iw[idx_] * (reward[idx_] - q_hat_factual[idx_])
             )
-        weight_k = n / (var_k * np.sum(n_data_strata / var_k))
+        # strata with zero variance take all the weight (the limit of the inverse variance)
+        precision_k = 1.0 / var_k if np.all(var_k > 0) else (var_k == 0).astype(float)
+        weight_k = n * precision_k / np.sum(n_data_strata * precision_k)
         estimated_rewards += iw * (reward - q_hat_factual) * weight_k[stratum_idx]
 
         return estimated_rewards
-- 
2.43.0


From 52c191ccd8433acb5d02ba62ac70581eff87ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:31 +0000
Subject: [PATCH 26/62] fix: the weighted multi-logger DR weights the whole
 doubly robust term of each stratum

---
 obp/ope/estimators_multi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/obp/ope/estimators_multi.py b/obp/ope/estimators_multi.py
index f30d6b8..48d0af9 100644
--- a/obp/ope/estimators_multi.py
+++ b/obp/ope/estimators_multi.py
@@ -1617,7 +1617,8 @@ class MultiLoggersWeightedDoublyRobust(MultiLoggersNaiveDoublyRobust):
         # strata with zero variance take all the weight (the limit of the inverse variance)
         precision_k = 1.0 / var_k if np.all(var_k > 0) else (var_k == 0).astype(float)
         weight_k = n * precision_k / np.sum(n_data_strata * precision_k)
-        estimated_rewards += iw * (reward - q_hat_factual) * weight_k[stratum_idx]
+        estimated_rewards += iw * (reward - q_hat_factual)
+        estimated_rewards *= weight_k[stratum_idx]
 
         return estimated_rewards
 
-- 
2.43.0


From dfe60a204191a13fe49ff6fd51db10d603ceb755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:23 +0000
Subject: [PATCH 27/62] fix: kernelized estimators accept integer-valued action
 arrays

---
 obp/ope/estimators_continuous.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/obp/ope/estimators_continuous.py b/obp/ope/estimators_continuous.py
index 1bae79b..895907e 100644
--- a/obp/ope/estimators_continuous.py
+++ b/obp/ope/estimators_continuous.py
@@ -157,7 +157,7 @@ class KernelizedInverseProbabilityWeighting(BaseContinuousOffPolicyEstimator):
         """
         kernel_func = kernel_functions[self.kernel]
         u = action_by_evaluation_policy - action_by_behavior_policy
-        u /= self.bandwidth
+        u = u / self.bandwidth
         estimated_rewards = kernel_func(u) * reward / pscore
         estimated_rewards /= self.bandwidth
         return estimated_rewards
@@ -383,7 +383,7 @@ class KernelizedSelfNormalizedInverseProbabilityWeighting(
 
         kernel_func = kernel_functions[self.kernel]
         u = action_by_evaluation_policy - action_by_behavior_policy
-        u /= self.bandwidth
+        u = u / self.bandwidth
         estimated_rewards = kernel_func(u) * reward / pscore
         estimated_rewards /= (kernel_func(u) / pscore).mean()
         return estimated_rewards
@@ -604,7 +604,7 @@ class KernelizedDoublyRobust(BaseContinuousOffPolicyEstimator):
         """
         kernel_func = kernel_functions[self.kernel]
         u = action_by_evaluation_policy - action_by_behavior_policy
-        u /= self.bandwidth
+        u = u / self.bandwidth
         estimated_rewards = (
             kernel_func(u) * (reward - estimated_rewards_by_reg_model) / pscore
         )
-- 
2.43.0


From c785a601b84d8c17232f373aebef74465fb34ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:54 +0000
Subject: [PATCH 28/62] fix: the true marginal weights of MIPW use the joint
 probability of the embedding dimensions

---
 obp/ope/estimators_embed.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index e9b38ee..783179d 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -163,13 +163,12 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
         """
         n = reward.shape[0]
         if p_e_a is not None:
-            p_e_pi_b = np.ones(n)
-            p_e_pi_e = np.ones(n)
+            # probability of the observed embedding given each action
+            p_e_x_a = np.ones((n, p_e_a.shape[0]))
             for d in np.arange(p_e_a.shape[-1]):
-                p_e_pi_b_d = pi_b[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_b *= p_e_pi_b_d[np.arange(n), action_embed[:, d]]
-                p_e_pi_e_d = action_dist[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_e *= p_e_pi_e_d[np.arange(n), action_embed[:, d]]
+                p_e_x_a *= p_e_a[:, action_embed[:, d], d].T
+            p_e_pi_b = (pi_b[np.arange(n), :, position] * p_e_x_a).sum(1)
+            p_e_pi_e = (action_dist[np.arange(n), :, position] * p_e_x_a).sum(1)
             w_x_e = p_e_pi_e / p_e_pi_b
             self.max_w_x_e = w_x_e.max()
 
@@ -688,13 +687,12 @@ class SelfNormalizedMarginalizedInverseProbabilityWeighting(
         """
         n = reward.shape[0]
         if p_e_a is not None:
-            p_e_pi_b = np.ones(n)
-            p_e_pi_e = np.ones(n)
+            # probability of the observed embedding given each action
+            p_e_x_a = np.ones((n, p_e_a.shape[0]))
             for d in np.arange(p_e_a.shape[-1]):
-                p_e_pi_b_d = pi_b[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_b *= p_e_pi_b_d[np.arange(n), action_embed[:, d]]
-                p_e_pi_e_d = action_dist[np.arange(n), :, position] @ p_e_a[:, :, d]
-                p_e_pi_e *= p_e_pi_e_d[np.arange(n), action_embed[:, d]]
+                p_e_x_a *= p_e_a[:, action_embed[:, d], d].T
+            p_e_pi_b = (pi_b[np.arange(n), :, position] * p_e_x_a).sum(1)
+            p_e_pi_e = (action_dist[np.arange(n), :, position] * p_e_x_a).sum(1)
             w_x_e = p_e_pi_e / p_e_pi_b
             self.max_w_x_e = w_x_e.max()
 
-- 
2.43.0


From fc5ce967224b182a5767d4b27f334fba0a11767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:05 +0000
Subject: [PATCH 29/62] fix: embedding selection of MIPW can return the
 smallest embedding set

---
 obp/ope/estimators_embed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index 783179d..0a10055 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -384,7 +384,7 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
                 else:
                     return theta_j[-1]
 
-        return theta_j[-1]
+        return theta_list[-1]
 
     def _estimate_with_greedy_pruning(
         self,
@@ -472,7 +472,7 @@ class MarginalizedInverseProbabilityWeighting(BaseOffPolicyEstimator):
             idx_without_d = np.where(current_feat != excluded_dim, True, False)
             current_feat = current_feat[idx_without_d]
 
-        return theta_j[-1]
+        return theta_list[-1]
 
     def estimate_interval(
         self,
-- 
2.43.0


From 17fb58cc90e7a66cd3f99f667fb4c26d2297cd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:05 +0000
Subject: [PATCH 30/62] fix: embedding selection of the self-normalized MIPW
 stays self-normalized

---
 obp/ope/estimators_embed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/ope/estimators_embed.py b/obp/ope/estimators_embed.py
index 0a10055..0baad19 100644
--- a/obp/ope/estimators_embed.py
+++ b/obp/ope/estimators_embed.py
@@ -707,7 +707,7 @@ class SelfNormalizedMarginalizedInverseProbabilityWeighting(
             self.max_w_x_e = w_x_e.max()
 
         if with_dev:
-            r_hat = reward * w_x_e
+            r_hat = reward * w_x_e / w_x_e.mean()
             cnf = np.sqrt(np.var(r_hat) / (n - 1))
             cnf *= stats.t.ppf(1.0 - (self.delta / 2), n - 1)
 
-- 
2.43.0


From 018e2f3e48fff85bc0039f3e13e97f99fd8574fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:00 +0000
Subject: [PATCH 31/62] fix: sub-gaussian tuning passes the estimated
 propensity scores on

---
 obp/ope/estimators_tuning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/estimators_tuning.py b/obp/ope/estimators_tuning.py
index 2c31cea..e9add54 100644
--- a/obp/ope/estimators_tuning.py
+++ b/obp/ope/estimators_tuning.py
@@ -1355,6 +1355,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
         )
 
@@ -1435,6 +1436,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             alpha=alpha,
             n_bootstrap_samples=n_bootstrap_samples,
@@ -1564,6 +1566,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
         )
@@ -1655,6 +1658,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
             action=action,
             position=position,
             pscore=pscore_,
+            estimated_pscore=estimated_pscore,
             action_dist=action_dist,
             estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
             alpha=alpha,
-- 
2.43.0


From 1e31211e359d7e685e4676c5032d2994270a378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:00 +0000
Subject: [PATCH 32/62] fix: tuned estimators leave the caller's list of
 candidates untouched

---
 obp/ope/estimators_tuning.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/obp/ope/estimators_tuning.py b/obp/ope/estimators_tuning.py
index e9add54..adb9fdf 100644
--- a/obp/ope/estimators_tuning.py
+++ b/obp/ope/estimators_tuning.py
@@ -419,7 +419,7 @@ class InverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = InverseProbabilityWeighting
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort(reverse=True)
+        self.lambdas = sorted(self.lambdas, reverse=True)
 
     def estimate_policy_value(
         self,
@@ -619,7 +619,7 @@ class DoublyRobustTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = DoublyRobust
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort(reverse=True)
+        self.lambdas = sorted(self.lambdas, reverse=True)
 
     def estimate_policy_value(
         self,
@@ -839,7 +839,7 @@ class SwitchDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = SwitchDoublyRobust
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort(reverse=True)
+        self.lambdas = sorted(self.lambdas, reverse=True)
 
     def estimate_policy_value(
         self,
@@ -1059,7 +1059,7 @@ class DoublyRobustWithShrinkageTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = DoublyRobustWithShrinkage
         super()._check_lambdas()
         super()._check_init_inputs()
-        self.lambdas.sort()
+        self.lambdas = sorted(self.lambdas)
 
     def estimate_policy_value(
         self,
@@ -1288,7 +1288,7 @@ class SubGaussianInverseProbabilityWeightingTuning(BaseOffPolicyEstimatorTuning)
         self.base_ope_estimator = SubGaussianInverseProbabilityWeighting
         super()._check_lambdas(max_val=1.0)
         super()._check_init_inputs()
-        self.lambdas.sort()
+        self.lambdas = sorted(self.lambdas)
 
     def estimate_policy_value(
         self,
@@ -1489,7 +1489,7 @@ class SubGaussianDoublyRobustTuning(BaseOffPolicyEstimatorTuning):
         self.base_ope_estimator = SubGaussianDoublyRobust
         super()._check_lambdas(max_val=1.0)
         super()._check_init_inputs()
-        self.lambdas.sort()
+        self.lambdas = sorted(self.lambdas)
 
     def estimate_policy_value(
         self,
-- 
2.43.0


From 9c05b05e2e3c1531f599fc73ea0e2e8006caaad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:00 +0000
Subject: [PATCH 33/62] fix: tuned estimators select the hyperparameter on the
 data they are given

---
 obp/ope/estimators_tuning.py | 78 ++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 40 deletions(-)

diff --git a/obp/ope/estimators_tuning.py b/obp/ope/estimators_tuning.py
index adb9fdf..0b4ae98 100644
--- a/obp/ope/estimators_tuning.py
+++ b/obp/ope/estimators_tuning.py
@@ -239,26 +239,25 @@ class BaseOffPolicyEstimatorTuning:
         else:
             check_array(array=pscore, name="pscore", expected_dim=1)
             pscore_ = pscore
-        # tune hyperparameter if necessary
-        if not hasattr(self, "best_hyperparam"):
-            if self.tuning_method == "mse":
-                self.best_hyperparam = self._tune_hyperparam_with_mse(
-                    reward=reward,
-                    action=action,
-                    pscore=pscore_,
-                    action_dist=action_dist,
-                    estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
-                    position=position,
-                )
-            elif self.tuning_method == "slope":
-                self.best_hyperparam = self._tune_hyperparam_with_slope(
-                    reward=reward,
-                    action=action,
-                    pscore=pscore_,
-                    action_dist=action_dist,
-                    estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
-                    position=position,
-                )
+        # tune hyperparameter on the given data
+        if self.tuning_method == "mse":
+            self.best_hyperparam = self._tune_hyperparam_with_mse(
+                reward=reward,
+                action=action,
+                pscore=pscore_,
+                action_dist=action_dist,
+                estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
+                position=position,
+            )
+        elif self.tuning_method == "slope":
+            self.best_hyperparam = self._tune_hyperparam_with_slope(
+                reward=reward,
+                action=action,
+                pscore=pscore_,
+                action_dist=action_dist,
+                estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
+                position=position,
+            )
 
         return self.base_ope_estimator(
             lambda_=self.best_hyperparam, use_estimated_pscore=self.use_estimated_pscore
@@ -336,26 +335,25 @@ class BaseOffPolicyEstimatorTuning:
         else:
             check_array(array=pscore, name="pscore", expected_dim=1)
             pscore_ = pscore
-        # tune hyperparameter if necessary
-        if not hasattr(self, "best_hyperparam"):
-            if self.tuning_method == "mse":
-                self.best_hyperparam = self._tune_hyperparam_with_mse(
-                    reward=reward,
-                    action=action,
-                    pscore=pscore_,
-                    action_dist=action_dist,
-                    estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
-                    position=position,
-                )
-            elif self.tuning_method == "slope":
-                self.best_hyperparam = self._tune_hyperparam_with_slope(
-                    reward=reward,
-                    action=action,
-                    pscore=pscore_,
-                    action_dist=action_dist,
-                    estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
-                    position=position,
-                )
+        # tune hyperparameter on the given data
+        if self.tuning_method == "mse":
+            self.best_hyperparam = self._tune_hyperparam_with_mse(
+                reward=reward,
+                action=action,
+                pscore=pscore_,
+                action_dist=action_dist,
+                estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
+                position=position,
+            )
+        elif self.tuning_method == "slope":
+            self.best_hyperparam = self._tune_hyperparam_with_slope(
+                reward=reward,
+                action=action,
+                pscore=pscore_,
+                action_dist=action_dist,
+                estimated_rewards_by_reg_model=estimated_rewards_by_reg_model,
+                position=position,
+            )
 
         return self.base_ope_estimator(self.best_hyperparam).estimate_interval(
             reward=reward,
-- 
2.43.0


From e5f6b0857891ab7d1472751f370642e6a18d1d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:32 +0000
Subject: [PATCH 34/62] fix: the embedding distribution can be passed to the
 evaluator as a plain array

---
 obp/ope/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/ope/meta.py b/obp/ope/meta.py
index 6eff8bf..0d445db 100644
--- a/obp/ope/meta.py
+++ b/obp/ope/meta.py
@@ -184,9 +184,9 @@ class OffPolicyEvaluation:
                             f"Expected `{var_name}.shape[0] == action_dist.shape[0]`, but found it False"
                         )
                 else:
-                    if value.shape[0] != action_dist.shape[1]:
+                    if value_or_dict.shape[0] != action_dist.shape[1]:
                         raise ValueError(
-                            f"Expected `{var_name}[{estimator_name}].shape[0] == action_dist.shape[1]`, but found it False"
+                            f"Expected `{var_name}.shape[0] == action_dist.shape[1]`, but found it False"
                         )
 
         estimator_inputs = {
-- 
2.43.0


From d8c1e847a10ef320538446a9ac4cd58250d1beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:32 +0000
Subject: [PATCH 35/62] fix: the continuous evaluator leaves the caller's
 bandit feedback untouched

---
 obp/ope/meta_continuous.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/obp/ope/meta_continuous.py b/obp/ope/meta_continuous.py
index a12941e..f0e6955 100644
--- a/obp/ope/meta_continuous.py
+++ b/obp/ope/meta_continuous.py
@@ -100,9 +100,11 @@ class ContinuousOffPolicyEvaluation:
         for key_ in ["action", "reward", "pscore"]:
             if key_ not in self.bandit_feedback:
                 raise RuntimeError(f"Missing key of {key_} in 'bandit_feedback'.")
-        self.bandit_feedback["action_by_behavior_policy"] = self.bandit_feedback[
-            "action"
-        ]
+        # leave the caller's dictionary untouched
+        self.bandit_feedback = {
+            **self.bandit_feedback,
+            "action_by_behavior_policy": self.bandit_feedback["action"],
+        }
         self.ope_estimators_ = dict()
         self.is_model_dependent = False
         for estimator in self.ope_estimators:
-- 
2.43.0


From 5d83b91a274b32fedfeb49eef4cb2c5ec9cfc2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:32 +0000
Subject: [PATCH 36/62] fix: the multi-policy plots have one panel per
 estimator

---
 obp/ope/meta.py            | 2 +-
 obp/ope/meta_continuous.py | 2 +-
 obp/ope/meta_multi.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/obp/ope/meta.py b/obp/ope/meta.py
index 0d445db..a7aa9b1 100644
--- a/obp/ope/meta.py
+++ b/obp/ope/meta.py
@@ -979,7 +979,7 @@ class OffPolicyEvaluation:
             if is_relative:
                 estimated_round_rewards_df /= self.bandit_feedback["reward"].mean()
 
-            ax = fig.add_subplot(len(action_dist_list), 1, i + 1)
+            ax = fig.add_subplot(len(self.ope_estimators_), 1, i + 1)
             sns.barplot(
                 data=estimated_round_rewards_df,
                 ax=ax,
diff --git a/obp/ope/meta_continuous.py b/obp/ope/meta_continuous.py
index f0e6955..b9e9b34 100644
--- a/obp/ope/meta_continuous.py
+++ b/obp/ope/meta_continuous.py
@@ -657,7 +657,7 @@ class ContinuousOffPolicyEvaluation:
             if is_relative:
                 estimated_round_rewards_df /= self.bandit_feedback["reward"].mean()
 
-            ax = fig.add_subplot(len(action_by_evaluation_policy_list), 1, i + 1)
+            ax = fig.add_subplot(len(self.ope_estimators_), 1, i + 1)
             sns.barplot(
                 data=estimated_round_rewards_df,
                 ax=ax,
diff --git a/obp/ope/meta_multi.py b/obp/ope/meta_multi.py
index 3b08a6a..e8b8c72 100644
--- a/obp/ope/meta_multi.py
+++ b/obp/ope/meta_multi.py
@@ -774,7 +774,7 @@ class MultiLoggersOffPolicyEvaluation(OffPolicyEvaluation):
             if is_relative:
                 estimated_round_rewards_df /= self.bandit_feedback["reward"].mean()
 
-            ax = fig.add_subplot(len(action_dist_list), 1, i + 1)
+            ax = fig.add_subplot(len(self.ope_estimators_), 1, i + 1)
             sns.barplot(
                 data=estimated_round_rewards_df,
                 ax=ax,
-- 
2.43.0


From 9ab74977b6f2bfdd868f57849e12c18a82193f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:20 +0000
Subject: [PATCH 37/62] fix: importance weights and propensities can be
 predicted without positions

---
 obp/ope/classification_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index b2c307c..aea21c6 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -203,6 +203,8 @@ class ImportanceWeightEstimator(BaseEstimator):
             Importance weights estimated via supervised classification, i.e., :math:`\\hat{w}(x_t, a_t)`.
 
         """
+        if position is None or self.len_list == 1:
+            position = np.zeros_like(action)
         proba_eval_policy = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
@@ -521,6 +523,8 @@ class PropensityScoreEstimator(BaseEstimator):
             Estimated propensity scores, i.e., :math:`\\hat{\\pi}_b (a \\mid x)`.
 
         """
+        if position is None or self.len_list == 1:
+            position = np.zeros_like(action)
         estimated_pscore = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
-- 
2.43.0


From 263665f2ecae6729a10d92ca03c332213ccede8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:42 +0000
Subject: [PATCH 38/62] fix: importance weights can be cross-fitted when a fold
 has no round of some position

---
 obp/ope/classification_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index aea21c6..e887b1c 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -208,6 +208,8 @@ class ImportanceWeightEstimator(BaseEstimator):
         proba_eval_policy = np.zeros(action.shape[0])
         for pos_ in np.arange(self.len_list):
             idx = position == pos_
+            if not idx.any():
+                continue
             X, _, = self._pre_process_for_clf_model(
                 context=context[idx],
                 action=action[idx],
@@ -335,6 +337,8 @@ class ImportanceWeightEstimator(BaseEstimator):
                         sampled_action[idx] = sampled_action_at_position
                 for pos_ in np.arange(self.len_list):
                     idx = position[test_idx] == pos_
+                    if not idx.any():
+                        continue
                     action_dist_at_pos = action_dist[test_idx][idx][:, :, pos_]
                     X, y = self._pre_process_for_clf_model(
                         context=context[test_idx][idx],
-- 
2.43.0


From b33db97d91272592f51b97c100695025f6b03bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:42 +0000
Subject: [PATCH 39/62] fix: propensities are read from the column of their own
 action when training data lacks some action

---
 obp/ope/classification_model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index e887b1c..27920d0 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -534,9 +534,12 @@ class PropensityScoreEstimator(BaseEstimator):
             idx = position == pos_
             if context[idx].shape[0] == 0:
                 continue
-            estimated_pscore[idx] = self.base_model_list[pos_].predict_proba(
-                context[idx]
-            )[np.arange(action[idx].shape[0]), action[idx]]
+            # columns follow the actions observed in training; others have probability zero
+            proba = np.zeros((context[idx].shape[0], self.n_actions))
+            proba[:, self.base_model_list[pos_].classes_] = self.base_model_list[
+                pos_
+            ].predict_proba(context[idx])
+            estimated_pscore[idx] = proba[np.arange(action[idx].shape[0]), action[idx]]
         return estimated_pscore
 
     def fit_predict(
-- 
2.43.0


From 76a4de0e172f739130f88589d2f1fbe265be6847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:42 +0000
Subject: [PATCH 40/62] fix: nuisance models start every fit afresh, so
 cross-fitting cannot leak through warm-started models

---
 obp/ope/classification_model.py   | 2 ++
 obp/ope/regression_model.py       | 2 ++
 obp/ope/regression_model_slate.py | 1 +
 3 files changed, 5 insertions(+)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index 27920d0..4b9b8f2 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -174,6 +174,7 @@ class ImportanceWeightEstimator(BaseEstimator):
             )
             if X.shape[0] == 0:
                 raise ValueError(f"No training data at position {pos_}")
+            self.base_model_list[pos_] = clone(self.base_model_list[pos_])
             self.base_model_list[pos_].fit(X, y)
 
     def predict(
@@ -498,6 +499,7 @@ class PropensityScoreEstimator(BaseEstimator):
             idx = position == pos_
             if context[idx].shape[0] == 0:
                 raise ValueError(f"No training data at position {pos_}")
+            self.base_model_list[pos_] = clone(self.base_model_list[pos_])
             self.base_model_list[pos_].fit(context[idx], action[idx])
 
     def predict(
diff --git a/obp/ope/regression_model.py b/obp/ope/regression_model.py
index 421b9cb..4d6a530 100644
--- a/obp/ope/regression_model.py
+++ b/obp/ope/regression_model.py
@@ -162,6 +162,8 @@ class RegressionModel(BaseEstimator):
             )
             if X.shape[0] == 0:
                 raise ValueError(f"No training data at position {pos_}")
+            # every fit starts from a fresh model, also when the base model warm-starts
+            self.base_model_list[pos_] = clone(self.base_model_list[pos_])
             # train the base model according to the given `fitting method`
             if self.fitting_method == "normal":
                 self.base_model_list[pos_].fit(X, reward[idx])
diff --git a/obp/ope/regression_model_slate.py b/obp/ope/regression_model_slate.py
index 70116b3..3dcc169 100644
--- a/obp/ope/regression_model_slate.py
+++ b/obp/ope/regression_model_slate.py
@@ -194,6 +194,7 @@ class SlateRegressionModel(BaseEstimator):
             if self.fitting_method == "iw":
                 sample_weight = iw[:, pos_]
 
+            self.base_model_list[pos_] = clone(self.base_model_list[pos_])
             self.base_model_list[pos_].fit(X, y, sample_weight=sample_weight)
 
     def predict(
-- 
2.43.0


From 4e12793cf2c6fc6bd932aace241fe2958b975c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:13 +0000
Subject: [PATCH 41/62] fix: continuous synthetic rewards are drawn with the
 mean reported as their expected reward

---
 obp/dataset/synthetic.py       | 3 ++-
 obp/dataset/synthetic_multi.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index f1f0232..4291133 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -327,6 +327,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
 
         # calc expected reward given context and action
         expected_reward_ = self.calc_expected_reward(contexts)
+        reward_location_ = expected_reward_
         if RewardType(self.reward_type) == RewardType.CONTINUOUS:
             # correct expected_reward_, as we use truncated normal distribution here
             mean = expected_reward_
@@ -365,7 +366,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
         actions = sample_action_fast(pi_b, random_state=self.random_state)
 
         # sample rewards based on the context and action
-        rewards = self.sample_reward_given_expected_reward(expected_reward_, actions)
+        rewards = self.sample_reward_given_expected_reward(reward_location_, actions)
 
         return dict(
             n_rounds=n_rounds,
diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 1bf3f8a..2234b0a 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -270,6 +270,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
 
         # calc expected reward given context and action
         expected_reward_ = self.calc_expected_reward(contexts)
+        reward_location_ = expected_reward_
         if RewardType(self.reward_type) == RewardType.CONTINUOUS:
             # correct expected_reward_, as we use truncated normal distribution here
             mean = expected_reward_
@@ -305,7 +306,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
             pi_b_avg += rho * softmax(beta * pi_b_logits)
 
         # sample rewards based on the context and action
-        rewards = self.sample_reward_given_expected_reward(expected_reward_, actions)
+        rewards = self.sample_reward_given_expected_reward(reward_location_, actions)
 
         return dict(
             n_rounds=n_rounds,
-- 
2.43.0


From d2370403bcbaec1b447a6d4ad6391f7d43c3ca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:13 +0000
Subject: [PATCH 42/62] fix: synthetic actions, embeddings and rewards are
 drawn independently of each other and across batches

---
 obp/dataset/synthetic.py            | 4 ++--
 obp/dataset/synthetic_continuous.py | 4 ++--
 obp/dataset/synthetic_embed.py      | 4 ++--
 obp/dataset/synthetic_multi.py      | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index 4291133..aa38595 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -271,7 +271,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
                 b=b,
                 loc=mean,
                 scale=self.reward_std,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
         else:
             raise NotImplementedError
@@ -363,7 +363,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
         else:
             pi_b = softmax(self.beta * pi_b_logits)
         # sample actions for each round based on the behavior policy
-        actions = sample_action_fast(pi_b, random_state=self.random_state)
+        actions = sample_action_fast(pi_b, random_state=self.random_)
 
         # sample rewards based on the context and action
         rewards = self.sample_reward_given_expected_reward(reward_location_, actions)
diff --git a/obp/dataset/synthetic_continuous.py b/obp/dataset/synthetic_continuous.py
index 0c16e22..9a01fb6 100644
--- a/obp/dataset/synthetic_continuous.py
+++ b/obp/dataset/synthetic_continuous.py
@@ -185,7 +185,7 @@ class SyntheticContinuousBanditDataset(BaseBanditDataset):
                 b,
                 loc=expected_action_values,
                 scale=self.action_noise,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
             pscore = truncnorm.pdf(
                 action, a, b, loc=expected_action_values, scale=self.action_noise
@@ -195,7 +195,7 @@ class SyntheticContinuousBanditDataset(BaseBanditDataset):
                 loc=self.min_action_value,
                 scale=(self.max_action_value - self.min_action_value),
                 size=n_rounds,
-                random_state=self.random_state,
+                random_state=self.random_,
             )
             pscore = uniform.pdf(
                 action,
diff --git a/obp/dataset/synthetic_embed.py b/obp/dataset/synthetic_embed.py
index 013d904..415dcb0 100644
--- a/obp/dataset/synthetic_embed.py
+++ b/obp/dataset/synthetic_embed.py
@@ -306,14 +306,14 @@ class SyntheticBanditDatasetWithActionEmbeds(SyntheticBanditDataset):
             )
         else:
             pi_b = softmax(self.beta * pi_b_logits)
-        actions = sample_action_fast(pi_b, random_state=self.random_state)
+        actions = sample_action_fast(pi_b, random_state=self.random_)
 
         # sample action embeddings based on sampled actions
         action_embed = np.zeros((n_rounds, self.n_cat_dim), dtype=int)
         for d in np.arange(self.n_cat_dim):
             action_embed[:, d] = sample_action_fast(
                 self.p_e_a[actions, :, d],
-                random_state=d,
+                random_state=self.random_,
             )
 
         # sample rewards given the context and action embeddings
diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index 2234b0a..bf84478 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -299,7 +299,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
         else:
             pi_b = softmax(beta_ * pi_b_logits)
         # sample actions for each round based on the behavior policy
-        actions = sample_action_fast(pi_b, random_state=self.random_state)
+        actions = sample_action_fast(pi_b, random_state=self.random_)
 
         pi_b_avg = np.zeros_like(pi_b_logits)
         for beta, rho in zip(self.betas, self.rhos):
-- 
2.43.0


From a04387c5d2d6a496b93e4b296e08e4b73f28ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:13 +0000
Subject: [PATCH 43/62] fix: z_score standardises the logits of the synthetic
 reward functions

---
 obp/dataset/synthetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index aa38595..9e858d6 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -825,8 +825,8 @@ def _base_reward_function(
     expected_rewards = context_values + action_values + context_action_values
     if z_score:
         expected_rewards = (
-            expected_rewards - expected_rewards.mean() / expected_rewards.std()
-        )
+            expected_rewards - expected_rewards.mean()
+        ) / expected_rewards.std()
 
     expected_rewards = degree * expected_rewards
 
-- 
2.43.0


From e020c475438761354b6d0919e0099bfaa230425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:13 +0000
Subject: [PATCH 44/62] fix: the loggers of the multi-logger data keep their
 own beta and mixture with deficient actions

---
 obp/dataset/synthetic_multi.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index bf84478..c841247 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -285,6 +285,7 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
         # create some deficient actions based on the value of `n_deficient_actions`
         if self.n_deficient_actions > 0:
             pi_b = np.zeros_like(pi_b_logits)
+            pi_b_avg = np.zeros_like(pi_b_logits)
             n_supported_actions = self.n_actions - self.n_deficient_actions
             supported_actions = np.argsort(
                 self.random_.gumbel(size=(n_rounds, self.n_actions)), axis=1
@@ -294,17 +295,20 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
                 supported_actions,
             )
             pi_b[supported_actions_idx] = softmax(
-                self.beta * pi_b_logits[supported_actions_idx]
+                beta_ * pi_b_logits[supported_actions_idx]
             )
+            for beta, rho in zip(self.betas, self.rhos):
+                pi_b_avg[supported_actions_idx] += rho * softmax(
+                    beta * pi_b_logits[supported_actions_idx]
+                )
         else:
             pi_b = softmax(beta_ * pi_b_logits)
+            pi_b_avg = np.zeros_like(pi_b_logits)
+            for beta, rho in zip(self.betas, self.rhos):
+                pi_b_avg += rho * softmax(beta * pi_b_logits)
         # sample actions for each round based on the behavior policy
         actions = sample_action_fast(pi_b, random_state=self.random_)
 
-        pi_b_avg = np.zeros_like(pi_b_logits)
-        for beta, rho in zip(self.betas, self.rhos):
-            pi_b_avg += rho * softmax(beta * pi_b_logits)
-
         # sample rewards based on the context and action
         rewards = self.sample_reward_given_expected_reward(reward_location_, actions)
 
-- 
2.43.0


From a943bb9981fe31357e0af339f714b15593a2f40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:13 +0000
Subject: [PATCH 45/62] fix: strata sizes of the multi-logger data cannot
 become negative by rounding

---
 obp/dataset/synthetic_multi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/obp/dataset/synthetic_multi.py b/obp/dataset/synthetic_multi.py
index c841247..704fdbc 100644
--- a/obp/dataset/synthetic_multi.py
+++ b/obp/dataset/synthetic_multi.py
@@ -260,7 +260,11 @@ class SyntheticMultiLoggersBanditDataset(SyntheticBanditDataset):
         contexts = self.random_.normal(size=(n_rounds, self.dim_context))
 
         n_rounds_strata = [int(np.round(n_rounds * rho)) for rho in self.rhos]
-        n_rounds_strata[-1] += n_rounds - np.sum(n_rounds_strata)
+        n_rounds_strata[-1] = n_rounds
+        # the sizes of the strata never exceed the number of rounds that remain
+        for k in range(self.n_strata):
+            n_remaining = n_rounds - sum(n_rounds_strata[:k])
+            n_rounds_strata[k] = min(n_rounds_strata[k], n_remaining)
         stratum_idx = np.concatenate(
             [np.ones(n_k, dtype=int) * k for k, n_k in enumerate(n_rounds_strata)]
         )
-- 
2.43.0


From a06fc308d2fae422bfb0762a6fb900ea39c780ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:42 +0000
Subject: [PATCH 46/62] fix: a single synthetic round has an array of rewards
 and actions, not a scalar

---
 obp/dataset/synthetic.py            | 1 +
 obp/dataset/synthetic_continuous.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/obp/dataset/synthetic.py b/obp/dataset/synthetic.py
index 9e858d6..b693006 100644
--- a/obp/dataset/synthetic.py
+++ b/obp/dataset/synthetic.py
@@ -271,6 +271,7 @@ class SyntheticBanditDataset(BaseBanditDataset):
                 b=b,
                 loc=mean,
                 scale=self.reward_std,
+                size=mean.shape,
                 random_state=self.random_,
             )
         else:
diff --git a/obp/dataset/synthetic_continuous.py b/obp/dataset/synthetic_continuous.py
index 9a01fb6..51fe14b 100644
--- a/obp/dataset/synthetic_continuous.py
+++ b/obp/dataset/synthetic_continuous.py
@@ -185,6 +185,7 @@ class SyntheticContinuousBanditDataset(BaseBanditDataset):
                 b,
                 loc=expected_action_values,
                 scale=self.action_noise,
+                size=n_rounds,
                 random_state=self.random_,
             )
             pscore = truncnorm.pdf(
-- 
2.43.0


From f43e0fea653705d14f5bfe9a543e2a6326ee731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:33 +0000
Subject: [PATCH 47/62] fix: the importance of embedding dimensions is a
 distribution even when the Dirichlet draw underflows

---
 obp/dataset/synthetic_embed.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/obp/dataset/synthetic_embed.py b/obp/dataset/synthetic_embed.py
index 415dcb0..3885b5c 100644
--- a/obp/dataset/synthetic_embed.py
+++ b/obp/dataset/synthetic_embed.py
@@ -264,10 +264,14 @@ class SyntheticBanditDatasetWithActionEmbeds(SyntheticBanditDataset):
         check_scalar(n_rounds, "n_rounds", int, min_val=1)
         contexts = self.random_.normal(size=(n_rounds, self.dim_context))
         cat_dim_importance = np.zeros(self.n_cat_dim)
-        cat_dim_importance[self.n_irrelevant_cat_dim :] = self.random_.dirichlet(
-            alpha=self.random_.uniform(size=self.n_cat_dim - self.n_irrelevant_cat_dim),
-            size=1,
-        )
+        alpha = self.random_.uniform(size=self.n_cat_dim - self.n_irrelevant_cat_dim)
+        importance = self.random_.dirichlet(alpha=alpha, size=1)
+        if np.isnan(importance).any():
+            # all gamma variates underflowed: the Dirichlet mass sits on one dimension
+            importance = np.eye(alpha.size)[
+                self.random_.choice(alpha.size, p=alpha / alpha.sum())
+            ]
+        cat_dim_importance[self.n_irrelevant_cat_dim :] = importance
         cat_dim_importance = cat_dim_importance.reshape((1, 1, self.n_cat_dim))
 
         # calc expected rewards given context and action (n_data, n_actions)
-- 
2.43.0


From 0265d8a36b87eb3c15a1d2526cfb27d8bc8cf070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:24 +0000
Subject: [PATCH 48/62] fix: logged actions of the multi-class reduction are
 drawn independently of the deficient actions

---
 obp/dataset/multiclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/dataset/multiclass.py b/obp/dataset/multiclass.py
index 95c50b5..5ba73ba 100644
--- a/obp/dataset/multiclass.py
+++ b/obp/dataset/multiclass.py
@@ -274,7 +274,7 @@ class MultiClassToBanditReduction(BaseBanditDataset):
                 :, np.newaxis
             ]  # re-normalize the probability distribution
         # sample actions and factual rewards
-        actions = sample_action_fast(pi_b, random_state=random_state)
+        actions = sample_action_fast(pi_b, random_state=random_)
         rewards = self.y_full_ev[np.arange(self.n_rounds_ev), actions]
 
         return dict(
-- 
2.43.0


From 245aed5d8a12e05665bc17934525c409b73e719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:32 +0000
Subject: [PATCH 49/62] fix: a mini-batch of one round does not turn the policy
 network into NaN

---
 obp/policy/offline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 21041ac..02b09e7 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -1154,7 +1154,8 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
                 )
                 loss = -policy_grad_arr.mean()
                 loss += self.policy_reg_param * policy_constraint
-                loss += self.var_reg_param * torch.var(policy_grad_arr)
+                if policy_grad_arr.shape[0] > 1:  # no variance in a batch of one
+                    loss += self.var_reg_param * torch.var(policy_grad_arr)
                 loss.backward()
                 optimizer.step()
 
@@ -1187,7 +1188,8 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
                     )
                     loss = -policy_grad_arr.mean()
                     loss += self.policy_reg_param * policy_constraint
-                    loss += self.var_reg_param * torch.var(policy_grad_arr)
+                    if policy_grad_arr.shape[0] > 1:
+                        loss += self.var_reg_param * torch.var(policy_grad_arr)
                     loss_value = loss.item()
                     if previous_validation_loss is not None:
                         if loss_value - previous_validation_loss < self.tol:
-- 
2.43.0


From b5acea05d2e331811e3a54dd08dbae13070be289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:32 +0000
Subject: [PATCH 50/62] fix: neural learners stop when the loss stops
 improving, not when it improves

---
 obp/policy/offline.py            | 20 ++++++++++++++------
 obp/policy/offline_continuous.py | 20 ++++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 02b09e7..2654f9d 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -1161,13 +1161,15 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
 
                 loss_value = loss.item()
                 if previous_training_loss is not None:
-                    if loss_value - previous_training_loss < self.tol:
+                    if previous_training_loss - loss_value < self.tol:
                         n_not_improving_training += 1
                     else:
                         n_not_improving_training = 0
                 if n_not_improving_training >= self.n_iter_no_change:
                     break
                 previous_training_loss = loss_value
+            if n_not_improving_training >= self.n_iter_no_change:
+                break
 
             if self.early_stopping:
                 self.nn_model.eval()
@@ -1192,13 +1194,15 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
                         loss += self.var_reg_param * torch.var(policy_grad_arr)
                     loss_value = loss.item()
                     if previous_validation_loss is not None:
-                        if loss_value - previous_validation_loss < self.tol:
+                        if previous_validation_loss - loss_value < self.tol:
                             n_not_improving_validation += 1
                         else:
                             n_not_improving_validation = 0
-                    if n_not_improving_validation > self.n_iter_no_change:
+                    if n_not_improving_validation >= self.n_iter_no_change:
                         break
                     previous_validation_loss = loss_value
+                if n_not_improving_validation >= self.n_iter_no_change:
+                    break
 
     def _estimate_policy_gradient(
         self,
@@ -1814,13 +1818,15 @@ class QFuncEstimator:
 
                 loss_value = loss.item()
                 if previous_training_loss is not None:
-                    if loss_value - previous_training_loss < self.tol:
+                    if previous_training_loss - loss_value < self.tol:
                         n_not_improving_training += 1
                     else:
                         n_not_improving_training = 0
                 if n_not_improving_training >= self.n_iter_no_change:
                     break
                 previous_training_loss = loss_value
+            if n_not_improving_training >= self.n_iter_no_change:
+                break
 
             if self.early_stopping:
                 self.nn_model.eval()
@@ -1831,13 +1837,15 @@ class QFuncEstimator:
                     loss = mse_loss(r, q_hat)
                     loss_value = loss.item()
                     if previous_validation_loss is not None:
-                        if loss_value - previous_validation_loss < self.tol:
+                        if previous_validation_loss - loss_value < self.tol:
                             n_not_improving_validation += 1
                         else:
                             n_not_improving_validation = 0
-                    if n_not_improving_validation > self.n_iter_no_change:
+                    if n_not_improving_validation >= self.n_iter_no_change:
                         break
                     previous_validation_loss = loss_value
+                if n_not_improving_validation >= self.n_iter_no_change:
+                    break
 
     def predict(
         self,
diff --git a/obp/policy/offline_continuous.py b/obp/policy/offline_continuous.py
index 8ce6a69..8fa2f3d 100644
--- a/obp/policy/offline_continuous.py
+++ b/obp/policy/offline_continuous.py
@@ -489,13 +489,15 @@ class ContinuousNNPolicyLearner(BaseContinuousOfflinePolicyLearner):
                 optimizer.step()
                 loss_value = loss.item()
                 if previous_training_loss is not None:
-                    if loss_value - previous_training_loss < self.tol:
+                    if previous_training_loss - loss_value < self.tol:
                         n_not_improving_training += 1
                     else:
                         n_not_improving_training = 0
                 if n_not_improving_training >= self.n_iter_no_change:
                     break
                 previous_training_loss = loss_value
+            if n_not_improving_training >= self.n_iter_no_change:
+                break
 
             if self.early_stopping:
                 self.nn_model.eval()
@@ -511,13 +513,15 @@ class ContinuousNNPolicyLearner(BaseContinuousOfflinePolicyLearner):
                     loss_value = loss.item()
                     self.val_loss_curve.append(-loss_value)
                     if previous_validation_loss is not None:
-                        if loss_value - previous_validation_loss < self.tol:
+                        if previous_validation_loss - loss_value < self.tol:
                             n_not_improving_validation += 1
                         else:
                             n_not_improving_validation = 0
-                    if n_not_improving_validation > self.n_iter_no_change:
+                    if n_not_improving_validation >= self.n_iter_no_change:
                         break
                     previous_validation_loss = loss_value
+                if n_not_improving_validation >= self.n_iter_no_change:
+                    break
 
     def _estimate_policy_gradient(
         self,
@@ -996,13 +1000,15 @@ class QFuncEstimatorForContinuousAction:
 
                 loss_value = loss.item()
                 if previous_training_loss is not None:
-                    if loss_value - previous_training_loss < self.tol:
+                    if previous_training_loss - loss_value < self.tol:
                         n_not_improving_training += 1
                     else:
                         n_not_improving_training = 0
                 if n_not_improving_training >= self.n_iter_no_change:
                     break
                 previous_training_loss = loss_value
+            if n_not_improving_training >= self.n_iter_no_change:
+                break
 
             if self.early_stopping:
                 self.nn_model.eval()
@@ -1011,13 +1017,15 @@ class QFuncEstimatorForContinuousAction:
                     loss = nn.functional.mse_loss(r, q_hat)
                     loss_value = loss.item()
                     if previous_validation_loss is not None:
-                        if loss_value - previous_validation_loss < self.tol:
+                        if previous_validation_loss - loss_value < self.tol:
                             n_not_improving_validation += 1
                         else:
                             n_not_improving_validation = 0
-                    if n_not_improving_validation > self.n_iter_no_change:
+                    if n_not_improving_validation >= self.n_iter_no_change:
                         break
                     previous_validation_loss = loss_value
+                if n_not_improving_validation >= self.n_iter_no_change:
+                    break
 
     def predict(
         self,
-- 
2.43.0


From 4bcc0deb9cc3993050793b74a1f6315b658e60e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:33 +0000
Subject: [PATCH 51/62] fix: QLearner weights its regression by a probability
 distribution over actions

---
 obp/policy/offline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 2654f9d..06fdae7 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -441,6 +441,7 @@ class QLearner(BaseOfflinePolicyLearner):
                 raise ValueError("When `self.len_list > 1`, `position` must be given.")
 
         unif_action_dist = np.ones((context.shape[0], self.n_actions, self.len_list))
+        unif_action_dist /= self.n_actions
         self.q_estimator.fit(
             context=context,
             action=action,
-- 
2.43.0


From 76790a97b5bad14e8f23e3a93217ed48c0fd083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:33 +0000
Subject: [PATCH 52/62] fix: without propensities IPWLearner and QLearner
 assume a uniform policy over all actions

---
 obp/policy/offline.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 06fdae7..c062a8c 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -164,8 +164,7 @@ class IPWLearner(BaseOfflinePolicyLearner):
                 "and please use `obp.policy.NNPolicyLearner` instead."
             )
         if pscore is None:
-            n_actions = np.int32(action.max() + 1)
-            pscore = np.ones_like(action) / n_actions
+            pscore = np.ones_like(action) / self.n_actions
         if self.len_list == 1:
             position = np.zeros_like(action, dtype=int)
         else:
@@ -432,8 +431,7 @@ class QLearner(BaseOfflinePolicyLearner):
             position=position,
         )
         if pscore is None:
-            n_actions = np.int32(action.max() + 1)
-            pscore = np.ones_like(action) / n_actions
+            pscore = np.ones_like(action) / self.n_actions
         if self.len_list == 1:
             position = np.zeros_like(action, dtype=int)
         else:
-- 
2.43.0


From 435b886f91e3d68ce7c2b6b640128941d8cf0fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:33 +0000
Subject: [PATCH 53/62] fix: IPWLearner scores actions that are missing from
 the training data

---
 obp/policy/offline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index c062a8c..1a5f5a1 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -237,7 +237,9 @@ class IPWLearner(BaseOfflinePolicyLearner):
             score_predicteds_at_position = self.base_classifier_list[p].predict_proba(
                 context
             )
-            score_predicted[:, :, p] = score_predicteds_at_position
+            score_predicted[
+                :, self.base_classifier_list[p].classes_, p
+            ] = score_predicteds_at_position
         return score_predicted
 
     def sample_action(
-- 
2.43.0


From 3ca4e4942d93e21f75d558ad8bb9aa373d84e2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:12 +0000
Subject: [PATCH 54/62] fix: neural learners train with plain SGD when momentum
 is zero

---
 obp/policy/offline.py            | 4 ++--
 obp/policy/offline_continuous.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 1a5f5a1..24c82ae 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -1104,7 +1104,7 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
                 lr=self.learning_rate_init,
                 momentum=self.momentum,
                 weight_decay=self.alpha,
-                nesterov=self.nesterovs_momentum,
+                nesterov=self.nesterovs_momentum and self.momentum > 0,
             )
         elif self.solver == "adagrad":
             optimizer = optim.Adagrad(
@@ -1773,7 +1773,7 @@ class QFuncEstimator:
                 lr=self.learning_rate_init,
                 momentum=self.momentum,
                 weight_decay=self.alpha,
-                nesterov=self.nesterovs_momentum,
+                nesterov=self.nesterovs_momentum and self.momentum > 0,
             )
         elif self.solver == "adagrad":
             optimizer = optim.Adagrad(
diff --git a/obp/policy/offline_continuous.py b/obp/policy/offline_continuous.py
index 8fa2f3d..b5330b6 100644
--- a/obp/policy/offline_continuous.py
+++ b/obp/policy/offline_continuous.py
@@ -439,7 +439,7 @@ class ContinuousNNPolicyLearner(BaseContinuousOfflinePolicyLearner):
                 lr=self.learning_rate_init,
                 momentum=self.momentum,
                 weight_decay=self.alpha,
-                nesterov=self.nesterovs_momentum,
+                nesterov=self.nesterovs_momentum and self.momentum > 0,
             )
         elif self.solver == "adagrad":
             optimizer = optim.Adagrad(
@@ -954,7 +954,7 @@ class QFuncEstimatorForContinuousAction:
                 lr=self.learning_rate_init,
                 momentum=self.momentum,
                 weight_decay=self.alpha,
-                nesterov=self.nesterovs_momentum,
+                nesterov=self.nesterovs_momentum and self.momentum > 0,
             )
         elif self.solver == "adagrad":
             optimizer = optim.Adagrad(
-- 
2.43.0


From 278cc04e352a9149ed009d54968200c16aabcf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:58 +0000
Subject: [PATCH 55/62] fix: fitting a seeded neural learner does not depend on
 the global torch state

---
 obp/policy/offline.py            | 6 ++++++
 obp/policy/offline_continuous.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index 24c82ae..e546f45 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -1075,6 +1075,9 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
             Currently, this feature is not supported.
 
         """
+        if self.random_state is not None:
+            torch.manual_seed(self.random_state)
+
         check_bandit_feedback_inputs(
             context=context,
             action=action,
@@ -1756,6 +1759,9 @@ class QFuncEstimator:
             Rewards observed for each data in logged bandit data, i.e., :math:`r_i`.
 
         """
+        if self.random_state is not None:
+            torch.manual_seed(self.random_state)
+
         check_bandit_feedback_inputs(
             context=context,
             action=action,
diff --git a/obp/policy/offline_continuous.py b/obp/policy/offline_continuous.py
index b5330b6..26b5a51 100644
--- a/obp/policy/offline_continuous.py
+++ b/obp/policy/offline_continuous.py
@@ -411,6 +411,9 @@ class ContinuousNNPolicyLearner(BaseContinuousOfflinePolicyLearner):
             Action choice probabilities by a behavior policy (generalized propensity scores), i.e., :math:`\\pi_b(a_i|x_i)`.
 
         """
+        if self.random_state is not None:
+            torch.manual_seed(self.random_state)
+
         check_continuous_bandit_feedback_inputs(
             context=context,
             action_by_behavior_policy=action,
@@ -937,6 +940,9 @@ class QFuncEstimatorForContinuousAction:
             Rewards observed for each data in logged bandit data, i.e., :math:`r_i`.
 
         """
+        if self.random_state is not None:
+            torch.manual_seed(self.random_state)
+
         check_continuous_bandit_feedback_inputs(
             context=context,
             action_by_behavior_policy=action,
-- 
2.43.0


From a79ece77447e0b01a6430987e72ba98a4216bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:58 +0000
Subject: [PATCH 56/62] fix: neural learners do not write into the caller's
 q_func_estimator_hyperparams

---
 obp/policy/offline.py            | 9 ++++-----
 obp/policy/offline_continuous.py | 7 +++----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index e546f45..cfe1b11 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -943,11 +943,10 @@ class NNPolicyLearner(BaseOfflinePolicyLearner):
 
         if self.off_policy_objective in ["dr", "dm"]:
             if self.q_func_estimator_hyperparams is not None:
-                self.q_func_estimator_hyperparams["n_actions"] = self.n_actions
-                self.q_func_estimator_hyperparams["dim_context"] = self.dim_context
-                self.q_func_estimator = QFuncEstimator(
-                    **self.q_func_estimator_hyperparams
-                )
+                hyperparams = dict(self.q_func_estimator_hyperparams)
+                hyperparams["n_actions"] = self.n_actions
+                hyperparams["dim_context"] = self.dim_context
+                self.q_func_estimator = QFuncEstimator(**hyperparams)
             else:
                 self.q_func_estimator = QFuncEstimator(
                     n_actions=self.n_actions, dim_context=self.dim_context
diff --git a/obp/policy/offline_continuous.py b/obp/policy/offline_continuous.py
index 26b5a51..6db1dc6 100644
--- a/obp/policy/offline_continuous.py
+++ b/obp/policy/offline_continuous.py
@@ -294,10 +294,9 @@ class ContinuousNNPolicyLearner(BaseContinuousOfflinePolicyLearner):
 
         if self.pg_method != "ipw":
             if self.q_func_estimator_hyperparams is not None:
-                self.q_func_estimator_hyperparams["dim_context"] = self.dim_context
-                self.q_func_estimator = QFuncEstimatorForContinuousAction(
-                    **self.q_func_estimator_hyperparams
-                )
+                hyperparams = dict(self.q_func_estimator_hyperparams)
+                hyperparams["dim_context"] = self.dim_context
+                self.q_func_estimator = QFuncEstimatorForContinuousAction(**hyperparams)
             else:
                 self.q_func_estimator = QFuncEstimatorForContinuousAction(
                     dim_context=self.dim_context
-- 
2.43.0


From 5acf04d1add5e0cf1b2078205dfcbe1d7f26cd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:59 +0000
Subject: [PATCH 57/62] fix: action distributions with negative probabilities
 are rejected

---
 obp/ope/classification_model.py   | 8 ++++++--
 obp/ope/regression_model.py       | 4 +++-
 obp/ope/regression_model_slate.py | 2 +-
 obp/utils.py                      | 4 ++--
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/obp/ope/classification_model.py b/obp/ope/classification_model.py
index 4b9b8f2..8f9a4d7 100644
--- a/obp/ope/classification_model.py
+++ b/obp/ope/classification_model.py
@@ -149,7 +149,9 @@ class ImportanceWeightEstimator(BaseEstimator):
             raise ValueError(
                 f"shape of `action_dist` must be (n_rounds, n_actions, len_list)=({n, self.n_actions, self.len_list}), but is {action_dist.shape}"
             )
-        if not np.allclose(action_dist.sum(axis=1), 1):
+        if np.any(action_dist < 0) or not np.allclose(
+            action_dist.sum(axis=1), 1
+        ):
             raise ValueError("`action_dist` must be a probability distribution")
 
         # If self.fitting_method != "sample", `sampled_action` has no information
@@ -295,7 +297,9 @@ class ImportanceWeightEstimator(BaseEstimator):
             raise ValueError(
                 f"shape of `action_dist` must be (n_rounds, n_actions, len_list)=({n, self.n_actions, self.len_list}), but is {action_dist.shape}"
             )
-        if not np.allclose(action_dist.sum(axis=1), 1):
+        if np.any(action_dist < 0) or not np.allclose(
+            action_dist.sum(axis=1), 1
+        ):
             raise ValueError("`action_dist` must be a probability distribution")
 
         if n_folds == 1:
diff --git a/obp/ope/regression_model.py b/obp/ope/regression_model.py
index 4d6a530..6463be6 100644
--- a/obp/ope/regression_model.py
+++ b/obp/ope/regression_model.py
@@ -148,7 +148,9 @@ class RegressionModel(BaseEstimator):
                 raise ValueError(
                     f"shape of `action_dist` must be (n_rounds, n_actions, len_list)=({n, self.n_actions, self.len_list}), but is {action_dist.shape}"
                 )
-            if not np.allclose(action_dist.sum(axis=1), 1):
+            if np.any(action_dist < 0) or not np.allclose(
+                action_dist.sum(axis=1), 1
+            ):
                 raise ValueError("`action_dist` must be a probability distribution")
         if pscore is None:
             pscore = np.ones_like(action) / self.n_actions
diff --git a/obp/ope/regression_model_slate.py b/obp/ope/regression_model_slate.py
index 3dcc169..cffd122 100644
--- a/obp/ope/regression_model_slate.py
+++ b/obp/ope/regression_model_slate.py
@@ -157,7 +157,7 @@ class SlateRegressionModel(BaseEstimator):
             raise ValueError(
                 "`evaluation_policy_pscore_cascade` must be in the range of (0, 1]"
             )
-        if not np.allclose(
+        if np.any(evaluation_policy_action_dist < 0) or not np.allclose(
             np.ones(
                 evaluation_policy_action_dist.reshape((-1, self.n_unique_action)).shape[
                     0
diff --git a/obp/utils.py b/obp/utils.py
index d3e9780..96c7ae5 100755
--- a/obp/utils.py
+++ b/obp/utils.py
@@ -347,7 +347,7 @@ def check_ope_inputs(
     """
     # action_dist
     check_array(array=action_dist, name="action_dist", expected_dim=3)
-    if not np.allclose(action_dist.sum(axis=1), 1):
+    if np.any(action_dist < 0) or not np.allclose(action_dist.sum(axis=1), 1):
         raise ValueError("`action_dist` must be a probability distribution")
 
     # position
@@ -964,7 +964,7 @@ def check_cascade_dr_inputs(
     evaluation_policy_action_dist_ = evaluation_policy_action_dist.reshape(
         (-1, n_unique_action)
     )
-    if not np.allclose(
+    if np.any(evaluation_policy_action_dist_ < 0) or not np.allclose(
         np.ones(evaluation_policy_action_dist_.shape[0]),
         evaluation_policy_action_dist_.sum(axis=1),
     ):
-- 
2.43.0


From e453e490c5ba4360fd3a2c5a7a1cf4e751a6dbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:59 +0000
Subject: [PATCH 58/62] fix: slate inputs accept integers of any width

---
 obp/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/obp/utils.py b/obp/utils.py
index 96c7ae5..9757914 100755
--- a/obp/utils.py
+++ b/obp/utils.py
@@ -652,7 +652,7 @@ def _check_slate_ope_inputs(
     """
     # position
     check_array(array=position, name="position", expected_dim=1)
-    if not (position.dtype == int and position.min() >= 0):
+    if not (np.issubdtype(position.dtype, np.integer) and position.min() >= 0):
         raise ValueError("`position` elements must be non-negative integers")
 
     # reward
@@ -676,7 +676,7 @@ def _check_slate_ope_inputs(
 
     # slate id
     check_array(array=slate_id, name="slate_id", expected_dim=1)
-    if not (slate_id.dtype == int and slate_id.min() >= 0):
+    if not (np.issubdtype(slate_id.dtype, np.integer) and slate_id.min() >= 0):
         raise ValueError("slate_id elements must be non-negative integers")
     if not (
         slate_id.shape[0]
-- 
2.43.0


From 1d9ff72b8b785b4906190e51a8f2d5bbba4a72db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:59 +0000
Subject: [PATCH 59/62] fix: all contextual policies reject a context that is
 not a single row

---
 obp/policy/linear.py   |  4 ++++
 obp/policy/logistic.py | 13 +++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/obp/policy/linear.py b/obp/policy/linear.py
index 48daf3d..e22b0f0 100644
--- a/obp/policy/linear.py
+++ b/obp/policy/linear.py
@@ -295,6 +295,10 @@ class LinTS(BaseLinPolicy):
             List of selected actions.
 
         """
+        check_array(array=context, name="context", expected_dim=2)
+        if context.shape[0] != 1:
+            raise ValueError("Expected `context.shape[0] == 1`, but found it False")
+
         self.theta_hat = np.concatenate(
             [
                 self.A_inv[i] @ self.b[:, i][:, np.newaxis]
diff --git a/obp/policy/logistic.py b/obp/policy/logistic.py
index efb75a1..dc5e77b 100644
--- a/obp/policy/logistic.py
+++ b/obp/policy/logistic.py
@@ -10,6 +10,7 @@ from scipy.optimize import minimize
 from sklearn.utils import check_random_state
 from sklearn.utils import check_scalar
 
+from ..utils import check_array
 from ..utils import sigmoid
 from .base import BaseContextualPolicy
 
@@ -165,6 +166,10 @@ class LogisticEpsilonGreedy(BaseLogisticPolicy):
             List of selected actions.
 
         """
+        check_array(array=context, name="context", expected_dim=2)
+        if context.shape[0] != 1:
+            raise ValueError("Expected `context.shape[0] == 1`, but found it False")
+
         if self.random_.rand() > self.epsilon:
             theta = np.array(
                 [model.predict_proba(context) for model in self.model_list]
@@ -237,6 +242,10 @@ class LogisticUCB(BaseLogisticPolicy):
             List of selected actions.
 
         """
+        check_array(array=context, name="context", expected_dim=2)
+        if context.shape[0] != 1:
+            raise ValueError("Expected `context.shape[0] == 1`, but found it False")
+
         theta = np.array(
             [model.predict_proba(context) for model in self.model_list]
         ).flatten()
@@ -305,6 +314,10 @@ class LogisticTS(BaseLogisticPolicy):
             List of selected actions.
 
         """
+        check_array(array=context, name="context", expected_dim=2)
+        if context.shape[0] != 1:
+            raise ValueError("Expected `context.shape[0] == 1`, but found it False")
+
         theta = np.array(
             [model.predict_proba_with_sampling(context) for model in self.model_list]
         ).flatten()
-- 
2.43.0


From e3e4fc187cc1922ee8bd8f89dda3b055faa5ac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:36 +0000
Subject: [PATCH 60/62] fix: IPWLearner.fit rejects actions and positions it
 has no place for

---
 obp/policy/offline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/policy/offline.py b/obp/policy/offline.py
index cfe1b11..d05244e 100644
--- a/obp/policy/offline.py
+++ b/obp/policy/offline.py
@@ -157,6 +157,8 @@ class IPWLearner(BaseOfflinePolicyLearner):
             pscore=pscore,
             position=position,
         )
+        if action.max() >= self.n_actions:
+            raise ValueError("`action` elements must be smaller than `n_actions`")
         if (reward < 0).any():
             raise ValueError(
                 "A negative value is found in `reward`."
@@ -170,6 +172,8 @@ class IPWLearner(BaseOfflinePolicyLearner):
         else:
             if position is None:
                 raise ValueError("When `self.len_list > 1`, `position` must be given.")
+            if position.max() >= self.len_list:
+                raise ValueError("`position` elements must be smaller than `len_list`")
 
         for p in np.arange(self.len_list):
             X, sample_weight, y = self._create_train_data_for_opl(
-- 
2.43.0


From e5a34986dbd1a8923558cbdbb4f523890a876214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:53 +0000
Subject: [PATCH 61/62] fix: OPE inputs of different lengths are rejected

---
 obp/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/obp/utils.py b/obp/utils.py
index 9757914..ebf0588 100755
--- a/obp/utils.py
+++ b/obp/utils.py
@@ -391,6 +391,10 @@ def check_ope_inputs(
             raise ValueError(
                 "Expected `action.shape[0] == reward.shape[0]`, but found it False"
             )
+        if not (action.shape[0] == action_dist.shape[0]):
+            raise ValueError(
+                "Expected `action.shape[0] == action_dist.shape[0]`, but found it False"
+            )
         if not (
             np.issubdtype(action.dtype, np.integer)
             and action.min() >= 0
-- 
2.43.0


From d4c7db00e818972bdb0fcd4dd5b3aa109bd0c1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:53 +0000
Subject: [PATCH 62/62] fix: default number of bootstrap samples of
 ReplayMethod.estimate_interval is the documented 10000

---
 obp/ope/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/obp/ope/estimators.py b/obp/ope/estimators.py
index 051b4b9..9b22bc6 100644
--- a/obp/ope/estimators.py
+++ b/obp/ope/estimators.py
@@ -167,7 +167,7 @@ class ReplayMethod(BaseOffPolicyEstimator):
         action_dist: np.ndarray,
         position: Optional[np.ndarray] = None,
         alpha: float = 0.05,
-        n_bootstrap_samples: int = 100,
+        n_bootstrap_samples: int = 10000,
         random_state: Optional[int] = None,
         **kwargs,
     ) -> Dict[str, float]:
-- 
2.43.0

