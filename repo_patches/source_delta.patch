From fed6b1594b37a46ecb12586f60c69ad530e8f88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 01/15] fix: keep the corrected mean one-dimensional in the
 measurement update

The innovation was reshaped to a column, so adding it to the 1-D state mean
broadcast to an (n, n) array for n > 1: EP with any multi-dimensional state
returned a matrix-valued mean or crashed.
---
 MomentMatching/Estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MomentMatching/Estimator.py b/MomentMatching/Estimator.py
index 00fdb99..31435e6 100644
--- a/MomentMatching/Estimator.py
+++ b/MomentMatching/Estimator.py
@@ -74,7 +74,7 @@ class Estimator:
         z_cov = symmetrize(z_cov)
         np.linalg.cholesky(z_cov)
         kalman_gain = np.linalg.solve(z_cov, xz_cross_cov.T).T
-        mean = state.mean + kalman_gain @ (meas - z_mean).reshape(-1,1)  # equation 15  in Marc's ACC paper
+        mean = state.mean + kalman_gain @ (meas - z_mean)  # equation 15  in Marc's ACC paper
         cov = state.cov - kalman_gain @ xz_cross_cov.T
         cov = symmetrize(cov)
         corrected_state = Gaussian(mean, cov)
-- 
2.43.0


From 8a3e3e1420c182a82d9d0b7a057a0dce592f441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 02/15] fix: Taylor transform keeps matrix shapes for
 one-dimensional maps

For functions returning a (1, m) row, squeezing all axes collapsed the Jacobian
of a one-output (or one-input) map to a vector or scalar, and the transform or
the update using it then crashed (e.g. bearings-only tracking with one sensor).
---
 MomentMatching/TaylorLinearisation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MomentMatching/TaylorLinearisation.py b/MomentMatching/TaylorLinearisation.py
index cb16794..e4ef4c5 100644
--- a/MomentMatching/TaylorLinearisation.py
+++ b/MomentMatching/TaylorLinearisation.py
@@ -51,9 +51,9 @@ class TaylorTransform(MappingTransform):
         # J_t = self.numerical_jacobian(func, state.mean)
         J_t = jacobian(func)(state.mean)
         if np.ndim(J_t) > 2:
-          J_t = np.squeeze(J_t)
+          J_t = np.squeeze(J_t, axis=0)
         mean = func(state.mean)
-        mean = np.squeeze(mean)
+        mean = np.atleast_1d(np.squeeze(mean))
         cov = J_t @ state.cov @ J_t.T
         cross_cov = state.cov @ J_t.T
         return mean, cov, cross_cov
-- 
2.43.0


From 90de9453ffacc00d3baa874c66e91f61769727d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 03/15] fix: sign of the linearisation offset in the iterated
 EKF

The measurement linearised at the iterate x_i predicts h(x_i) + H_i (x - x_i) at
the prior mean x. With the minus sign even a linear model gave a different
answer from the Kalman update from the second iteration on.
---
 Filters/KalmanFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index bbee379..db38658 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -136,7 +136,7 @@ class IEKF(KalmanFilterSmoother):
         for i in range(self.num_iter):
             h_i = self.measurement(state.mean, t, u)[0]
             H_i = jacobian(self.measurement, argnum=0)(state.mean, t, u)[0]
-            z_mean = h_i - H_i @ (x - state.mean)
+            z_mean = h_i + H_i @ (x - state.mean)
             z_cov = H_i @ P @ H_i.T + self.measurement_noise
             xz_cross_cov = P @ H_i.T
 
-- 
2.43.0


From 5426e6f934517d857be19dde3a6ca0a5dd8b31c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 04/15] fix: IEKS starts every call from the original model

The iterations replace self.transition and self.measurement by linearised maps,
so a second call of the same smoother ran its first pass with the last
linearisation of the previous call and returned a different result.
---
 Filters/KalmanFilter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index db38658..c47ec78 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -233,6 +233,10 @@ class IEKS(KalmanFilterSmoother):
     #     self.f_list = [self._linearise(self.f, self.Df, self.init_state.mean) for _ in measurements]
     #     self.h_list = [self._linearise(self.h, self.Dh, self.init_state.mean) for _ in measurements]
 
+        # Start from the original model: earlier iterations (or calls) leave their linearisation behind
+        self.transition = self.f
+        self.measurement = self.h
+
         # First iteration
         filter_results = self.kalman_filter(measurements)
         smoother_results = self.kalman_smoother(filter_results)
-- 
2.43.0


From d50b834ecd55d503477bd689c4d227574de757f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 05/15] fix: IEKS linearises each transition at the state it
 departs from

f_list[i] maps x_{i-1} to x_i but was expanded around the smoothed mean of x_i,
so the iterations did not linearise at the current trajectory (Bell, 1994) and
settled at (or wandered to) points with a higher MAP cost.
---
 Filters/KalmanFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index c47ec78..4107122 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -241,7 +241,7 @@ class IEKS(KalmanFilterSmoother):
         filter_results = self.kalman_filter(measurements)
         smoother_results = self.kalman_smoother(filter_results)
 
-        self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
+        self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in [self.init_state] + smoother_results[:-1]]
         self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
 
         for k in range(num_iter-1):
@@ -251,7 +251,7 @@ class IEKS(KalmanFilterSmoother):
             smoother_results = self._kalman_smoother(filter_results)
 
             # Update linearisation points
-            self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
+            self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in [self.init_state] + smoother_results[:-1]]
             self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
         
         return smoother_results
\ No newline at end of file
-- 
2.43.0


From 0c36bc91f4bec80d408fcc5543a4fff27ad3979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 06/15] fix: kalman_smoother honours t_zero

The filter accepts a start time, but the smoother silently swallowed t_zero and
always evaluated the transition at times counted from zero.
---
 Filters/KalmanFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index 4107122..0cc824a 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -103,10 +103,10 @@ class KalmanFilterSmoother:
 
         return result_filter
 
-    def kalman_smoother(self, filtered_list, u=None, *args, **kwargs):
+    def kalman_smoother(self, filtered_list, u=None, t_zero=0.0, *args, **kwargs):
         reversed_filtered = reversed(filtered_list)
         N = len(filtered_list)
-        t = (N-1) * self.dt
+        t = t_zero + (N-1) * self.dt
 
         result = []
 
-- 
2.43.0


From d52a257ec9f88f3bd75ca84b0c9dfd59a71f47c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 07/15] fix: simulate does not add noise in place

When the transition or measurement function returns its argument (random walk,
direct observation), the in-place additions overwrote the caller's x_zero, every
earlier state of the trajectory, and added the measurement noise to the state.
---
 Systems/DynamicSystem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index 32abf1d..b4821cf 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -51,9 +51,9 @@ class DynamicSystem(metaclass=ABCMeta):
             # y_true = self.measure(x=x_noisy)
             # y_noisy = y_true + self.measurement_noise.sample()
             x = self.transition(x=x, t=t)
-            x += self.system_noise.sample()
+            x = x + self.system_noise.sample()
             y = self.measure(x=x)
-            y += self.measurement_noise.sample()
+            y = y + self.measurement_noise.sample()
             yield x, y # x_true, x_noisy, y_true, y_noisy
             #x = x_noisy
             t = t + self.dt
@@ -110,9 +110,9 @@ class DynamicSystemModel(DynamicSystem):
 
         for _ in range(N):
             x = self.transition(x=x, t=t)
-            x += self.system_noise.sample()
+            x = x + self.system_noise.sample()
             y = self.measurement(x=x)
-            y += self._measurement_noise.sample()
+            y = y + self._measurement_noise.sample()
             yield x, y
             t = t + self.dt
 
-- 
2.43.0


From ea3b5e3efb333d08f5245f2dcac1ec718f8052b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 08/15] fix: GaussianNoise keeps a given mean and defaults to a
 covariance of its dimension

A mean passed to the constructor was dropped (sample() then raised
AttributeError), and the default covariance was 1x1 whatever the dimension.
---
 Systems/DynamicSystem.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index b4821cf..af4305c 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -12,13 +12,16 @@ class NoiseModel:
 
 
 class GaussianNoise(NoiseModel):
-    def __init__(self, dimension=1, cov=np.eye(1), mean=None):
+    def __init__(self, dimension=1, cov=None, mean=None):
+        if cov is None:
+            cov = np.eye(dimension)
         Gaussian = namedtuple('Gaussian', ['Q'])
         params = Gaussian(Q=cov)
         self.dimension = dimension
         self.cov = cov
         if mean is None:
-            self.mean = np.zeros((dimension,), dtype=float)
+            mean = np.zeros((dimension,), dtype=float)
+        self.mean = mean
 
         super().__init__(dimension=dimension,
                          params=params)
-- 
2.43.0


From f1090ba4e8137fa47f51715e4f54a8d573c6d3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 09/15] fix: bearings-only systems accept sensor_list=None

None selected the default sensors for the measurement dimension only; the
measurement function itself still received None and raised TypeError.
---
 Systems/BearingOnlyTrackingTurn.py | 7 ++-----
 Systems/BearingsOnlyTracking.py    | 5 ++---
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/Systems/BearingOnlyTrackingTurn.py b/Systems/BearingOnlyTrackingTurn.py
index dce92ea..da40da1 100644
--- a/Systems/BearingOnlyTrackingTurn.py
+++ b/Systems/BearingOnlyTrackingTurn.py
@@ -73,11 +73,8 @@ class BearingsOnlyTrackingTurn(DynamicSystemModel):
         init_dist = Gaussian(mean_vec=np.array([1000, 300, 1000, 0, -np.deg2rad(3.0)]),
                              cov_mat=np.eye(5) * [100, 10, 100, 10, 1e-4])
         if sensor_list is None:
-            meas_dim = len(Default_Sensor_List)
-            # meas_dim = 2*len(Default_Sensor_List)
-        else:
-            meas_dim = len(sensor_list)
-            # meas_dim = 2*len(sensor_list)
+            sensor_list = Default_Sensor_List
+        meas_dim = len(sensor_list)
 
         transition = partial(f, delta_t=delta_t)
         measurement = partial(h, sensor_list=sensor_list)
diff --git a/Systems/BearingsOnlyTracking.py b/Systems/BearingsOnlyTracking.py
index eaa72f7..90b4662 100644
--- a/Systems/BearingsOnlyTracking.py
+++ b/Systems/BearingsOnlyTracking.py
@@ -62,9 +62,8 @@ class BearingsOnlyTracking(DynamicSystemModel):
         init_dist = Gaussian(mean_vec=np.array([0.0, 0.0, 1.0, 0.0]),
                              cov_mat=np.eye(4) * [0.1, 0.1, 0.1, 0.1])
         if sensor_list is None:
-            meas_dim = len(Default_Sensor_List)
-        else:
-            meas_dim = len(sensor_list)
+            sensor_list = Default_Sensor_List
+        meas_dim = len(sensor_list)
 
         transition = partial(f, delta_t=delta_t)
         measurement = partial(h, sensor_list=sensor_list)
-- 
2.43.0


From 0e54ebfb4c37b514e2be7ff79e7ddb092e8ce21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 10/15] fix: Lorenz 96 dynamics follow the documented equation

np.roll(X, -1, 1)[i] is X[i+1], so the code integrated the index-reversed system
-x_{i+1} (x_{i+2} - x_{i-1}) - x_i + F instead of the documented
(x_{i+1} - x_{i-2}) x_{i-1} - x_i + F.
---
 Systems/L96.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index d074088..ca54e1d 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -7,7 +7,7 @@ import autograd.numpy as np
 
 def model(X, F):
     X = np.atleast_2d(X)
-    dXdt = -np.roll(X, -1, 1) * (np.roll(X, -2, 1) - np.roll(X, 1, 1)) - X + F
+    dXdt = (np.roll(X, -1, 1) - np.roll(X, 2, 1)) * np.roll(X, 1, 1) - X + F
     return dXdt
 
 
-- 
2.43.0


From fb7b00d03c374430dd47805ae9a58e14d9b10896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 11/15] fix: bearings-only sweep imports the renamed sweep
 module

---
 Experiments/EP_Sweep_BearingsOnly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index b52dea0..70d4689 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -26,7 +26,7 @@ import sqlite3
 import itertools
 import click
 from collections import namedtuple
-from Experiments.FullSweep import Config, select_transform
+from Experiments.EP_FullSweep import Config, select_transform
 
 
 def create_experiment_table(db, table_name='BOTT_EXP'):
-- 
2.43.0


From 62ce87431f622d0579b6a72e74050eae75f9a35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 12/15] fix: build_nodes accepts a single time step

---
 ExpectationPropagation/Nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index 7b7e3f9..e133acc 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -231,7 +231,7 @@ def build_nodes(
     for i, node in enumerate(nodes):
         if i == 0:
             node.prev_node = None
-            node.next_node = nodes[i + 1]
+            node.next_node = nodes[i + 1] if N > 1 else None
             continue
         if i == (N - 1):
             node.prev_node = nodes[i - 1]
-- 
2.43.0


From aa33f8fd63f310ae13ede2a5178676aa17b2c670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 13/15] fix: only an almost zero precision is read as the flat
 Gaussian

The trace test also caught precisions with negative (or cancelling) diagonals,
so an improper quotient was reported as N(0, 1e10 I) and passed the covariance
validation of the node updates. The nuclear norm is the trace for every positive
semi-definite precision, and improper ones are now rejected by the validation.
---
 StateModel/Gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StateModel/Gaussian.py b/StateModel/Gaussian.py
index 1143041..b60101c 100644
--- a/StateModel/Gaussian.py
+++ b/StateModel/Gaussian.py
@@ -33,7 +33,7 @@ warnings.filterwarnings(action='error', category=LinAlgWarning)
 def natural_to_moment(precision, shift):
     dim = precision.shape[0]
     
-    if np.trace(precision) < 1e-10:
+    if np.linalg.norm(precision, 'nuc') < 1e-10:
         # almost zero precision
         dim = dim
         mean = np.zeros((dim,), dtype=float)
-- 
2.43.0


From f16d1bc49f79bbeb4b5d87bba43e26072e5e8789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 14/15] fix: sweeps skip results stored for the configured
 number of iterations

---
 Experiments/EP_FullSweep.py          | 4 ++--
 Experiments/EP_Sweep_BearingsOnly.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Experiments/EP_FullSweep.py b/Experiments/EP_FullSweep.py
index 827a050..15848e4 100644
--- a/Experiments/EP_FullSweep.py
+++ b/Experiments/EP_FullSweep.py
@@ -88,7 +88,7 @@ def power_sweep(config, x_true, y_meas, trans_id='UT', SEED=0, power=1, damping=
 
 query_str= "SELECT RMSE" \
            " from {}" \
-           " WHERE Transform='{}' AND Seed = {} AND Power ={} AND Damping = {} AND Iter = 50"
+           " WHERE Transform='{}' AND Seed = {} AND Power ={} AND Damping = {} AND Iter = {}"
 
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
@@ -103,7 +103,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
         x, y = zip(*data)
         for trans_id, power, damping in itertools.product(trans_types, power_range, damp_range):
             print(f"running {i}/{total}, SEED = {SEED}, trans = {trans_id}, power = {power}, damping = {damping}")
-            query = query_str.format(table, trans_id, SEED, power, damping)
+            query = query_str.format(table, trans_id, SEED, power, damping, config.num_iter)
             db.execute(query)
             exits = db.fetchall()
             try:
diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index 70d4689..94c71dd 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -154,7 +154,7 @@ def power_sweep(config, x_true, y_meas, trans_id='UT', SEED=0, power=1, damping=
 
 query_str= "SELECT RMSE" \
            " from {}" \
-           " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {} AND Iter = 50"
+           " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {} AND Iter = {}"
 
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
@@ -169,7 +169,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
         X, y = zip(*data)
         for trans_id, power, damping in itertools.product(trans_types, power_range, damp_range):
             print(f"running {i}/{total}, SEED = {SEED}, trans = {trans_id}, power = {power}, damping = {damping}")
-            query = query_str.format(table, trans_id, SEED, power, damping)
+            query = query_str.format(table, trans_id, SEED, power, damping, config.num_iter)
             db.execute(query)
             exits = db.fetchall()
             try:
-- 
2.43.0


From e5d64f0188a5d5ff67ea7e2b1a259687c6462bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 15/15] fix: Unscented covariance is lost to cancellation for
 small alpha

With the usual alpha=1e-3 the mean subtraction was folded into the weight
matrix, whose entries are then of order 1e18: the covariance of the identity
map came out in the thousands instead of 1.  Subtract the means first.
---
 MomentMatching/UnscentedTransform.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/MomentMatching/UnscentedTransform.py b/MomentMatching/UnscentedTransform.py
index f0da0f4..e3ed4f4 100644
--- a/MomentMatching/UnscentedTransform.py
+++ b/MomentMatching/UnscentedTransform.py
@@ -72,10 +72,7 @@ class UnscentedTransform(MappingTransform):
         w_m[0] = param_lambda / (n_plus_lambda)
         w_c[0] = w_m[0] + (1 - alpha * alpha + beta)
 
-        w_left = np.eye(2 * n + 1) - np.array(w_m)
-        W = w_left.T @ np.diag(w_c) @ w_left
-
-        W = symmetrize(W)
+        W = np.diag(w_c)
 
         return w_m, W
 
@@ -84,8 +81,12 @@ class UnscentedTransform(MappingTransform):
         sigma_pts = self._sigma_points(state.mean, state.cov)
         Y = func(sigma_pts)
         mean = self.w_m @ Y
-        cov = symmetrize(Y.T @ self.W @ Y)
-        cross_cov = np.asarray(sigma_pts).T @ self.W @ Y
+        # subtract the means first: for a small alpha the weights are huge and
+        # folding the subtraction into W loses the covariance to cancellation
+        dY = Y - mean
+        dX = sigma_pts - self.w_m @ sigma_pts
+        cov = symmetrize(dY.T @ self.W @ dY)
+        cross_cov = dX.T @ self.W @ dY
 
         return mean, cov, cross_cov
 
-- 
2.43.0

