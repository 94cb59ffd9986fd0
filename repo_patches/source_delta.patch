From 367f4d6fa73cac0f5b622426dba19e9bfa5b4bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 01/19] fix: keep the state mean a vector in the EP measurement
 update

The innovation was reshaped to a column before being added to the row mean,
so for every state dimension above one the corrected mean broadcast to a
matrix and EP failed or returned nonsense.
---
 MomentMatching/Estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MomentMatching/Estimator.py b/MomentMatching/Estimator.py
index 00fdb99..31435e6 100644
--- a/MomentMatching/Estimator.py
+++ b/MomentMatching/Estimator.py
@@ -74,7 +74,7 @@ class Estimator:
         z_cov = symmetrize(z_cov)
         np.linalg.cholesky(z_cov)
         kalman_gain = np.linalg.solve(z_cov, xz_cross_cov.T).T
-        mean = state.mean + kalman_gain @ (meas - z_mean).reshape(-1,1)  # equation 15  in Marc's ACC paper
+        mean = state.mean + kalman_gain @ (meas - z_mean)  # equation 15  in Marc's ACC paper
         cov = state.cov - kalman_gain @ xz_cross_cov.T
         cov = symmetrize(cov)
         corrected_state = Gaussian(mean, cov)
-- 
2.43.0


From 1604a3e3466444e4210de1ced882269d61981b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 02/19] fix: keep matrix and vector shapes in the Taylor
 transform

Squeezing the Jacobian of a single-output function (or of a function that
returns a row) dropped its matrix axes, so one-sensor and one-dimensional
models failed under the Taylor transform.
---
 MomentMatching/TaylorLinearisation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/MomentMatching/TaylorLinearisation.py b/MomentMatching/TaylorLinearisation.py
index cb16794..527d389 100644
--- a/MomentMatching/TaylorLinearisation.py
+++ b/MomentMatching/TaylorLinearisation.py
@@ -50,10 +50,8 @@ class TaylorTransform(MappingTransform):
         assert isinstance(state, Gaussian)
         # J_t = self.numerical_jacobian(func, state.mean)
         J_t = jacobian(func)(state.mean)
-        if np.ndim(J_t) > 2:
-          J_t = np.squeeze(J_t)
-        mean = func(state.mean)
-        mean = np.squeeze(mean)
+        J_t = np.reshape(J_t, (-1, state.dim))
+        mean = np.ravel(func(state.mean))
         cov = J_t @ state.cov @ J_t.T
         cross_cov = state.cov @ J_t.T
         return mean, cov, cross_cov
-- 
2.43.0


From 82a768011ee1ad0cd2ee4e1c52a6f150f249a560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 03/19] fix: do not add simulation noise in place

With a transition or measurement that returns its argument (or a view of it)
the in-place additions leaked measurement noise into the state, overwrote the
caller's initial state and made all simulated steps one shared array.
---
 Systems/DynamicSystem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index 32abf1d..b4821cf 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -51,9 +51,9 @@ class DynamicSystem(metaclass=ABCMeta):
             # y_true = self.measure(x=x_noisy)
             # y_noisy = y_true + self.measurement_noise.sample()
             x = self.transition(x=x, t=t)
-            x += self.system_noise.sample()
+            x = x + self.system_noise.sample()
             y = self.measure(x=x)
-            y += self.measurement_noise.sample()
+            y = y + self.measurement_noise.sample()
             yield x, y # x_true, x_noisy, y_true, y_noisy
             #x = x_noisy
             t = t + self.dt
@@ -110,9 +110,9 @@ class DynamicSystemModel(DynamicSystem):
 
         for _ in range(N):
             x = self.transition(x=x, t=t)
-            x += self.system_noise.sample()
+            x = x + self.system_noise.sample()
             y = self.measurement(x=x)
-            y += self._measurement_noise.sample()
+            y = y + self._measurement_noise.sample()
             yield x, y
             t = t + self.dt
 
-- 
2.43.0


From 9b2b8ab2693a5ab466febf25b12d692b27842320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 04/19] fix: keep the mean given to GaussianNoise

---
 Systems/DynamicSystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index b4821cf..1b6deed 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -18,7 +18,8 @@ class GaussianNoise(NoiseModel):
         self.dimension = dimension
         self.cov = cov
         if mean is None:
-            self.mean = np.zeros((dimension,), dtype=float)
+            mean = np.zeros((dimension,), dtype=float)
+        self.mean = mean
 
         super().__init__(dimension=dimension,
                          params=params)
-- 
2.43.0


From 3c02935e4f3ab89e6033067e58118eb33049f36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 05/19] fix: use the default sensors when sensor_list is None

---
 Systems/BearingOnlyTrackingTurn.py | 8 +++-----
 Systems/BearingsOnlyTracking.py    | 5 ++---
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/Systems/BearingOnlyTrackingTurn.py b/Systems/BearingOnlyTrackingTurn.py
index dce92ea..e4aa893 100644
--- a/Systems/BearingOnlyTrackingTurn.py
+++ b/Systems/BearingOnlyTrackingTurn.py
@@ -73,11 +73,9 @@ class BearingsOnlyTrackingTurn(DynamicSystemModel):
         init_dist = Gaussian(mean_vec=np.array([1000, 300, 1000, 0, -np.deg2rad(3.0)]),
                              cov_mat=np.eye(5) * [100, 10, 100, 10, 1e-4])
         if sensor_list is None:
-            meas_dim = len(Default_Sensor_List)
-            # meas_dim = 2*len(Default_Sensor_List)
-        else:
-            meas_dim = len(sensor_list)
-            # meas_dim = 2*len(sensor_list)
+            sensor_list = Default_Sensor_List
+        meas_dim = len(sensor_list)
+        # meas_dim = 2*len(sensor_list)
 
         transition = partial(f, delta_t=delta_t)
         measurement = partial(h, sensor_list=sensor_list)
diff --git a/Systems/BearingsOnlyTracking.py b/Systems/BearingsOnlyTracking.py
index eaa72f7..90b4662 100644
--- a/Systems/BearingsOnlyTracking.py
+++ b/Systems/BearingsOnlyTracking.py
@@ -62,9 +62,8 @@ class BearingsOnlyTracking(DynamicSystemModel):
         init_dist = Gaussian(mean_vec=np.array([0.0, 0.0, 1.0, 0.0]),
                              cov_mat=np.eye(4) * [0.1, 0.1, 0.1, 0.1])
         if sensor_list is None:
-            meas_dim = len(Default_Sensor_List)
-        else:
-            meas_dim = len(sensor_list)
+            sensor_list = Default_Sensor_List
+        meas_dim = len(sensor_list)
 
         transition = partial(f, delta_t=delta_t)
         measurement = partial(h, sensor_list=sensor_list)
-- 
2.43.0


From 61c9adfbe80dab0f9a0250bd73d1491d6b4d84ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 06/19] fix: allow a factor graph of a single time step

---
 ExpectationPropagation/Nodes.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index 7b7e3f9..1a7c6b6 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -229,17 +229,8 @@ def build_nodes(
     nodes = [Node(dim, index=i) for i in range(N)]
 
     for i, node in enumerate(nodes):
-        if i == 0:
-            node.prev_node = None
-            node.next_node = nodes[i + 1]
-            continue
-        if i == (N - 1):
-            node.prev_node = nodes[i - 1]
-            node.next_node = None
-            continue
-
-        node.next_node = nodes[i + 1]
-        node.prev_node = nodes[i - 1]
+        node.prev_node = nodes[i - 1] if i > 0 else None
+        node.next_node = nodes[i + 1] if i < (N - 1) else None
 
     if estimator is not None:
         nodes = node_estimator(nodes=nodes, estimator=estimator)
-- 
2.43.0


From 3943908e20352a88ffae0b3986b355336cc814fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:22 +0000
Subject: [PATCH 07/19] fix: use the documented Lorenz 96 equations

The index shifts ran the wrong way round the ring: component i was driven by
x[i+1]*(x[i-1]-x[i+2]) instead of the README's (x[i+1]-x[i-2])*x[i-1].
---
 Systems/L96.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index d074088..0560fd5 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -7,7 +7,7 @@ import autograd.numpy as np
 
 def model(X, F):
     X = np.atleast_2d(X)
-    dXdt = -np.roll(X, -1, 1) * (np.roll(X, -2, 1) - np.roll(X, 1, 1)) - X + F
+    dXdt = np.roll(X, 1, 1) * (np.roll(X, -1, 1) - np.roll(X, 2, 1)) - X + F
     return dXdt
 
 
-- 
2.43.0


From bd633e773e022a239fe29c47e4dfb53843078f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:26 +0000
Subject: [PATCH 08/19] fix: generate a usable Lorenz 96 initial condition

The generated state had shape (1, dim), which L96() then rejected, and it was
integrated with the default forcing whatever F was asked for.
---
 Systems/L96.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index 0560fd5..ab68fcf 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -34,10 +34,9 @@ def generate_L96_initial_condition(dim=40, F=8):
 
     x = [x0]
     for n in range(999):
-        x.append(f(x[-1]))
-    x = np.array(x)
+        x.append(f(x[-1], F=F))
 
-    return x[-1]
+    return np.squeeze(x[-1], axis=0)
 
 
 class L96(DynamicSystemModel):
-- 
2.43.0


From 6783b7f44e8ff77eba208a3aa5a120af8305b608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 09/19] fix: linearise the IEKF measurement about the current
 iterate

The predicted measurement is h(x_i) + H_i (x - x_i); the sign of the second
term was wrong, so a second iteration moved away from the Kalman update even
for a linear measurement. Accept measurements returned as vectors too, for
which taking element 0 silently dropped all other components.
---
 Filters/KalmanFilter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index bbee379..3e4c9ef 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -134,9 +134,10 @@ class IEKF(KalmanFilterSmoother):
         x = state.mean
         P = state.cov
         for i in range(self.num_iter):
-            h_i = self.measurement(state.mean, t, u)[0]
-            H_i = jacobian(self.measurement, argnum=0)(state.mean, t, u)[0]
-            z_mean = h_i - H_i @ (x - state.mean)
+            h_i = np.ravel(self.measurement(state.mean, t, u))
+            H_i = jacobian(self.measurement, argnum=0)(state.mean, t, u)
+            H_i = np.reshape(H_i, (-1, state.dim))
+            z_mean = h_i + H_i @ (x - state.mean)
             z_cov = H_i @ P @ H_i.T + self.measurement_noise
             xz_cross_cov = P @ H_i.T
 
-- 
2.43.0


From 396bea12608eef8311dcafe492d7c11812f36eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 10/19] fix: start every IEKS run from the nonlinear model

A run left its last linearised models behind, and the next run on the same
object used them for its first pass.
---
 Filters/KalmanFilter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index 3e4c9ef..3b3311b 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -234,7 +234,8 @@ class IEKS(KalmanFilterSmoother):
     #     self.f_list = [self._linearise(self.f, self.Df, self.init_state.mean) for _ in measurements]
     #     self.h_list = [self._linearise(self.h, self.Dh, self.init_state.mean) for _ in measurements]
 
-        # First iteration
+        # First iteration (on the nonlinear model, also when this object was used before)
+        self.transition, self.measurement = self.f, self.h
         filter_results = self.kalman_filter(measurements)
         smoother_results = self.kalman_smoother(filter_results)
 
-- 
2.43.0


From 2703d98927972721157c50e9deb3e207deae340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:40 +0000
Subject: [PATCH 11/19] fix: import the bearings-only sweep helpers from the
 module that exists

---
 Experiments/EP_Sweep_BearingsOnly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index b52dea0..70d4689 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -26,7 +26,7 @@ import sqlite3
 import itertools
 import click
 from collections import namedtuple
-from Experiments.FullSweep import Config, select_transform
+from Experiments.EP_FullSweep import Config, select_transform
 
 
 def create_experiment_table(db, table_name='BOTT_EXP'):
-- 
2.43.0


From 1013b8f556de8da1533db9c9ddd323086bf2d20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 12/19] fix: linearise each IEKS transition at the state it
 starts from

Transition i was linearised about the smoothed state it leads to, so the
iteration did not converge to the Gauss-Newton (MAP) solution it implements.
---
 Filters/KalmanFilter.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index 3b3311b..720f7e7 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -230,6 +230,13 @@ class IEKS(KalmanFilterSmoother):
 
         return list(reversed(result))
 
+    def _update_linearisation(self, smoother_results):
+        # The transition into step i starts from step i-1, and the first one from the initial state.
+        init_state = self.smooth(self.init_state, smoother_results[0], t=0.0)
+        start_states = [init_state] + smoother_results[:-1]
+        self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in start_states]
+        self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
+
     def __call__(self, measurements, num_iter=5):
     #     self.f_list = [self._linearise(self.f, self.Df, self.init_state.mean) for _ in measurements]
     #     self.h_list = [self._linearise(self.h, self.Dh, self.init_state.mean) for _ in measurements]
@@ -239,8 +246,7 @@ class IEKS(KalmanFilterSmoother):
         filter_results = self.kalman_filter(measurements)
         smoother_results = self.kalman_smoother(filter_results)
 
-        self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
-        self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
+        self._update_linearisation(smoother_results)
 
         for k in range(num_iter-1):
 
@@ -249,7 +255,7 @@ class IEKS(KalmanFilterSmoother):
             smoother_results = self._kalman_smoother(filter_results)
 
             # Update linearisation points
-            self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
-            self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
+            self.transition = self.f_list[0]
+            self._update_linearisation(smoother_results)
         
         return smoother_results
\ No newline at end of file
-- 
2.43.0


From bba141179ff30fd7737cb98fa76169fd68cac525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 13/19] fix: make the turning-target model finite at zero turn
 rate

sin(w*dt)/w and (1-cos(w*dt))/w were evaluated as 0/0 for a target moving
straight, so one step of the model (or its Jacobian) was NaN there.
---
 Systems/BearingOnlyTrackingTurn.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Systems/BearingOnlyTrackingTurn.py b/Systems/BearingOnlyTrackingTurn.py
index e4aa893..cba58b7 100644
--- a/Systems/BearingOnlyTrackingTurn.py
+++ b/Systems/BearingOnlyTrackingTurn.py
@@ -25,9 +25,14 @@ def f(x, t=None, u=None, delta_t=1):
     ones = np.ones(xs.shape[0])
     zros = np.zeros(xs.shape[0])
     w = xs[:,-1]
-    f_t = np.array([[ones,      sin(w*dt)/w,       zros,      -(1-cos(w*dt))/w,       zros],
+    # sin(w*dt)/w and (1-cos(w*dt))/w, with their expansions at w = 0 (straight motion)
+    straight = np.abs(w*dt) < 1e-4
+    w_safe = np.where(straight, 1.0, w)
+    s_w = np.where(straight, dt - w**2*dt**3/6, sin(w*dt)/w_safe)
+    c_w = np.where(straight, w*dt**2/2, (1-cos(w*dt))/w_safe)
+    f_t = np.array([[ones,      s_w,               zros,      -c_w,                   zros],
                     [zros,      cos(w*dt),         zros,      -sin(w*dt),             zros],
-                    [zros,      (1-cos(w*dt))/w,   ones,       sin(w*dt)/w,           zros],
+                    [zros,      c_w,               ones,       s_w,                   zros],
                     [zros,      sin(w*dt),         zros,       cos(w*dt),             zros],
                     [zros,      zros,              zros,       zros,                  ones]
                     ])
-- 
2.43.0


From 6010f0927ccc1c8a847ccdc2941a07672eb3757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 14/19] fix: let the smoother start at the time the filter
 started

---
 Filters/KalmanFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index 720f7e7..82cef0b 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -103,10 +103,10 @@ class KalmanFilterSmoother:
 
         return result_filter
 
-    def kalman_smoother(self, filtered_list, u=None, *args, **kwargs):
+    def kalman_smoother(self, filtered_list, u=None, t_zero=0.0, *args, **kwargs):
         reversed_filtered = reversed(filtered_list)
         N = len(filtered_list)
-        t = (N-1) * self.dt
+        t = t_zero + (N-1) * self.dt
 
         result = []
 
-- 
2.43.0


From e0af29534b9054c07b0dbfe07bd081d5415b4a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 15/19] fix: give default noise a covariance of its own
 dimension

---
 Systems/DynamicSystem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index 1b6deed..1380b39 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -12,8 +12,10 @@ class NoiseModel:
 
 
 class GaussianNoise(NoiseModel):
-    def __init__(self, dimension=1, cov=np.eye(1), mean=None):
+    def __init__(self, dimension=1, cov=None, mean=None):
         Gaussian = namedtuple('Gaussian', ['Q'])
+        if cov is None:
+            cov = np.eye(dimension)
         params = Gaussian(Q=cov)
         self.dimension = dimension
         self.cov = cov
-- 
2.43.0


From 5cce556be2d30b67e792ed59b679a14cfc82fabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 16/19] fix: replace the saved results when override is given

---
 Experiments/EP_FullSweep.py          | 6 +++++-
 Experiments/EP_Sweep_BearingsOnly.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/Experiments/EP_FullSweep.py b/Experiments/EP_FullSweep.py
index 827a050..5694ed3 100644
--- a/Experiments/EP_FullSweep.py
+++ b/Experiments/EP_FullSweep.py
@@ -90,6 +90,9 @@ query_str= "SELECT RMSE" \
            " from {}" \
            " WHERE Transform='{}' AND Seed = {} AND Power ={} AND Damping = {} AND Iter = 50"
 
+delete_str = "DELETE FROM {}" \
+             " WHERE Transform = ? AND Seed = ? AND Power = ? AND Damping = ?"
+
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
     con, system, timesteps, table = config.con, config.system, config.timesteps, config.exp_table_name
@@ -107,7 +110,8 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
             db.execute(query)
             exits = db.fetchall()
             try:
-                if override:
+                if override: # Saved results are never rewritten, so make room for the new ones
+                    db.execute(delete_str.format(table), (trans_id, int(SEED), power, damping))
                     power_sweep(config, x, y, trans_id=trans_id, SEED=int(SEED), power=power, damping=damping)
                 else:
                     if len(exits) == 0: # Skips sweep if result is already computed for the given settings
diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index 70d4689..96305bd 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -156,6 +156,9 @@ query_str= "SELECT RMSE" \
            " from {}" \
            " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {} AND Iter = 50"
 
+delete_str = "DELETE FROM {}" \
+             " WHERE Transform = ? AND Seed = ? AND Power = ? AND Damping = ?"
+
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
     con, system, timesteps, table = config.con, config.system, config.timesteps, config.exp_table_name
@@ -173,7 +176,8 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
             db.execute(query)
             exits = db.fetchall()
             try:
-                if override:
+                if override: # Saved results are never rewritten, so make room for the new ones
+                    db.execute(delete_str.format(table), (trans_id, int(SEED), power, damping))
                     power_sweep(config, X, y, trans_id=trans_id, SEED=int(SEED), power=power, damping=damping)
                 else:
                     if len(exits) == 0: # Skips sweep if result is already computed for the given settings
-- 
2.43.0


From 132bfcb302a0086bbe81dc55a7c04b8df89fc4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 17/19] fix: pass the measurements on when build_nodes is given
 a system

---
 ExpectationPropagation/Nodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index 1a7c6b6..d691a94 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -216,7 +216,8 @@ def build_nodes(
     N: int,
     dim: int,
     estimator: Estimator = None,
-    system: DynamicSystemModel = None
+    system: DynamicSystemModel = None,
+    measurements: Union[np.ndarray, list] = None
     ) -> List[Node]:
     """
     This function builds the factor graph representation of a dynamical system (Figure 2).
@@ -224,6 +225,7 @@ def build_nodes(
     :dim: State dimension
     :estimator: Method of moment matching (e.g. Taylor transformation)
     :system: Dynamical system
+    :measurements: Observations y (required with system)
     :return: Factor graph representation of a dynamical system
     """
     nodes = [Node(dim, index=i) for i in range(N)]
@@ -236,6 +238,6 @@ def build_nodes(
         nodes = node_estimator(nodes=nodes, estimator=estimator)
 
     if system is not None:
-        nodes = node_system(nodes=nodes, system_model=system)
+        nodes = node_system(nodes=nodes, system_model=system, measurements=measurements)
 
     return nodes
-- 
2.43.0


From f4085bf20354db6a0c2116611b1cbbe95c754613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 18/19] fix: use the forward cavity of the next node in the
 standard EP backward update

---
 MomentMatching/Estimator.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/MomentMatching/Estimator.py b/MomentMatching/Estimator.py
index 31435e6..6c20685 100644
--- a/MomentMatching/Estimator.py
+++ b/MomentMatching/Estimator.py
@@ -92,13 +92,11 @@ class Estimator:
         xx_cov += self.transition_noise / self.power
         xx_cov = symmetrize(xx_cov)
         J = np.linalg.solve(xx_cov, xx_cross_cov.T).T
-        if self.power == 1 and next_state is not None:
-            mu = next_state.mean
-            Sigma = next_state.cov
-        else:
-            q = Gaussian(xx_mean, xx_cov) * (next_fwd_cavity ** self.power)
-            mu = q.mean
-            Sigma = q.cov
+        # This is next_state only when its forward factor is the current prediction, which
+        # does not hold under damping or when updates are not made in full sweeps.
+        q = Gaussian(xx_mean, xx_cov) * (next_fwd_cavity ** self.power)
+        mu = q.mean
+        Sigma = q.cov
         mean = state.mean + np.dot(J, (mu - xx_mean))
         cov = state.cov + J @ (Sigma - xx_cov) @ J.T
         cov = symmetrize(cov)
-- 
2.43.0


From 205413770fb50f3b9125b02ae1dbe43d9d301899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 19/19] fix: unscented covariances lost all precision for small
 alpha

Y.T @ W @ Y with weights of order 1/alpha^2 (W of order 1/alpha^6) cancelled
catastrophically: at the customary alpha=1e-3 the covariance was off by
orders of magnitude. Weight the deviations from the mean instead.
---
 MomentMatching/UnscentedTransform.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/MomentMatching/UnscentedTransform.py b/MomentMatching/UnscentedTransform.py
index f0da0f4..be05bf9 100644
--- a/MomentMatching/UnscentedTransform.py
+++ b/MomentMatching/UnscentedTransform.py
@@ -30,7 +30,7 @@ class UnscentedTransform(MappingTransform):
     """
 
     def __init__(self, dim=1, alpha=1, beta=2, kappa=1):
-        self.w_m, self.W = self._weights(dim, alpha, beta, kappa)
+        self.w_m, self.w_c = self._weights(dim, alpha, beta, kappa)
         self.param_lambda = alpha * alpha * (dim + kappa) - dim
         super().__init__(approximation_method='Unscented Transform',
                          n=dim,
@@ -72,20 +72,18 @@ class UnscentedTransform(MappingTransform):
         w_m[0] = param_lambda / (n_plus_lambda)
         w_c[0] = w_m[0] + (1 - alpha * alpha + beta)
 
-        w_left = np.eye(2 * n + 1) - np.array(w_m)
-        W = w_left.T @ np.diag(w_c) @ w_left
-
-        W = symmetrize(W)
-
-        return w_m, W
+        return w_m, w_c
 
     def _transform(self, func, state):
 
         sigma_pts = self._sigma_points(state.mean, state.cov)
         Y = func(sigma_pts)
         mean = self.w_m @ Y
-        cov = symmetrize(Y.T @ self.W @ Y)
-        cross_cov = np.asarray(sigma_pts).T @ self.W @ Y
+        # Weights grow as 1 / alpha^2, so they may only multiply deviations from the mean
+        dY = Y - mean
+        dX = np.asarray(sigma_pts) - state.mean
+        cov = symmetrize((dY.T * self.w_c) @ dY)
+        cross_cov = (dX.T * self.w_c) @ dY
 
         return mean, cov, cross_cov
 
-- 
2.43.0

