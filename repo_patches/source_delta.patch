From 8e1ce493ab97eab2842d19f436b7646ac27c53e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 01/23] fix: SimplexModule.reset clears the elapsed latch time

---
 run_time_assurance/rta/simplex.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index 9a182e5..702febf 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -37,6 +37,7 @@ class SimplexModule(BackupControlBasedRTA):
         Also calls reset on the backup controller
         """
         super().reset()
+        self.latched_elapsed = 0.
         self.reset_backup_controller()
 
     def compose(self):
-- 
2.43.0


From 99d84ba2547f6018b6322f8c3612d7d282c4ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 02/23] fix: CascadedRTA.reset resets the cascaded modules

---
 run_time_assurance/rta/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index 684412d..459f200 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -364,6 +364,13 @@ class CascadedRTA(RTAModule):
         self.rta_list = self._setup_rta_list()
         super().__init__(*args, **kwargs)
 
+    def reset(self):
+        """Resets the rta module and all cascaded rta modules to the initial state at the beginning of an episode
+        """
+        super().reset()
+        for rta in self.rta_list:
+            rta.reset()
+
     def compute_filtered_control(self, input_state: Any, step_size: float, control_desired: np.ndarray) -> np.ndarray:
         self.intervening = False
         control = control_desired
-- 
2.43.0


From 5d8516e8024b1b5172feefe866bc5d32eed69478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:06 +0000
Subject: [PATCH 03/23] fix: simplex monitor evaluates the bounded control that
 is applied

---
 run_time_assurance/rta/simplex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index 702febf..1f6f28e 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -72,6 +72,9 @@ class SimplexModule(BackupControlBasedRTA):
         If latched, returns backup control.
         Otherwise returns backup control if monitor returns True
         """
+        # The monitor must judge the control that is actually applied, i.e. the desired control limited to the control bounds
+        control = self._clip_control_jax(control)
+
         latched = False
         if self.intervening:
             if self.latched_elapsed >= self.latch_time:
-- 
2.43.0


From 0a010cee6a548fc58b666f789fb8a2cb4c4b2871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:06 +0000
Subject: [PATCH 04/23] fix: a disabled RTA module does not report that it is
 intervening

---
 run_time_assurance/rta/base.py    | 1 +
 run_time_assurance/rta/simplex.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index 459f200..9a6d1a6 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -80,6 +80,7 @@ class RTAModule(abc.ABC):
             control_actual = self._clip_control(self.compute_filtered_control(input_state, step_size, control_desired))
             self.control_actual = np.array(control_actual)
         else:
+            self.intervening = False
             self.control_actual = np.copy(control_desired)
 
         return np.copy(self.control_actual)
diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index 1f6f28e..f8588f7 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -87,6 +87,7 @@ class SimplexModule(BackupControlBasedRTA):
             control = self.backup_control(state, step_size)
 
         else:
+            self.latched_elapsed = 0
             self.intervening = self.monitor(state, step_size, control)
 
             if self.intervening:
-- 
2.43.0


From f64795bb42eda562585a9d07cc048d402457bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:06 +0000
Subject: [PATCH 05/23] fix: ImplicitASIFModule does not jit its numpy
 integrator by default

---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index d5b6ee6..710295f 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -517,7 +517,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         else:
             self._generate_ineq_constraint_mats_fn = self._generate_ineq_constraint_mats
 
-        default_int = True
+        default_int = False
 
         if self.jit_enable and self.jit_compile_dict.get('pred_state', default_int):
             self._pred_state_fn = jit(self._pred_state, static_argnames=['step_size'])
-- 
2.43.0


From d8ff7c9caf06a9bdf1554aaa45c339bffc0aac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:06 +0000
Subject: [PATCH 06/23] fix: implicit ASIF subsampling keeps the slack variable
 columns

---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 710295f..0146e0e 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -720,7 +720,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         jnp.ndarray
             vector b of quadprog inequality constraint C.T x >= b
         """
-        new_ineq_weight_barrier = jnp.empty((0, self.control_dim))
+        new_ineq_weight_barrier = jnp.empty((0, self.control_dim + self.num_slack))
         new_ineq_constant_barrier = jnp.empty(0)
 
         for i, c in enumerate(self.constraints.values()):
-- 
2.43.0


From 248763209fef9e514d1d76665fc3071a1c915a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:06 +0000
Subject: [PATCH 07/23] fix: implicit ASIF subsampling no longer drops the
 point after num_check_all

---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 0146e0e..0df4b91 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -733,7 +733,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
             check_points = jnp.hstack(
                 (
                     jnp.array(range(0, c.subsample_config.num_check_all)),
-                    jnp.array(range(c.subsample_config.num_check_all + 1, num_steps, c.subsample_config.skip_length))
+                    jnp.array(range(max(c.subsample_config.num_check_all, 0), num_steps, c.subsample_config.skip_length))
                 )
             ).astype(int)
             tmp_ineq_weight_barrier = tmp_ineq_weight_barrier[check_points, :]
-- 
2.43.0


From 0b6475b8fc3bbc602ce3e8caa88ff7fef84d1409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:06 +0000
Subject: [PATCH 08/23] fix: HOCBFConstraint supports relative_degree=1

---
 run_time_assurance/constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/constraint.py b/run_time_assurance/constraint.py
index 16e3a27..22f2cc5 100644
--- a/run_time_assurance/constraint.py
+++ b/run_time_assurance/constraint.py
@@ -418,7 +418,7 @@ class HOCBFConstraint(ConstraintModule):
                 constraint=hocbf_constraint_dict["constraint_" + str(i - 1)], state_transition_system=state_transition_system, alpha=alpha
             )
             hocbf_constraint_dict["constraint_" + str(i)] = psi
-        self.final_constraint = psi
+        self.final_constraint = hocbf_constraint_dict["constraint_" + str(relative_degree - 1)]
         super().__init__(alpha=alpha, params=self.final_constraint.params, **kwargs)
 
     def _compute(self, state: jnp.ndarray, params: dict) -> float:
-- 
2.43.0


From f9596756e6a44ba6878aa2733ea04f43bf2dc503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:06 +0000
Subject: [PATCH 09/23] fix: DiscreteASIFModule accepts element specific
 control bounds

---
 run_time_assurance/rta/asif.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 0df4b91..da2b8ee 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -978,7 +978,9 @@ class DiscreteASIFModule(BaseOptimizationModule):
     def __init__(self, *args: Any, **kwargs: Any):
         super().__init__(*args, **kwargs)
 
-        self.opt_bounds = [(self.control_bounds_low, self.control_bounds_high)] * self.control_dim + [(-np.inf, np.inf)] * self.num_slack
+        bounds_low = np.broadcast_to(-np.inf if self.control_bounds_low is None else self.control_bounds_low, (self.control_dim, ))
+        bounds_high = np.broadcast_to(np.inf if self.control_bounds_high is None else self.control_bounds_high, (self.control_dim, ))
+        self.opt_bounds = list(zip(bounds_low, bounds_high)) + [(-np.inf, np.inf)] * self.num_slack
         self.scipy_constraints = []
         self.discrete_constraints = OrderedDict()
         slack_counter = 0
-- 
2.43.0


From 5f7a092e6f8fb0c6597dc4f73294af5066a60060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:06 +0000
Subject: [PATCH 10/23] fix: safety assurance sample testing passes the
 constraint params

---
 run_time_assurance/utils/sample_testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/utils/sample_testing.py b/run_time_assurance/utils/sample_testing.py
index ef401b1..a51929b 100644
--- a/run_time_assurance/utils/sample_testing.py
+++ b/run_time_assurance/utils/sample_testing.py
@@ -276,7 +276,7 @@ class SafetyAssuranceSampleTestingModule(BaseSampleTestingModule):
         """
 
         for c in self.rta.constraints.values():
-            if c.phi(to_jnp_array_jit(state)) < 0 or c(to_jnp_array_jit(state)) < 0:
+            if c.phi(to_jnp_array_jit(state), c.params) < 0 or c(to_jnp_array_jit(state), c.params) < 0:
                 return None
 
         done = False
@@ -293,7 +293,7 @@ class SafetyAssuranceSampleTestingModule(BaseSampleTestingModule):
             done = self._check_done_conditions(state, current_time)
 
             for c in self.rta.constraints.values():
-                if c.phi(to_jnp_array_jit(state)) < 0:
+                if c.phi(to_jnp_array_jit(state), c.params) < 0:
                     return False
 
         return True
-- 
2.43.0


From c0af52a2b02cc4c3b5da31e6e49205ff2f88c29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:06 +0000
Subject: [PATCH 11/23] fix: ConstraintPSMDeputy.get_array maps over time only

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index f64e651..81b5c1c 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -465,7 +465,7 @@ class ConstraintPSMDeputy(ConstraintModule):
 
     def get_array(self, state: jnp.ndarray, params: dict) -> float:
         """Gets entire trajectory array"""
-        vmapped_get_future_state = vmap(self.get_future_state, (None, 0), 0)
+        vmapped_get_future_state = vmap(self.get_future_state, (None, 0, None), 0)
         phi_array = vmapped_get_future_state(
             state,
             jnp.linspace(0, self.steps * params["dt"], self.steps + 1),
-- 
2.43.0


From 610fb844085e6b52243fdf639309e8b943be85da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:06 +0000
Subject: [PATCH 12/23] fix: DiscreteInspection1v1RTA propagates the sun angle
 with sun_vel

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index eed26f3..ca9cfbf 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -562,7 +562,7 @@ class DiscreteInspection1v1RTA(DiscreteASIFModule):
             + self.discrete_b_mat(step_size) @ control
         )
         return jnp.concatenate(
-            (next_state, jnp.array([state[6] - self.sun_vel * step_size, 0.0]))
+            (next_state, jnp.array([state[6] + self.sun_vel * step_size, 0.0]))
         )  # TODO: fix fuel derivative
 
     def discrete_a_mat(self, dt):
-- 
2.43.0


From 20694e1f5399a99c9df23561a813e7ad5bb72a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:40 +0000
Subject: [PATCH 13/23] fix: InspectionRTA deputy passive safety uses the
 deputy-deputy collision radius

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index 81b5c1c..4b3a40f 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -233,7 +233,7 @@ class InspectionRTA(ExplicitASIFModule):
                 alpha=PolynomialConstraintStrengthener([0, 0, 0, 0.1]),
             )
             constraint_dict[f"deputy_PSM_{i}"] = ConstraintPSMDeputy(
-                collision_radius=self.chief_radius + self.deputy_radius,
+                collision_radius=self.deputy_radius * 2,
                 m=self.m,
                 n=self.n,
                 dt=1,
-- 
2.43.0


From cb6c65f77e121c76a3343cfc156b526b97196c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:40 +0000
Subject: [PATCH 14/23] fix: CombinedInspectionRTA reports interventions of its
 deputies and resets their RTA

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index 4b3a40f..236f9b8 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -508,9 +508,15 @@ class CombinedInspectionRTA(RTAModule):
             **kwargs,
         )
 
+    def reset(self):
+        """Resets the rta module and the deputy rta to the initial state at the beginning of an episode"""
+        super().reset()
+        self.deputy_rta.reset()
+
     def compute_filtered_control(
         self, input_state: Any, step_size: float, control_desired: np.ndarray
     ) -> np.ndarray:
+        self.intervening = False
         u_act = np.zeros(self.num_deputies * 3)
         for i in range(self.num_deputies):
             u_des = control_desired[3 * i : 3 * i + 3]
@@ -518,6 +524,8 @@ class CombinedInspectionRTA(RTAModule):
             u_act[3 * i : 3 * i + 3] = self.deputy_rta.filter_control(
                 x_new, step_size, u_des
             )
+            if self.deputy_rta.intervening:
+                self.intervening = True
         return u_act
 
     def get_agent_state(self, state, i):
-- 
2.43.0


From 7657129e03f9b93bb9039e11f0c813747cef3148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:40 +0000
Subject: [PATCH 15/23] fix: SwitchingDeltaVLimitRTA applies its backup control
 when the delta-v limit would be exceeded

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index ca9cfbf..087835a 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -698,6 +698,7 @@ class SwitchingDeltaVLimitRTA(RTAModule):
         self, input_state, step_size: float, control_desired: np.ndarray
     ) -> np.ndarray:
         if not self.latched:
+            out = control_desired
             pred_state = self._pred_state(input_state, step_size, control_desired)
             error_integral = self.error_integral
             for _ in range(self.n_steps):
@@ -706,17 +707,13 @@ class SwitchingDeltaVLimitRTA(RTAModule):
                 )
                 pred_state = self._pred_state(pred_state, step_size, ub)
                 if pred_state[7] > self.delta_v_limit:
-                    ub, self.error_integral = self.backup_control(
-                        input_state, step_size, self.error_integral
-                    )
                     self.latched = True
-                    self.intervening = True
-                    out = ub
-            out = control_desired
-        else:
+                    break
+        if self.latched:
             ub, self.error_integral = self.backup_control(
                 input_state, step_size, self.error_integral
             )
+            self.intervening = True
             out = ub
         return out
 
-- 
2.43.0


From 192746f3fd37bb9083137d6fada852c44d305807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:40 +0000
Subject: [PATCH 16/23] fix: SwitchingDeltaVLimitRTA.reset releases the latch
 and the error integral

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index 087835a..fe6f111 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -694,6 +694,12 @@ class SwitchingDeltaVLimitRTA(RTAModule):
         delta_v_dot = np.array([np.sum(np.abs(control)) / (self.m)])
         return state + np.concatenate((xd, sun_dot, delta_v_dot)) * step_size
 
+    def reset(self):
+        """Resets the rta module to the initial state at the beginning of an episode"""
+        super().reset()
+        self.latched = False
+        self.error_integral = np.zeros(6)
+
     def compute_filtered_control(
         self, input_state, step_size: float, control_desired: np.ndarray
     ) -> np.ndarray:
-- 
2.43.0


From 649b27074c49010616465e82c435c23ee25505c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:40 +0000
Subject: [PATCH 17/23] fix: state wrapper setters work on immutable jax arrays

---
 run_time_assurance/zoo/cwh/docking_2d.py         |  8 ++++----
 run_time_assurance/zoo/cwh/docking_3d.py         | 12 ++++++------
 run_time_assurance/zoo/cwh/inspection_1v1.py     | 16 ++++++++--------
 .../zoo/integrators/integrator_1d.py             |  4 ++--
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/run_time_assurance/zoo/cwh/docking_2d.py b/run_time_assurance/zoo/cwh/docking_2d.py
index e98261d..2eb55fc 100644
--- a/run_time_assurance/zoo/cwh/docking_2d.py
+++ b/run_time_assurance/zoo/cwh/docking_2d.py
@@ -46,7 +46,7 @@ class Docking2dState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def y(self) -> float:
@@ -56,7 +56,7 @@ class Docking2dState(RTAStateWrapper):
     @y.setter
     def y(self, val: float):
         """Setter for y position"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -66,7 +66,7 @@ class Docking2dState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[2] = val
+        self.vector = self.vector.at[2].set(val)
 
     @property
     def y_dot(self) -> float:
@@ -76,7 +76,7 @@ class Docking2dState(RTAStateWrapper):
     @y_dot.setter
     def y_dot(self, val: float):
         """Setter for y velocity component"""
-        self.vector[3] = val
+        self.vector = self.vector.at[3].set(val)
 
 
 class Docking2dRTAMixin:
diff --git a/run_time_assurance/zoo/cwh/docking_3d.py b/run_time_assurance/zoo/cwh/docking_3d.py
index 6bf365b..bbfb919 100644
--- a/run_time_assurance/zoo/cwh/docking_3d.py
+++ b/run_time_assurance/zoo/cwh/docking_3d.py
@@ -47,7 +47,7 @@ class Docking3dState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def y(self) -> float:
@@ -57,7 +57,7 @@ class Docking3dState(RTAStateWrapper):
     @y.setter
     def y(self, val: float):
         """Setter for y position"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
     @property
     def z(self) -> float:
@@ -67,7 +67,7 @@ class Docking3dState(RTAStateWrapper):
     @z.setter
     def z(self, val: float):
         """Setter for z position"""
-        self.vector[2] = val
+        self.vector = self.vector.at[2].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -77,7 +77,7 @@ class Docking3dState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[3] = val
+        self.vector = self.vector.at[3].set(val)
 
     @property
     def y_dot(self) -> float:
@@ -87,7 +87,7 @@ class Docking3dState(RTAStateWrapper):
     @y_dot.setter
     def y_dot(self, val: float):
         """Setter for y velocity component"""
-        self.vector[4] = val
+        self.vector = self.vector.at[4].set(val)
 
     @property
     def z_dot(self) -> float:
@@ -97,7 +97,7 @@ class Docking3dState(RTAStateWrapper):
     @z_dot.setter
     def z_dot(self, val: float):
         """Setter for z velocity component"""
-        self.vector[5] = val
+        self.vector = self.vector.at[5].set(val)
 
 
 class Docking3dRTAMixin:
diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index fe6f111..edfc186 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -54,7 +54,7 @@ class Inspection3dState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def y(self) -> float:
@@ -64,7 +64,7 @@ class Inspection3dState(RTAStateWrapper):
     @y.setter
     def y(self, val: float):
         """Setter for y position"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
     @property
     def z(self) -> float:
@@ -74,7 +74,7 @@ class Inspection3dState(RTAStateWrapper):
     @z.setter
     def z(self, val: float):
         """Setter for z position"""
-        self.vector[2] = val
+        self.vector = self.vector.at[2].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -84,7 +84,7 @@ class Inspection3dState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[3] = val
+        self.vector = self.vector.at[3].set(val)
 
     @property
     def y_dot(self) -> float:
@@ -94,7 +94,7 @@ class Inspection3dState(RTAStateWrapper):
     @y_dot.setter
     def y_dot(self, val: float):
         """Setter for y velocity component"""
-        self.vector[4] = val
+        self.vector = self.vector.at[4].set(val)
 
     @property
     def z_dot(self) -> float:
@@ -104,7 +104,7 @@ class Inspection3dState(RTAStateWrapper):
     @z_dot.setter
     def z_dot(self, val: float):
         """Setter for z velocity component"""
-        self.vector[5] = val
+        self.vector = self.vector.at[5].set(val)
 
     @property
     def sun_angle(self) -> float:
@@ -114,7 +114,7 @@ class Inspection3dState(RTAStateWrapper):
     @sun_angle.setter
     def sun_angle(self, val: float):
         """Setter for sun_angle component"""
-        self.vector[6] = val
+        self.vector = self.vector.at[6].set(val)
 
     @property
     def delta_v(self) -> float:
@@ -124,7 +124,7 @@ class Inspection3dState(RTAStateWrapper):
     @delta_v.setter
     def delta_v(self, val: float):
         """Setter for delta_v component"""
-        self.vector[7] = val
+        self.vector = self.vector.at[7].set(val)
 
 
 class Inspection1v1RTA(ExplicitASIFModule):
diff --git a/run_time_assurance/zoo/integrators/integrator_1d.py b/run_time_assurance/zoo/integrators/integrator_1d.py
index ba7a494..47682cd 100644
--- a/run_time_assurance/zoo/integrators/integrator_1d.py
+++ b/run_time_assurance/zoo/integrators/integrator_1d.py
@@ -36,7 +36,7 @@ class Integrator1dDockingState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -46,7 +46,7 @@ class Integrator1dDockingState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
 
 class Integrator1dDockingRTAMixin:
-- 
2.43.0


From e45951fc3aac9a87d08a02c0d3effeea56f4a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:40 +0000
Subject: [PATCH 18/23] fix: implicit ASIF attributes active constraints
 correctly when subsampling

---
 run_time_assurance/rta/asif.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index da2b8ee..d9dde62 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -602,8 +602,8 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         if self.control_bounds_high is not None:
             idx += self.control_dim
         self.constraint_names = self.constraint_names[0:idx]
-        for k in self.constraints.keys():
-            self.constraint_names += [k] * num_steps
+        for k, c in self.constraints.items():
+            self.constraint_names += [k] * self._num_subsampled_points(c, num_steps)
         self.constraint_names += list(self.direct_inequality_constraints.keys())
 
         return ineq_weight, ineq_constant
@@ -699,6 +699,14 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         """Return zeros when constraint is disabled"""
         return jnp.zeros(point_ineq_weight.shape), jnp.zeros(point_ineq_constant.shape)
 
+    def _num_subsampled_points(self, constraint: ConstraintModule, num_steps: int) -> int:
+        """Number of trajectory points subsample_constraints keeps for the constraint"""
+        config = constraint.subsample_config
+        num_points = max(config.num_check_all, 0) + len(range(max(config.num_check_all, 0), num_steps, config.skip_length))
+        if config.subsample_constraints_num_least is not None:
+            num_points = min(num_points, config.subsample_constraints_num_least)
+        return num_points + int(config.keep_first) + int(config.keep_last)
+
     def subsample_constraints(self, ineq_weight_barrier, ineq_constant_barrier, constraint_vals, num_steps):
         """Subsample constraints individually based on the constraint's subsample_config attribute
 
-- 
2.43.0


From ab7533cddec295cbce7fa630c650450958a319d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:34 +0000
Subject: [PATCH 19/23] fix: stateful backup controllers can be jit compiled

The controller state was a static argument of the jitted control law; arrays and
dicts of arrays are not hashable, so every stateful controller raised.
---
 run_time_assurance/controller.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/run_time_assurance/controller.py b/run_time_assurance/controller.py
index 8740176..fda7df6 100644
--- a/run_time_assurance/controller.py
+++ b/run_time_assurance/controller.py
@@ -25,10 +25,8 @@ class RTABackupController(abc.ABC):
 
     def _compose(self):
         if self.jit_enable:
-            self._jacobian = jit(
-                jacfwd(self._generate_control, has_aux=True), static_argnums=[1, 2], static_argnames=['step_size', 'controller_state']
-            )
-            self._generate_control_fn = jit(self._generate_control, static_argnames=['step_size', 'controller_state'])
+            self._jacobian = jit(jacfwd(self._generate_control, has_aux=True), static_argnums=[1], static_argnames=['step_size'])
+            self._generate_control_fn = jit(self._generate_control, static_argnames=['step_size'])
         else:
             self._jacobian = jacfwd(self._generate_control, has_aux=True)
             self._generate_control_fn = self._generate_control
-- 
2.43.0


From 83db5e590174e3b3b43251df1ba256c449dd728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:38 +0000
Subject: [PATCH 20/23] fix: backup trajectories cover the whole backup window
 despite floating point division

---
 run_time_assurance/rta/asif.py    | 2 +-
 run_time_assurance/rta/simplex.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index d9dde62..e409ebe 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -589,7 +589,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         jnp.ndarray
             vector b of quadprog inequality constraint C.T x >= b
         """
-        num_steps = int(self.backup_window / step_size) + 1
+        num_steps = int(round(self.backup_window / step_size, 6)) + 1
         traj_states, traj_sensitivities = self._integrate_fn(state, step_size, num_steps)
         ineq_weight, ineq_constant = self._generate_ineq_constraint_mats_fn(
             state, num_steps, traj_states, traj_sensitivities, params, constraint_enabled_dict
diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index f8588f7..a91e85a 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -300,7 +300,7 @@ class ImplicitSimplexModule(SimplexModule):
             jax array of implict backup trajectory states.
             Shape (M, N) where M is number of states and N is the dimension of the state vector
         """
-        Nsteps = int(self.backup_window / step_size)
+        Nsteps = int(round(self.backup_window / step_size, 6))
         state = self._pred_state_fn(state, step_size, desired_control)
         traj_states = [state]
 
-- 
2.43.0


From 45048ed61892ab0a90baf89b45a496ea5aafa78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:16 +0000
Subject: [PATCH 21/23] fix: CombinedInspectionRTA builds its own deputy filter
 for its number of deputies by default

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index 236f9b8..cba591b 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -2,7 +2,7 @@
 
 from collections import OrderedDict
 from functools import partial
-from typing import Any, Union
+from typing import Any, Optional, Union
 
 import jax.numpy as jnp
 import numpy as np
@@ -483,7 +483,7 @@ class CombinedInspectionRTA(RTAModule):
     num_deputies : int, optional
         number of deputies in simulation, by default NUM_DEPUTIES_DEFAULT
     deputy_rta: RTAModule, optional
-        RTA used by each individual deputy
+        RTA used by each individual deputy, by default a new InspectionRTA for num_deputies deputies
     control_bounds_high : float, optional
         upper bound of allowable control. Pass a list for element specific limit. By default U_MAX_DEFAULT
     control_bounds_low : float, optional
@@ -494,12 +494,14 @@ class CombinedInspectionRTA(RTAModule):
         self,
         *args: Any,
         num_deputies: int = NUM_DEPUTIES_DEFAULT,
-        deputy_rta: RTAModule = InspectionRTA(),
+        deputy_rta: Optional[RTAModule] = None,
         control_bounds_high: Union[float, int, list, np.ndarray] = U_MAX_DEFAULT,
         control_bounds_low: Union[float, int, list, np.ndarray] = -U_MAX_DEFAULT,
         **kwargs: Any,
     ):
         self.num_deputies = num_deputies
+        if deputy_rta is None:
+            deputy_rta = InspectionRTA(num_deputies=num_deputies)
         self.deputy_rta = deputy_rta
         super().__init__(
             *args,
-- 
2.43.0


From c95c1fb9bd1d78858b7e4fc622257150bccb3808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:21 +0000
Subject: [PATCH 22/23] fix: an infeasible program no longer reports the causes
 of an earlier intervention

---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index e409ebe..a138405 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -242,6 +242,7 @@ class ASIFModule(BaseOptimizationModule):
         np.ndarray
             Actual control solved by QP
         """
+        self.constraints_causing_intervention = []
         obj_constant = np.concatenate((obj_constant, np.zeros(self.num_slack)))
         try:
             opt = quadprog.solve_qp(
@@ -250,7 +251,6 @@ class ASIFModule(BaseOptimizationModule):
             u = opt[0]
 
             # Get constraints causing intervention
-            self.constraints_causing_intervention = []
             for i in opt[5]:
                 key = self.constraint_names[i - 1]
                 if key not in self.constraints_causing_intervention:
-- 
2.43.0


From 5dfd3c83d473164d62ad105225e6969ebf119a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:21 +0000
Subject: [PATCH 23/23] fix: resetting an ASIF filter clears the causes of
 earlier interventions

---
 run_time_assurance/rta/asif.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index a138405..a45c698 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -103,6 +103,12 @@ class ASIFModule(BaseOptimizationModule):
             self.direct_inequality_params[k] = c.params
             self.direct_inequality_enabled_dict[k] = c.enabled
 
+    def reset(self):
+        """Resets the rta module to the initial state at the beginning of an episode
+        """
+        super().reset()
+        self.constraints_causing_intervention = None
+
     def compose(self):
         """
         applies jax composition transformations (grad, jit, jacobian etc.)
-- 
2.43.0

