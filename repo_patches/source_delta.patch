From 276f3d3c45eed165ae4156db762d8b7e46a77a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:10 +0000
Subject: [PATCH 01/70] fix: parse Eigen vectors from json explicitly, so that
 the C++ dynamical systems and DMPs compile

---
 src/dmp/Dmp.cpp                             | 9 ++++++---
 src/dynamicalsystems/ExponentialSystem.cpp  | 6 ++++--
 src/dynamicalsystems/SigmoidSystem.cpp      | 3 ++-
 src/dynamicalsystems/SpringDamperSystem.cpp | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 6a752e4..a2e8c3b 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -548,8 +548,10 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
 
   double alpha_spring_damper = j.at("_spring_system").at("damping_coefficient");
 
-  VectorXd y_init = j.at("_y_init");
-  VectorXd y_attr = j.at("_y_attr");
+  VectorXd y_init;
+  Eigen::from_json(j.at("_y_init"), y_init);
+  VectorXd y_attr;
+  Eigen::from_json(j.at("_y_attr"), y_attr);
   // from_json(j.at("_y_init"), y_init);
   // from_json(j.at("_y_attr"), y_attr);
 
@@ -560,7 +562,8 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
   gating_system = j.at("_gating_system").get<DynamicalSystem*>();
 
   string forcing_term_scaling = j.at("_forcing_term_scaling");
-  VectorXd scaling_amplitudes = j.at("_scaling_amplitudes");
+  VectorXd scaling_amplitudes;
+  Eigen::from_json(j.at("_scaling_amplitudes"), scaling_amplitudes);
 
   int n_dims = y_attr.size();
   vector<FunctionApproximator*> function_approximators;
diff --git a/src/dynamicalsystems/ExponentialSystem.cpp b/src/dynamicalsystems/ExponentialSystem.cpp
index 39158a1..18cdccc 100644
--- a/src/dynamicalsystems/ExponentialSystem.cpp
+++ b/src/dynamicalsystems/ExponentialSystem.cpp
@@ -92,8 +92,10 @@ void from_json(const nlohmann::json& j, ExponentialSystem*& obj)
 {
   double tau = j.at("_tau");
   double alpha = j.at("alpha");
-  VectorXd x_init = j.at("_x_init");
-  VectorXd x_attr = j.at("_x_attr");
+  VectorXd x_init;
+  Eigen::from_json(j.at("_x_init"), x_init);
+  VectorXd x_attr;
+  Eigen::from_json(j.at("_x_attr"), x_attr);
 
   obj = new ExponentialSystem(tau, x_init, x_attr, alpha);
 }
diff --git a/src/dynamicalsystems/SigmoidSystem.cpp b/src/dynamicalsystems/SigmoidSystem.cpp
index 0cd2dfd..6355884 100644
--- a/src/dynamicalsystems/SigmoidSystem.cpp
+++ b/src/dynamicalsystems/SigmoidSystem.cpp
@@ -167,7 +167,8 @@ void from_json(const nlohmann::json& j, SigmoidSystem*& obj)
   double tau = j.at("_tau");
   double max_rate = j.at("_max_rate");
   double inflection_point_time = j.at("_inflection_ratio");
-  VectorXd x_init = j.at("_x_init");
+  VectorXd x_init;
+  Eigen::from_json(j.at("_x_init"), x_init);
 
   obj = new SigmoidSystem(tau, x_init, max_rate, inflection_point_time);
 }
diff --git a/src/dynamicalsystems/SpringDamperSystem.cpp b/src/dynamicalsystems/SpringDamperSystem.cpp
index b170029..a6f7654 100644
--- a/src/dynamicalsystems/SpringDamperSystem.cpp
+++ b/src/dynamicalsystems/SpringDamperSystem.cpp
@@ -168,8 +168,10 @@ void from_json(const nlohmann::json& j, SpringDamperSystem*& obj)
   double spring_constant = j.at("spring_constant");
   double mass = j.at("mass");
 
-  VectorXd y_attr = j.at("_y_attr");
-  VectorXd x_init = j.at("_x_init");
+  VectorXd y_attr;
+  Eigen::from_json(j.at("_y_attr"), y_attr);
+  VectorXd x_init;
+  Eigen::from_json(j.at("_x_init"), x_init);
   VectorXd y_init = x_init.segment(0, y_attr.size());
 
   obj = new SpringDamperSystem(tau, y_init, y_attr, damping_coefficient,
-- 
2.43.0


From 2bcd68e23c3caff04401786d86af2376d90d68fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:20 +0000
Subject: [PATCH 02/70] fix: closed form of the spring-damper system for
 initial states with z != 0 (yd = z/tau)

---
 dmpbbo/dynamicalsystems/SpringDamperSystem.py | 2 +-
 src/dynamicalsystems/SpringDamperSystem.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dynamicalsystems/SpringDamperSystem.py b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
index f02bb6a..0e3097c 100644
--- a/dmpbbo/dynamicalsystems/SpringDamperSystem.py
+++ b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
@@ -145,7 +145,7 @@ class SpringDamperSystem(DynamicalSystem):
 
         for i_dim in range(self._dim_y):
             y0 = self._x_init[i_dim] - self._y_attr[i_dim]
-            yd0 = self._x_init[self._dim_y + i_dim]
+            yd0 = self._x_init[self._dim_y + i_dim] / self._tau  # because yd = z/tau
 
             A = y0  # noqa
             B = yd0 + omega_0s[i_dim] * y0  # noqa
diff --git a/src/dynamicalsystems/SpringDamperSystem.cpp b/src/dynamicalsystems/SpringDamperSystem.cpp
index a6f7654..7013c5f 100644
--- a/src/dynamicalsystems/SpringDamperSystem.cpp
+++ b/src/dynamicalsystems/SpringDamperSystem.cpp
@@ -124,7 +124,7 @@ void SpringDamperSystem::analyticalSolution(const VectorXd& ts, MatrixXd& xs,
   // Eigen::replicate().
   for (int i_dim = 0; i_dim < dim_y(); i_dim++) {
     double y0 = x_ini[i_dim] - y_attr_[i_dim];
-    double yd0 = x_ini[dim_y() + i_dim];
+    double yd0 = x_ini[dim_y() + i_dim] / tau();  // because yd = z/tau
 
     double A = y0;
     double B = yd0 + omega_0 * y0;
-- 
2.43.0


From e518475893ae31c00fedaa428efda69a6427af88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:32 +0000
Subject: [PATCH 03/70] fix: take the mass into account when making a
 spring-damper system critically damped

---
 dmpbbo/dynamicalsystems/SpringDamperSystem.py | 2 +-
 src/dynamicalsystems/SpringDamperSystem.cpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dmpbbo/dynamicalsystems/SpringDamperSystem.py b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
index 0e3097c..4c8cf9c 100644
--- a/dmpbbo/dynamicalsystems/SpringDamperSystem.py
+++ b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
@@ -49,7 +49,7 @@ class SpringDamperSystem(DynamicalSystem):
         self.damping_coefficient = damping_coefficient
         self.mass = mass
         if spring_constant == "CRITICALLY_DAMPED":
-            self.spring_constant = damping_coefficient * damping_coefficient / 4
+            self.spring_constant = damping_coefficient * damping_coefficient / (4 * mass)
         else:
             self.spring_constant = spring_constant
 
diff --git a/src/dynamicalsystems/SpringDamperSystem.cpp b/src/dynamicalsystems/SpringDamperSystem.cpp
index 7013c5f..51deb5d 100644
--- a/src/dynamicalsystems/SpringDamperSystem.cpp
+++ b/src/dynamicalsystems/SpringDamperSystem.cpp
@@ -45,8 +45,8 @@ SpringDamperSystem::SpringDamperSystem(double tau, Eigen::VectorXd y_init,
       mass_(mass)
 {
   if (spring_constant_ == CRITICALLY_DAMPED)
-    spring_constant_ =
-        damping_coefficient_ * damping_coefficient_ / 4;  // Critically damped
+    spring_constant_ = damping_coefficient_ * damping_coefficient_ /
+                       (4 * mass_);  // Critically damped
 
   // Order 2 system: these variables are half the size of state dimensionality
   y_ = VectorXd(dim() / 2);
-- 
2.43.0


From 74760a5578e3476e52a70774c33594c87c7d0751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:51 +0000
Subject: [PATCH 04/70] fix: accept one spring constant per dimension in the
 spring-damper system constructor

---
 dmpbbo/dynamicalsystems/SpringDamperSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dynamicalsystems/SpringDamperSystem.py b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
index 4c8cf9c..dea7db8 100644
--- a/dmpbbo/dynamicalsystems/SpringDamperSystem.py
+++ b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
@@ -48,7 +48,7 @@ class SpringDamperSystem(DynamicalSystem):
         self._y_attr = y_attr
         self.damping_coefficient = damping_coefficient
         self.mass = mass
-        if spring_constant == "CRITICALLY_DAMPED":
+        if isinstance(spring_constant, str) and spring_constant == "CRITICALLY_DAMPED":
             self.spring_constant = damping_coefficient * damping_coefficient / (4 * mass)
         else:
             self.spring_constant = spring_constant
-- 
2.43.0


From a98da3d412c075b06ba3d9f3468a97cae2c29fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:55 +0000
Subject: [PATCH 05/70] fix: integrate_start returns a copy, so that callers
 modifying the state do not change the initial state

---
 dmpbbo/dynamicalsystems/DynamicalSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dynamicalsystems/DynamicalSystem.py b/dmpbbo/dynamicalsystems/DynamicalSystem.py
index 569bef1..1214bb9 100644
--- a/dmpbbo/dynamicalsystems/DynamicalSystem.py
+++ b/dmpbbo/dynamicalsystems/DynamicalSystem.py
@@ -151,7 +151,7 @@ class DynamicalSystem(ABC):
         """
         if y_init is not None:
             self.y_init = y_init
-        x = self._x_init
+        x = self._x_init.copy()  # Caller may modify x
         return x, self.differential_equation(x)
 
     def integrate_step(self, dt, x):
-- 
2.43.0


From 9f6f082e2d2df2a1ab89806e9abc1671f09bd3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:32 +0000
Subject: [PATCH 06/70] fix: setting y_attr of a Richards system (e.g. the
 delayed goal of a Dmp) changes its attractor

---
 dmpbbo/dmps/Dmp.py                        |  3 ++-
 dmpbbo/dynamicalsystems/RichardsSystem.py | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index ab4f99f..1bd3843 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -254,7 +254,8 @@ class Dmp(DynamicalSystem, Parameterizable):
             xd[self.GOAL] = np.zeros(self._dim_y)
         else:
             # Integrate goal system and get current goal state
-            self._goal_system.y_attr = self._y_attr
+            if not self.goal_system_requires_scaling:
+                self._goal_system.y_attr = self._y_attr
             xd[self.GOAL] = self._goal_system.differential_equation(x[self.GOAL])
             if not self.goal_system_requires_scaling:
                 # The goal state is the attractor state of the spring-damper system
diff --git a/dmpbbo/dynamicalsystems/RichardsSystem.py b/dmpbbo/dynamicalsystems/RichardsSystem.py
index ace433a..e40b930 100644
--- a/dmpbbo/dynamicalsystems/RichardsSystem.py
+++ b/dmpbbo/dynamicalsystems/RichardsSystem.py
@@ -35,6 +35,20 @@ class RichardsSystem(DynamicalSystem):
         self.t_infl_ratio = t_infl_ratio
         self.left_asymp = None
 
+    @property
+    def y_attr(self):
+        """ Return the y part of the attractor state, i.e. the right asymptote.
+        """
+        return self.right_asymp
+
+    @y_attr.setter
+    def y_attr(self, y):
+        """ Set the y part of the attractor state, i.e. the right asymptote.
+        """
+        if y.size != self._dim_y:
+            raise ValueError(f"y_attr must have size {self._dim_y}")
+        self.right_asymp = np.atleast_1d(y)
+
     def set_left_asymp(self, left_asymp):
         self.left_asymp = left_asymp
 
-- 
2.43.0


From ca58bc69dee4b7b3578597f09a97f9ff2f67bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:05 +0000
Subject: [PATCH 07/70] fix: keep the initial state of a Dmp consistent: y_init
 returned a stale value after it was set, and scaling needed it to be set

---
 dmpbbo/dmps/Dmp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 1bd3843..23c1a61 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -68,6 +68,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         dim_dmp = 3 * y_init.size + 2
         dim_dmp += y_init.size  # new: damping coefficient system
         super().__init__(1, tau, y_init, dim_dmp)
+        self._y_init = y_init
 
         self._y_attr = y_attr
         self._function_approximators = function_approximators
@@ -592,7 +593,9 @@ class Dmp(DynamicalSystem, Parameterizable):
         """
         if y_init_new.size != self.dim_dmp():
             raise ValueError("y_init must have same size {self.dim_dmp()}")
-        self._y_init = y_init_new  # noqa defined inside DynamicalSystem.__init__ of
+        self._y_init = y_init_new
+        self._x_init = np.zeros(self._dim_x)
+        self._x_init[: self._dim_y] = y_init_new
 
         # Set value in all relevant subsystems also
         self._spring_system.y_init = y_init_new
-- 
2.43.0


From c5cfdbe6b5ed3305e2e6f2a913eb55624295e51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:05 +0000
Subject: [PATCH 08/70] fix: Dmp.integrate_start with an initial state with
 several dimensions, or with value 0

---
 dmpbbo/dmps/Dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 23c1a61..a2d4336 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -197,7 +197,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         @param y_init: The initial state vector (y part)
         @return: x, xd - The first vector of state variables and their rates of change
         """
-        if y_init:
+        if y_init is not None:
             self.y_init = y_init
 
         x = np.zeros(self._dim_x)
-- 
2.43.0


From 07248e315cf411d5995aea8f4badab3fefd4b7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:05 +0000
Subject: [PATCH 09/70] fix: setting tau of a Dmp also scales its damping
 system

---
 dmpbbo/dmps/Dmp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index a2d4336..6b1973c 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -585,6 +585,9 @@ class Dmp(DynamicalSystem, Parameterizable):
         if self._goal_system is not None:
             self._goal_system.tau *= tau_scale
 
+        if self._damping_system is not None:
+            self._damping_system.tau *= tau_scale
+
     @DynamicalSystem.y_init.setter
     def y_init(self, y_init_new):
         """ Set the initial state (y-part)
-- 
2.43.0


From ed167045b5b99c24961da0599f740358789f062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:05 +0000
Subject: [PATCH 10/70] fix: Richards system is at rest if its initial state is
 its attractor, instead of returning nan

---
 dmpbbo/dynamicalsystems/RichardsSystem.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dynamicalsystems/RichardsSystem.py b/dmpbbo/dynamicalsystems/RichardsSystem.py
index e40b930..d8af3a9 100644
--- a/dmpbbo/dynamicalsystems/RichardsSystem.py
+++ b/dmpbbo/dynamicalsystems/RichardsSystem.py
@@ -73,7 +73,9 @@ class RichardsSystem(DynamicalSystem):
         @return: xd - rate of change in state
         """
         left_asymp = self._get_left_asymptote()
-        r = (x - left_asymp) / (self.right_asymp - left_asymp)
+        # If both asymptotes are the same (x_init = x_attr) the system is at rest, i.e. r = 1
+        amplitude = self.right_asymp - left_asymp
+        r = np.divide(x - left_asymp, amplitude, out=np.ones(np.shape(x)), where=amplitude != 0.0)
         return self.alpha * (1.0 - np.power(r, self.v)) * (x - left_asymp) / self.tau
 
     def analytical_solution(self, ts):
@@ -96,6 +98,10 @@ class RichardsSystem(DynamicalSystem):
             # https://en.wikipedia.org/wiki/Generalised_logistic_function
             a = left_asymp if np.isscalar(left_asymp) else left_asymp[dd]
             k = self.right_asymp if np.isscalar(self.right_asymp) else self.right_asymp[dd]
+            if k == a:
+                # Both asymptotes are the same (x_init = x_attr): the system is at rest.
+                xs[:, dd] = k
+                continue
             q = -1 + np.power((k - a) / (self.x_init[dd] - a), v)
 
             exp_term = np.exp(-alpha * v * ts / self.tau)
-- 
2.43.0


From b529a70ac3ec29f656acc1f80213dcbe752e3534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:47 +0000
Subject: [PATCH 11/70] fix: LWR ignored its regularization parameter

---
 dmpbbo/functionapproximators/FunctionApproximatorLWR.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
index 8ea4626..60582da 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
@@ -57,8 +57,7 @@ class FunctionApproximatorLWR(FunctionApproximator):
 
         # Prepare the weighted-least squares function approximator
         reg = meta_params["regularization"]
-        wls_meta_params = {"regularization": reg, "use_offset": True}
-        fa_lws = FunctionApproximatorWLS(wls_meta_params)
+        fa_lws = FunctionApproximatorWLS(use_offset=True, regularization=reg)
 
         # Perform one weighted least squares regression for each kernel
         activations = FunctionApproximatorLWR._activations(inputs, model_params)
-- 
2.43.0


From 7598132c2ee8d2aae56b77bf2a6950e52d1c3c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:47 +0000
Subject: [PATCH 12/70] fix: RBFN and LWR with one number of basis functions
 for all of several input dimensions

---
 dmpbbo/functionapproximators/FunctionApproximatorLWR.py  | 3 +--
 dmpbbo/functionapproximators/FunctionApproximatorRBFN.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
index 60582da..91e25f2 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
@@ -50,8 +50,7 @@ class FunctionApproximatorLWR(FunctionApproximator):
         model_params = {"centers": centers, "widths": widths}
 
         # Prepare weighted least squares regressions
-        n_bfs = np.prod(n_bfs_per_dim)
-        n_dims = centers.shape[1]
+        n_bfs, n_dims = centers.shape
         slopes = np.ones([n_bfs, n_dims])
         offsets = np.ones([n_bfs, 1])
 
diff --git a/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py b/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py
index eef020d..ed00a5e 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py
@@ -52,7 +52,6 @@ class FunctionApproximatorRBFN(FunctionApproximator):
         # Determine the centers and widths of the basis functions, given the input data range
 
         n_bfs_per_dim = meta_params["n_basis_functions_per_dim"]
-        n_bfs = np.prod(n_bfs_per_dim)
 
         height = meta_params["intersection_height"]
         centers, widths = Gaussian.get_centers_and_widths(inputs, n_bfs_per_dim, height)
@@ -70,7 +69,7 @@ class FunctionApproximatorRBFN(FunctionApproximator):
         fa_lws = FunctionApproximatorWLS(use_offset, meta_params["regularization"])
         wls_model_params = fa_lws.train(activations, targets)
 
-        model_params["weights"] = wls_model_params["slope"].reshape(n_bfs, -1)
+        model_params["weights"] = wls_model_params["slope"].reshape(centers.shape[0], -1)
 
         return model_params
 
-- 
2.43.0


From f931fc8a34c1486b24ab38315e8e81a30b603aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:47 +0000
Subject: [PATCH 13/70] fix: reject training data in which the numbers of
 inputs and targets differ

---
 dmpbbo/functionapproximators/FunctionApproximator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index 1ae8c97..1143d14 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -48,6 +48,8 @@ class FunctionApproximator(Parameterizable):
         """
         # Ensure second dimension, i.e. shape = (30,) => (30,1)
         inputs = inputs.reshape(inputs.shape[0], -1)
+        if targets.shape[0] != inputs.shape[0]:
+            raise ValueError("The number of inputs and targets for train() must be the same.")
         self._model_params = self._train(inputs, targets, self._meta_params, **kwargs)
         self._dim_input = inputs.shape[1]
         if kwargs.get("save_training_data", False):
-- 
2.43.0


From 7fd0688932eedcb7a2d429aea3e4afa0759a55c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:47 +0000
Subject: [PATCH 14/70] fix: parameter vectors of function approximators with
 scalar parameters (WLS offset) or without selected parameters

---
 dmpbbo/functionapproximators/FunctionApproximator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index 1143d14..bcb7402 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -118,7 +118,7 @@ class FunctionApproximator(Parameterizable):
 
     def get_param_vector(self):
         if self._selected_param_names is None:
-            return np.array(0)
+            return np.empty(0)
 
         """Get a vector containing the values of the selected parameters."""
         if not self.is_trained():
@@ -141,9 +141,9 @@ class FunctionApproximator(Parameterizable):
             )
 
         offset = 0
-        for label in self._selected_param_names:
+        for label in self._selected_param_names or []:
             expected_shape = self._model_params[label].shape
-            cur_n_values = np.prod(expected_shape)
+            cur_n_values = int(np.prod(expected_shape))
             cur_values = values[offset : offset + cur_n_values]
             self._model_params[label] = np.reshape(cur_values, expected_shape)
             offset += cur_n_values
@@ -155,7 +155,7 @@ class FunctionApproximator(Parameterizable):
         size = 0
         for label in self._selected_param_names:
             if label in self._model_params:
-                size += np.prod(self._model_params[label].shape)
+                size += int(np.prod(self._model_params[label].shape))
         return size
 
     def _get_axis(self, fig=None):
-- 
2.43.0


From ef6603324b6ca21bdb5e2246935087687b772e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:47 +0000
Subject: [PATCH 15/70] fix: set_param_vector copies the values, so that the
 caller may reuse the vector

---
 dmpbbo/dmps/Dmp.py                                   | 2 +-
 dmpbbo/functionapproximators/FunctionApproximator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 6b1973c..ab4cb52 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -708,7 +708,7 @@ class Dmp(DynamicalSystem, Parameterizable):
                     fa.set_param_vector(cur_values)
                     offset += cur_size
         if "goal" in self._selected_param_names:
-            self.y_attr = values[offset : offset + self.dim_dmp()]
+            self.y_attr = np.array(values[offset : offset + self.dim_dmp()])
 
     def get_param_vector_size(self):
         return self._get_param_vector_size_local()
diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index bcb7402..92ca85b 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -145,7 +145,7 @@ class FunctionApproximator(Parameterizable):
             expected_shape = self._model_params[label].shape
             cur_n_values = int(np.prod(expected_shape))
             cur_values = values[offset : offset + cur_n_values]
-            self._model_params[label] = np.reshape(cur_values, expected_shape)
+            self._model_params[label] = np.array(cur_values).reshape(expected_shape)
             offset += cur_n_values
 
     def get_param_vector_size(self):
-- 
2.43.0


From 6c4b6abf1fefb27901d747bdb9a321e510e1412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:47 +0000
Subject: [PATCH 16/70] fix: deselecting the goal of a Dmp has an effect

---
 dmpbbo/dmps/Dmp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index ab4cb52..3a69fee 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -651,6 +651,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         if isinstance(names, str):
             names = [names]  # Convert to list
 
+        self._selected_param_names = []
         if "goal" in names:
             self._selected_param_names = ["goal"]
             # No need to bother function approximators with it: remove all occurrences
-- 
2.43.0


From 82b30a4ca991eb4697a1b62e334255cd00fbb114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:22 +0000
Subject: [PATCH 17/70] fix: enforce the bounds of DMP schedules for any number
 of schedules, one-sided bounds, and single time steps

---
 dmpbbo/dmps/DmpWithSchedules.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/dmpbbo/dmps/DmpWithSchedules.py b/dmpbbo/dmps/DmpWithSchedules.py
index 2bcaa45..4044839 100644
--- a/dmpbbo/dmps/DmpWithSchedules.py
+++ b/dmpbbo/dmps/DmpWithSchedules.py
@@ -139,13 +139,9 @@ class DmpWithSchedules(Dmp):
         if self.min_schedules is None and self.max_schedules is None:
             # No bounds, simply return schedules
             return schedules
-        if schedules.ndim == 1:
-            schedules = schedules.reshape((schedules.shape[0], 1))
-        for i_dim in range(len(self._func_apps_schedules)):
-            min_sched = self.min_schedules[i_dim] if self.min_schedules else None
-            max_sched = self.max_schedules[i_dim] if self.max_schedules else None
-            schedules[:, i_dim] = np.clip(schedules[:, i_dim], min_sched, max_sched)
-        return schedules
+        # Bounds are None or contain one value per dimension. The last axis of schedules, i.e. the
+        # only one for a single time step, contains the dimensions.
+        return np.clip(schedules, self.min_schedules, self.max_schedules)
 
     def integrate_start_sched(self, y_init=None):
         """ Start integrating the DMP with schedules with a new initial state.
-- 
2.43.0


From 417a0edf335deea1acc2e5b4dd07d8a03f36a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:22 +0000
Subject: [PATCH 18/70] fix: training a DmpWithSchedules with a matrix of
 schedules

---
 dmpbbo/dmps/DmpWithSchedules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/DmpWithSchedules.py b/dmpbbo/dmps/DmpWithSchedules.py
index 4044839..c3f9250 100644
--- a/dmpbbo/dmps/DmpWithSchedules.py
+++ b/dmpbbo/dmps/DmpWithSchedules.py
@@ -91,7 +91,7 @@ class DmpWithSchedules(Dmp):
 
         xs, _, _, _ = self.analytical_solution()
         inputs = xs[:, self.PHASE]
-        targets = schedules or trajectory.misc
+        targets = schedules if schedules is not None else trajectory.misc
 
         if targets is None:
             raise ValueError(
-- 
2.43.0


From 1115dde414e829b71efa9566932274869e1a4a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:05 +0000
Subject: [PATCH 19/70] fix: polynomial trajectories have the requested
 velocities and accelerations for any duration

---
 dmpbbo/dmps/Trajectory.py |  8 ++++++++
 src/dmp/Trajectory.cpp    | 22 +++++++++++++++-------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 2310f76..89e7e58 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -316,6 +316,14 @@ class Trajectory:
         @param ydd_to: Final accelerations
         @return:
         """
+        # The polynomial is a function of normalized time (in [0,1]). Hence, velocities and
+        # accelerations must be converted to normalized time, too.
+        duration = ts[-1] - ts[0]
+        yd_from = yd_from * duration
+        yd_to = yd_to * duration
+        ydd_from = ydd_from * duration ** 2
+        ydd_to = ydd_to * duration ** 2
+
         a0 = y_from
         a1 = yd_from
         a2 = ydd_from / 2
diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index be4b8cb..6259b27 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -176,16 +176,24 @@ Trajectory Trajectory::generatePolynomialTrajectory(
     const VectorXd& ydd_from, const VectorXd& y_to, const VectorXd& yd_to,
     const VectorXd& ydd_to)
 {
+  // The polynomial is a function of normalized time (in [0,1]). Hence,
+  // velocities and accelerations must be converted to normalized time, too.
+  double duration = ts[ts.size() - 1] - ts[0];
+  VectorXd v_from = yd_from * duration;
+  VectorXd v_to = yd_to * duration;
+  VectorXd acc_from = ydd_from * duration * duration;
+  VectorXd acc_to = ydd_to * duration * duration;
+
   VectorXd a0 = y_from;
-  VectorXd a1 = yd_from;
-  VectorXd a2 = ydd_from / 2;
+  VectorXd a1 = v_from;
+  VectorXd a2 = acc_from / 2;
 
-  VectorXd a3 = -10 * y_from - 6 * yd_from - 2.5 * ydd_from + 10 * y_to -
-                4 * yd_to + 0.5 * ydd_to;
+  VectorXd a3 = -10 * y_from - 6 * v_from - 2.5 * acc_from + 10 * y_to -
+                4 * v_to + 0.5 * acc_to;
   VectorXd a4 =
-      15 * y_from + 8 * yd_from + 2 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to;
-  VectorXd a5 = -6 * y_from - 3 * yd_from - 0.5 * ydd_from + 6 * y_to -
-                3 * yd_to + 0.5 * ydd_to;
+      15 * y_from + 8 * v_from + 2 * acc_from - 15 * y_to + 7 * v_to - acc_to;
+  VectorXd a5 = -6 * y_from - 3 * v_from - 0.5 * acc_from + 6 * y_to -
+                3 * v_to + 0.5 * acc_to;
 
   int n_time_steps = ts.size();
   int n_dims = y_from.size();
-- 
2.43.0


From e12a4cf0d9ae7051d0cb384897b0db8ac87f88b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:05 +0000
Subject: [PATCH 20/70] fix: viapoint trajectories contain the viapoint only
 once, and have the requested time steps

---
 dmpbbo/dmps/Trajectory.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 89e7e58..752d075 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -383,7 +383,7 @@ class Trajectory:
         ydd_to = np.zeros(n_dims)
 
         traj1 = Trajectory.from_polynomial(
-            ts[:viapoint_time_step],
+            ts[: viapoint_time_step + 1],
             y_from,
             yd_from,
             ydd_from,
@@ -396,9 +396,13 @@ class Trajectory:
             ts[viapoint_time_step:], y_viapoint, yd_viapoint, ydd_viapoint, y_to, yd_to, ydd_to
         )
 
-        traj1.append(traj2)
-
-        return traj1
+        # The viapoint is the last sample of traj1 and the first of traj2: do not duplicate it.
+        return cls(
+            ts,
+            np.concatenate((traj1.ys, traj2.ys[1:])),
+            np.concatenate((traj1.yds, traj2.yds[1:])),
+            np.concatenate((traj1.ydds, traj2.ydds[1:])),
+        )
 
     @classmethod
     def from_min_jerk(cls, ts, y_from, y_to):
-- 
2.43.0


From 6a2b412ecdb7e3887cc3a907f98f7ed12bbf7bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:05 +0000
Subject: [PATCH 21/70] fix: minimum-jerk trajectories that do not start at
 time 0

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 src/dmp/Trajectory.cpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 752d075..6d18d56 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -420,8 +420,8 @@ class Trajectory:
         yds = np.zeros([n_time_steps, n_dims])
         ydds = np.zeros([n_time_steps, n_dims])
 
-        D = ts[n_time_steps - 1]  # noqa
-        tss = ts / D
+        D = ts[n_time_steps - 1] - ts[0]  # noqa
+        tss = (ts - ts[0]) / D
 
         A = y_to - y_from  # noqa
 
diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index 6259b27..33ed6cc 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -149,8 +149,8 @@ Trajectory Trajectory::generateMinJerkTrajectory(const VectorXd& ts,
   MatrixXd ys(n_time_steps, n_dims), yds(n_time_steps, n_dims),
       ydds(n_time_steps, n_dims);
 
-  double D = ts[n_time_steps - 1];
-  ArrayXd tss = (ts / D).array();
+  double D = ts[n_time_steps - 1] - ts[0];
+  ArrayXd tss = (ts.array() - ts[0]) / D;
 
   ArrayXd A = y_to.array() - y_from.array();
 
-- 
2.43.0


From 09ec66311bc06d6b3dfd346caeaf577439ccf14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:05 +0000
Subject: [PATCH 22/70] fix: cropping a trajectory up to (after) its end keeps
 the last sample

---
 dmpbbo/dmps/Trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 6d18d56..895a23f 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -269,7 +269,7 @@ class Trajectory:
 
             if end >= self._ts[-1]:
                 # Time 'end' is larger than the last time in the trajectory
-                end = len(self._ts) - 1
+                end = len(self._ts)
             else:
                 # Get first index when time is smaller than 'end'
                 end = np.argmax(self._ts >= end)
-- 
2.43.0


From a99138319ea338777598da822d0833912bc9ceaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:05 +0000
Subject: [PATCH 23/70] fix: accept a vector as miscellaneous variables of a
 trajectory, as for the positions

---
 dmpbbo/dmps/Trajectory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 895a23f..87438f6 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -56,6 +56,8 @@ class Trajectory:
         if misc is not None:
             if n_time_steps != misc.shape[0]:
                 raise ValueError("misc.shape[0] must have size {n_time_steps}")
+            if misc.ndim == 1:
+                misc = misc.reshape((n_time_steps, 1))
 
         self._dim = 1
         if ys.ndim == 2:
@@ -150,6 +152,8 @@ class Trajectory:
     def misc(self, new_misc):
         if new_misc.shape[0] != self.length:
             raise ValueError("new_misc.shape[0] must have size {self.length}")
+        if new_misc.ndim == 1:
+            new_misc = new_misc.reshape((self.length, 1))
         self._misc = new_misc
 
     def has_misc(self):
-- 
2.43.0


From f4bb7853c2ca77a8dd2458c7e745640a22281915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:05 +0000
Subject: [PATCH 24/70] fix: padding trajectories failed for some time steps
 due to rounding

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 87438f6..0765009 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -286,7 +286,7 @@ class Trajectory:
             self._misc = self._misc[start:end, :]
 
     def pad_front(self, n_padding=100):
-        ts_padding = np.arange(0.0, n_padding*self._dt_mean, self._dt_mean)
+        ts_padding = np.arange(n_padding) * self._dt_mean
         ys_padding = np.tile(self.y_init, (n_padding, 1))
         prepend_traj = Trajectory(
             ts_padding,
@@ -297,7 +297,7 @@ class Trajectory:
         self.prepend(prepend_traj)
 
     def pad_end(self, n_padding=100):
-        ts_padding = np.arange(0.0, n_padding*self._dt_mean, self._dt_mean)
+        ts_padding = np.arange(n_padding) * self._dt_mean
         ys_padding = np.tile(self.y_final, (n_padding, 1))
         append_traj = Trajectory(
             ts_padding,
-- 
2.43.0


From dc3f2a8a673fa61c0a1603356494ca90deb7c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:29 +0000
Subject: [PATCH 25/70] fix: times after prepending a trajectory that does not
 start at 0, or one with a single sample (e.g. padding)

---
 dmpbbo/dmps/Trajectory.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 0765009..65185d2 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -449,7 +449,9 @@ class Trajectory:
 
         @param trajectory:  The trajectory to append.
         """
-        ts_appended = (trajectory.ts - trajectory.ts[0]) + (self._ts[-1] + self._dt_mean)
+        # A trajectory with one sample has no mean dt
+        dt = self._dt_mean if self.length > 1 else trajectory._dt_mean
+        ts_appended = (trajectory.ts - trajectory.ts[0]) + (self._ts[-1] + dt)
         self._ts = np.concatenate((self._ts, ts_appended))
         self._ys = np.concatenate((self._ys, trajectory.ys))
         self._yds = np.concatenate((self._yds, trajectory.yds))
@@ -465,8 +467,9 @@ class Trajectory:
 
         @param trajectory:  The trajectory to append.
         """
-        self.set_start_time_to_zero()
-        self.ts[:] += trajectory.duration + trajectory._dt_mean
+        # A trajectory with one sample has no mean dt
+        dt = trajectory._dt_mean if trajectory.length > 1 else self._dt_mean
+        self._ts = (self._ts - self._ts[0]) + (trajectory.ts[-1] + dt)
         self._ts = np.concatenate((trajectory.ts, self._ts))
         self._ys = np.concatenate((trajectory.ys, self._ys))
         self._yds = np.concatenate((trajectory.yds, self._yds))
-- 
2.43.0


From 8c88b19d35f4b79e0d20451b9917db74d4bb2353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:29 +0000
Subject: [PATCH 26/70] fix: appending/prepending trajectories with and without
 misc, and do not change the trajectory if they are incompatible

---
 dmpbbo/dmps/Trajectory.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 65185d2..3229594 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -452,14 +452,23 @@ class Trajectory:
         # A trajectory with one sample has no mean dt
         dt = self._dt_mean if self.length > 1 else trajectory._dt_mean
         ts_appended = (trajectory.ts - trajectory.ts[0]) + (self._ts[-1] + dt)
+        self._check_compatible(trajectory)
         self._ts = np.concatenate((self._ts, ts_appended))
         self._ys = np.concatenate((self._ys, trajectory.ys))
         self._yds = np.concatenate((self._yds, trajectory.yds))
         self._ydds = np.concatenate((self._ydds, trajectory.ydds))
-        if self._misc is None or trajectory.misc is None:
+        if not self.has_misc() or not trajectory.has_misc():
             self._misc = None
         else:
             self._misc = np.concatenate((self._misc, trajectory.misc))
+
+    def _check_compatible(self, trajectory):
+        """ Check (before changing anything) if another trajectory can be appended/prepended. """
+        if trajectory.dim != self.dim:
+            raise ValueError(f"trajectory must have dimensionality {self.dim}")
+        if self.has_misc() and trajectory.has_misc() and trajectory.dim_misc != self.dim_misc:
+            raise ValueError(f"misc of trajectory must have dimensionality {self.dim_misc}")
+
     def prepend(self, trajectory):
         """ Prepend another trajectory to this one.
 
@@ -469,12 +478,13 @@ class Trajectory:
         """
         # A trajectory with one sample has no mean dt
         dt = trajectory._dt_mean if trajectory.length > 1 else self._dt_mean
+        self._check_compatible(trajectory)
         self._ts = (self._ts - self._ts[0]) + (trajectory.ts[-1] + dt)
         self._ts = np.concatenate((trajectory.ts, self._ts))
         self._ys = np.concatenate((trajectory.ys, self._ys))
         self._yds = np.concatenate((trajectory.yds, self._yds))
         self._ydds = np.concatenate((trajectory.ydds, self._ydds))
-        if self._misc is None or trajectory.misc is None:
+        if not self.has_misc() or not trajectory.has_misc():
             self._misc = None
         else:
             self._misc = np.concatenate((trajectory.misc, self._misc))
-- 
2.43.0


From 5d25928f639099e0cc768b0a8694450fdf2e7f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:29 +0000
Subject: [PATCH 27/70] fix: dt_mean of a trajectory (used for derivatives and
 padding) is updated when cropping, appending and prepending

---
 dmpbbo/dmps/Trajectory.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 3229594..83991ad 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -284,6 +284,7 @@ class Trajectory:
         self._ydds = self._ydds[start:end, :]
         if self._misc is not None:
             self._misc = self._misc[start:end, :]
+        self._update_dt_mean()
 
     def pad_front(self, n_padding=100):
         ts_padding = np.arange(n_padding) * self._dt_mean
@@ -461,6 +462,12 @@ class Trajectory:
             self._misc = None
         else:
             self._misc = np.concatenate((self._misc, trajectory.misc))
+        self._update_dt_mean()
+
+    def _update_dt_mean(self):
+        """ Update the mean dt after the times have changed. """
+        if self._ts.size > 1:
+            self._dt_mean = np.mean(np.diff(self._ts))
 
     def _check_compatible(self, trajectory):
         """ Check (before changing anything) if another trajectory can be appended/prepended. """
@@ -488,6 +495,7 @@ class Trajectory:
             self._misc = None
         else:
             self._misc = np.concatenate((trajectory.misc, self._misc))
+        self._update_dt_mean()
 
     def as_matrix(self):
         """ Return the trajectory as a matrix.
-- 
2.43.0


From b247a83f26f48f4bef8b07d5ab74ce3542ec4fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:34 +0000
Subject: [PATCH 28/70] fix: coefficients of polynomial trajectories with a
 non-zero initial acceleration

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 src/dmp/Trajectory.cpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 83991ad..e4b5cf1 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -333,8 +333,8 @@ class Trajectory:
         a1 = yd_from
         a2 = ydd_from / 2
 
-        a3 = -10 * y_from - 6 * yd_from - 2.5 * ydd_from + 10 * y_to - 4 * yd_to + 0.5 * ydd_to
-        a4 = 15 * y_from + 8 * yd_from + 2 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to
+        a3 = -10 * y_from - 6 * yd_from - 1.5 * ydd_from + 10 * y_to - 4 * yd_to + 0.5 * ydd_to
+        a4 = 15 * y_from + 8 * yd_from + 1.5 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to
         a5 = -6 * y_from - 3 * yd_from - 0.5 * ydd_from + 6 * y_to - 3 * yd_to + 0.5 * ydd_to
 
         n_time_steps = ts.size
diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index 33ed6cc..9f15143 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -188,10 +188,10 @@ Trajectory Trajectory::generatePolynomialTrajectory(
   VectorXd a1 = v_from;
   VectorXd a2 = acc_from / 2;
 
-  VectorXd a3 = -10 * y_from - 6 * v_from - 2.5 * acc_from + 10 * y_to -
+  VectorXd a3 = -10 * y_from - 6 * v_from - 1.5 * acc_from + 10 * y_to -
                 4 * v_to + 0.5 * acc_to;
   VectorXd a4 =
-      15 * y_from + 8 * v_from + 2 * acc_from - 15 * y_to + 7 * v_to - acc_to;
+      15 * y_from + 8 * v_from + 1.5 * acc_from - 15 * y_to + 7 * v_to - acc_to;
   VectorXd a5 = -6 * y_from - 3 * v_from - 0.5 * acc_from + 6 * y_to -
                 3 * v_to + 0.5 * acc_to;
 
-- 
2.43.0


From a979a80675c58016f17491087fc914b41495e364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:26 +0000
Subject: [PATCH 29/70] fix: integrating a contextual DMP whose goal depends on
 the task parameters

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index ea7369a..f68bbd0 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -186,14 +186,8 @@ class DmpContextualTwoStep(DynamicalSystem):
         @return: x, xd - The first vector of state variables and their rates of change
         """
 
-        # Predict dmp parameters from task parameters using the ppf
-        n_params = self.dmp.get_param_vector_size()
-        param_vector = np.zeros((n_params, 1))
-        for i_param in range(n_params):
-            param_vector[i_param] = self.ppf[i_param].predict(task_params)
-
-        # Set the dmp parameters
-        self.dmp.set_param_vector(param_vector)
+        # Predict dmp parameters from task parameters using the ppf, and set them
+        self.set_task_params(task_params)
 
         return self.dmp.integrate_start(y_init)
 
-- 
2.43.0


From f88a8d96e04d96667026501f5145082639b4ee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:26 +0000
Subject: [PATCH 30/70] fix: dim_dmp of a contextual DMP returned a method

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index f68bbd0..f45262b 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -166,7 +166,7 @@ class DmpContextualTwoStep(DynamicalSystem):
         return dmp_contextual
 
     def dim_dmp(self):
-        return self.dmp.dim_dmp
+        return self.dmp.dim_dmp()
 
     def set_task_params(self, task_params):
         dmp_params = self.dmp.get_param_vector()  # Get vector of right size; Values do not matter.
-- 
2.43.0


From dffb6a817486352b665114be55357d8bad252e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:26 +0000
Subject: [PATCH 31/70] fix: roll out a contextual DMP for task parameters in
 the format used for training (scalar or vector)

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index f45262b..d30b791 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -169,6 +169,8 @@ class DmpContextualTwoStep(DynamicalSystem):
         return self.dmp.dim_dmp()
 
     def set_task_params(self, task_params):
+        # One sample with one or more task parameters. As for training, it may also be a scalar.
+        task_params = np.reshape(task_params, (1, -1))
         dmp_params = self.dmp.get_param_vector()  # Get vector of right size; Values do not matter.
         for i_param, fa in enumerate(self.ppf):
             dmp_params[i_param] = fa.predict(task_params)
-- 
2.43.0


From 6e9f1ab28871bc8adc3205b912cbd060e628f4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:22 +0000
Subject: [PATCH 32/70] fix: CMA-ES weights if there are fewer samples than the
 eliteness parameter

---
 dmpbbo/bbo/updaters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/updaters.py b/dmpbbo/bbo/updaters.py
index d1ff0aa..a6c4ef7 100644
--- a/dmpbbo/bbo/updaters.py
+++ b/dmpbbo/bbo/updaters.py
@@ -249,7 +249,7 @@ def costs_to_weights(costs, weighting_method, eliteness):
             weights[indices[0:mu]] = 1.0 / mu
         else:
             # CMA-ES
-            for ii in range(mu):
+            for ii in range(min(mu, costs.size)):
                 weights[indices[ii]] = np.log(mu + 0.5) - np.log(ii + 1)
 
     else:
-- 
2.43.0


From 2e366adcdc82722885fdf77d78654c7a39c7096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:22 +0000
Subject: [PATCH 33/70] fix: covariance matrix is no longer positive
 semi-definite after limiting its diagonal

---
 dmpbbo/bbo/updaters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dmpbbo/bbo/updaters.py b/dmpbbo/bbo/updaters.py
index a6c4ef7..9134ba2 100644
--- a/dmpbbo/bbo/updaters.py
+++ b/dmpbbo/bbo/updaters.py
@@ -193,6 +193,10 @@ class UpdaterCovarAdaptation(Updater):
                 if not is_scalar_max:
                     level_max = pow(self.diagonal_max[ii], 2)
                 if covar_new[ii, ii] > level_max:
+                    # Scale the covariances also; otherwise covar may not be positive semi-definite
+                    scale = np.sqrt(level_max / covar_new[ii, ii])
+                    covar_new[ii, :] *= scale
+                    covar_new[:, ii] *= scale
                     covar_new[ii, ii] = level_max
 
         # Set a minimum value for the diagonal to avoid pre-mature convergence
-- 
2.43.0


From 9ee1fecd1e44bff7cfc1cb0a9fdfc16011f26e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:22 +0000
Subject: [PATCH 34/70] fix: sampling from a bounded distribution without
 bounds

---
 dmpbbo/bbo/DistributionGaussianBounded.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dmpbbo/bbo/DistributionGaussianBounded.py b/dmpbbo/bbo/DistributionGaussianBounded.py
index 59b451f..3a9dc16 100644
--- a/dmpbbo/bbo/DistributionGaussianBounded.py
+++ b/dmpbbo/bbo/DistributionGaussianBounded.py
@@ -43,5 +43,7 @@ class DistributionGaussianBounded(DistributionGaussian):
 
     def generate_samples(self, n_samples=1):
         samples = super().generate_samples(n_samples)
+        if self.lower_bound is None and self.upper_bound is None:
+            return samples
         clipped_samples = samples.clip(self.lower_bound, self.upper_bound)
         return clipped_samples
-- 
2.43.0


From ef411aa2943bdb7618194bf7be64d557d644119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:52 +0000
Subject: [PATCH 35/70] fix: learning session ignored update and sample numbers
 that are numpy integers

---
 dmpbbo/bbo/LearningSession.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index e04ad95..f62d1c2 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -324,14 +324,14 @@ class LearningSession:
         @param i_sample:  The sample number to be prepended
         @return: The basename of a file.
         """
-        if isinstance(i_sample, int):
+        if isinstance(i_sample, (int, np.integer)):
             basename = f"{i_sample:03d}_{name}"  # e.g. 0 => "000_name"
         elif i_sample:
             basename = f"{i_sample}_{name}"  # e.g. "eval" => "eval_name"
         else:
             basename = name
 
-        if isinstance(i_update, int):
+        if isinstance(i_update, (int, np.integer)):
             # e.g. "update00023/000_name"
             basename = Path(f"update{i_update:05d}", basename)
 
-- 
2.43.0


From 5d48fcd93f3c517a6f7e425cb96854315ceee590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:52 +0000
Subject: [PATCH 36/70] fix: modifying an object read by a learning session
 changed what the session returns later

---
 dmpbbo/bbo/LearningSession.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index f62d1c2..8f53c6d 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -390,7 +390,7 @@ class LearningSession:
 
             self._cache[basename] = obj
 
-            return obj
+            return copy.deepcopy(obj)
 
     def tell(self, obj, name, i_update=None, i_sample=None):
         """ Add an object to the database.
-- 
2.43.0


From 52bb89c47ee40b48606459edbf9fdac1a562c4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:52 +0000
Subject: [PATCH 37/70] fix: learning session returned an outdated object if
 its type (and thus its file extension) changed; storing a Dmp in a new
 directory

---
 dmpbbo/bbo/LearningSession.py             | 6 ++++++
 dmpbbo/bbo_of_dmps/LearningSessionTask.py | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 8f53c6d..8bb23dc 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -429,6 +429,12 @@ class LearningSession:
             filename = f"{abs_basename}.json"
             jc.savejson(filename, obj)
 
+        # If an object of another type was stored before, that file is now outdated.
+        for extension in ["json", "csv", "txt"]:
+            other_filename = f"{abs_basename}.{extension}"
+            if other_filename != filename and os.path.isfile(other_filename):
+                os.remove(other_filename)
+
         return filename
 
     def save_all(self, directory):
diff --git a/dmpbbo/bbo_of_dmps/LearningSessionTask.py b/dmpbbo/bbo_of_dmps/LearningSessionTask.py
index e92d1ad..27ecf2a 100644
--- a/dmpbbo/bbo_of_dmps/LearningSessionTask.py
+++ b/dmpbbo/bbo_of_dmps/LearningSessionTask.py
@@ -50,15 +50,15 @@ class LearningSessionTask(LearningSession):
         @param i_update:  The update number
         @param i_sample:  The sample number
         """
+        filename = super().tell(obj, name, i_update, i_sample)
+
         # If it's a Dmp, save it in a C++-readable format also
         if "dmp" in name:
             if self._root_dir is not None:
                 basename = self.get_base_name(name, i_update, i_sample)
                 abs_basename = Path(self._root_dir, basename)
-                jc.savejson(f"{abs_basename}.json", obj)
                 jc.savejson_for_cpp(f"{abs_basename}_for_cpp.json", obj)
 
-        filename = super().tell(obj, name, i_update, i_sample)
         return filename
 
     def add_rollout(self, i_update, i_sample, sample, cost_vars, cost):
-- 
2.43.0


From 95ff70d3d97faac8ce6321607146071a554d7fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:52 +0000
Subject: [PATCH 38/70] fix: learning session lost the shape of matrices with
 one row or column, e.g. the samples of a 1-D search space

---
 dmpbbo/bbo/LearningSession.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 8bb23dc..0ef4230 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -384,6 +384,10 @@ class LearningSession:
 
             elif os.path.isfile(f"{abs_basename}.txt"):
                 obj = np.loadtxt(f"{abs_basename}.txt")
+                with open(f"{abs_basename}.txt", "r") as f:
+                    header = f.readline()
+                if header.startswith("# shape: "):
+                    obj = obj.reshape([int(n) for n in header.split()[2:]])
 
             else:
                 raise IOError(f"Could not find file with basename: {abs_basename}")
@@ -421,7 +425,10 @@ class LearningSession:
 
         if isinstance(obj, (np.ndarray, list, int)):
             filename = f"{abs_basename}.txt"
-            np.savetxt(filename, np.atleast_1d(obj))  # noqa
+            # Store the shape if it cannot be derived from the file, e.g. a 1 X 5 or 5 X 1 matrix.
+            shape = np.shape(obj)
+            header = "shape: " + " ".join(map(str, shape)) if 0 in shape or 1 in shape else ""
+            np.savetxt(filename, np.atleast_1d(obj), header=header)  # noqa
         elif isinstance(obj, pd.DataFrame):
             filename = f"{abs_basename}.csv"
             obj.to_csv(filename, index=False)
-- 
2.43.0


From c99f9c858288394e1561c13ac82e0f14e5a8199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:52 +0000
Subject: [PATCH 39/70] fix: the last update was missing in the number of
 updates and the learning curve of a learning session

---
 dmpbbo/bbo/LearningSession.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 0ef4230..2db566e 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -22,7 +22,7 @@ import copy
 import inspect
 import os
 import warnings
-from glob import glob
+from glob import escape, glob
 from pathlib import Path
 
 import jsonpickle
@@ -302,12 +302,14 @@ class LearningSession:
         @return: The number of updates that have already been performed.
         """
         if not self._root_dir:
-            return self._last_update_added
+            return 0 if self._last_update_added is None else self._last_update_added + 1
         else:
-            update_dirs = sorted(glob(str(Path(self._root_dir, "update")) + "[0-9]*"))
-            last_dir = update_dirs[-1]
-            update_str = Path(last_dir).name.replace("update", "")
-            return int(update_str)
+            update_dirs = glob(str(Path(escape(str(self._root_dir)), "update")) + "[0-9]*")
+            if not update_dirs:
+                return 0
+            i_last = max([int(Path(d).name.replace("update", "")) for d in update_dirs])
+            # In the last directory, the update itself may not have been done yet.
+            return i_last + 1 if self.exists("weights", i_last) else i_last
 
     @staticmethod
     def get_base_name(name, i_update=None, i_sample=None):
-- 
2.43.0


From c4abbb53a9098d6095c34cd734e6b6bf79a5910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:46 +0000
Subject: [PATCH 40/70] fix: C++ sigmoid system adapts to an initial state set
 with set_y_init or integrateStart

---
 src/dynamicalsystems/SigmoidSystem.cpp | 6 ++++++
 src/dynamicalsystems/SigmoidSystem.hpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/dynamicalsystems/SigmoidSystem.cpp b/src/dynamicalsystems/SigmoidSystem.cpp
index 6355884..2f4d5f2 100644
--- a/src/dynamicalsystems/SigmoidSystem.cpp
+++ b/src/dynamicalsystems/SigmoidSystem.cpp
@@ -62,6 +62,12 @@ void SigmoidSystem::set_x_init(const VectorXd& x_init)
   Ks_ = SigmoidSystem::computeKs(x_init, max_rate_, inflection_point_time);
 }
 
+void SigmoidSystem::set_y_init(const Ref<const VectorXd>& y_init)
+{
+  // For this system, y and x are the same
+  set_x_init(y_init);
+}
+
 VectorXd SigmoidSystem::computeKs(const VectorXd& N_0s, double r,
                                   double inflection_point_time_time)
 {
diff --git a/src/dynamicalsystems/SigmoidSystem.hpp b/src/dynamicalsystems/SigmoidSystem.hpp
index a084fce..b8537cd 100644
--- a/src/dynamicalsystems/SigmoidSystem.hpp
+++ b/src/dynamicalsystems/SigmoidSystem.hpp
@@ -63,6 +63,7 @@ class SigmoidSystem : public DynamicalSystem {
 
   void set_tau(double tau);
   void set_x_init(const Eigen::VectorXd& x_init);
+  void set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init);
 
   /** Read an object from json.
    *  \param[in]  j   json input
-- 
2.43.0


From c1401ced86423ce3fa13961d148c5c79009bbd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:46 +0000
Subject: [PATCH 41/70] fix: initial velocity of a spring-damper system was
 lost when loading it in C++

---
 src/dynamicalsystems/SpringDamperSystem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynamicalsystems/SpringDamperSystem.cpp b/src/dynamicalsystems/SpringDamperSystem.cpp
index 51deb5d..7d41320 100644
--- a/src/dynamicalsystems/SpringDamperSystem.cpp
+++ b/src/dynamicalsystems/SpringDamperSystem.cpp
@@ -176,6 +176,8 @@ void from_json(const nlohmann::json& j, SpringDamperSystem*& obj)
 
   obj = new SpringDamperSystem(tau, y_init, y_attr, damping_coefficient,
                                spring_constant, mass);
+  // y_init does not contain the initial velocity
+  obj->set_x_init(x_init);
 }
 
 void SpringDamperSystem::to_json_helper(nlohmann::json& j) const
-- 
2.43.0


From ad22e26a3754a3b7f92ed75e0363bbd3e8431c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:46 +0000
Subject: [PATCH 42/70] fix: size of the state of a C++ Dmp for all
 constructors

---
 src/dmp/Dmp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index a2e8c3b..d5e3be6 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -104,7 +104,7 @@ Dmp::Dmp(int n_dims_dmp,
          double alpha_spring_damper, ExponentialSystem* goal_system,
          DynamicalSystem* phase_system, DynamicalSystem* gating_system,
          std::string scaling, Eigen::VectorXd scaling_amplitudes)
-    : DynamicalSystem(1, 1.0, VectorXd::Zero(n_dims_dmp)),
+    : DynamicalSystem(1.0, VectorXd::Zero(n_dims_dmp), 3 * n_dims_dmp + 2),
       y_attr_(VectorXd::Ones(n_dims_dmp)),
       goal_system_(goal_system),
       phase_system_(phase_system),
@@ -120,7 +120,7 @@ Dmp::Dmp(double tau, Eigen::VectorXd y_init, Eigen::VectorXd y_attr,
          std::vector<FunctionApproximator*> function_approximators,
          std::string dmp_type, std::string scaling,
          Eigen::VectorXd scaling_amplitudes)
-    : DynamicalSystem(1, tau, y_init),
+    : DynamicalSystem(tau, y_init, 3 * y_init.size() + 2),
       y_attr_(y_attr),
       forcing_term_scaling_(scaling),
       scaling_amplitudes_(scaling_amplitudes)
@@ -133,7 +133,7 @@ Dmp::Dmp(int n_dims_dmp,
          std::vector<FunctionApproximator*> function_approximators,
          std::string dmp_type, std::string scaling,
          Eigen::VectorXd scaling_amplitudes)
-    : DynamicalSystem(1, 1.0, VectorXd::Zero(n_dims_dmp)),
+    : DynamicalSystem(1.0, VectorXd::Zero(n_dims_dmp), 3 * n_dims_dmp + 2),
       y_attr_(VectorXd::Ones(n_dims_dmp)),
       forcing_term_scaling_(scaling),
       scaling_amplitudes_(scaling_amplitudes)
@@ -144,7 +144,7 @@ Dmp::Dmp(int n_dims_dmp,
 
 Dmp::Dmp(double tau, Eigen::VectorXd y_init, Eigen::VectorXd y_attr,
          double alpha_spring_damper, ExponentialSystem* goal_system)
-    : DynamicalSystem(1, tau, y_init),
+    : DynamicalSystem(tau, y_init, 3 * y_init.size() + 2),
       y_attr_(y_attr),
       forcing_term_scaling_("NO_SCALING"),
       scaling_amplitudes_(VectorXd::Zero(0))
-- 
2.43.0


From 564e8ceb26fbc5245d680370b2305f2a746ee423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:46 +0000
Subject: [PATCH 43/70] fix: set the initial state of a C++ Dmp through the
 base class, or with a segment of a vector

---
 src/dmp/Dmp.cpp |  2 +-
 src/dmp/Dmp.hpp | 10 +---------
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index d5e3be6..e309faf 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -521,7 +521,7 @@ void Dmp::set_tau(double tau)
   gating_system_->set_tau(tau);
 }
 
-void Dmp::set_y_init(const Eigen::VectorXd& y_init)
+void Dmp::set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init)
 {
   assert(y_init.size() == dim_y());
   DynamicalSystem::set_y_init(y_init);
diff --git a/src/dmp/Dmp.hpp b/src/dmp/Dmp.hpp
index 49a7838..e22792e 100644
--- a/src/dmp/Dmp.hpp
+++ b/src/dmp/Dmp.hpp
@@ -284,7 +284,7 @@ class Dmp : public DynamicalSystem {
    * We need to override DynamicalSystem::set_initial_state, because the DMP
    * must also change the initial state  of the goal system as well.
    */
-  virtual void set_y_init(const Eigen::VectorXd& y_init);
+  virtual void set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init);
 
   /** Get the attractor state of the system.
    *  \param[in] y_attr Attractor state of the system.
@@ -350,14 +350,6 @@ class Dmp : public DynamicalSystem {
     y_init = x_init().segment(0, dim_y());
   }
 
-  /** Set the initial state of the dynamical system.
-   *  \param[in] y_init Initial state of the dynamical system.
-   */
-  inline void set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init)
-  {
-    set_x_init(y_init);
-  }
-
   /** Read an object from json.
    *  \param[in]  j json input
    *  \param[out] obj The object read from json
-- 
2.43.0


From 52757278d6a57d3616a79b61d945cf74686a6753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:46 +0000
Subject: [PATCH 44/70] fix: spring constant and mass of a Dmp were ignored
 when loading it in C++, and in its analytical solution

---
 src/dmp/Dmp.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index e309faf..26562b4 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -468,7 +468,9 @@ void Dmp::analyticalSolution(const Eigen::VectorXd& ts, Eigen::MatrixXd& xs,
 
   // Reset the dynamical system, and get the first state
   double damping = spring_system_->damping_coefficient();
-  SpringDamperSystem localspring_system_(tau(), y_init(), y_attr_, damping);
+  SpringDamperSystem localspring_system_(tau(), y_init(), y_attr_, damping,
+                                         spring_system_->spring_constant(),
+                                         spring_system_->mass());
 
   // Set first attractor state
   localspring_system_.set_y_attr(xs_goal.row(0));
@@ -578,6 +580,9 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
   obj = new Dmp(tau, y_init, y_attr, function_approximators,
                 alpha_spring_damper, goal_system, phase_system, gating_system,
                 forcing_term_scaling, scaling_amplitudes);
+  obj->spring_system_->set_spring_constant(
+      j.at("_spring_system").at("spring_constant"));
+  obj->spring_system_->set_mass(j.at("_spring_system").at("mass"));
 }
 
 void Dmp::to_json_helper(nlohmann::json& j) const
-- 
2.43.0


From 0af916759fd1df7ce9b99048fd7de8abece59984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:46 +0000
Subject: [PATCH 45/70] fix: C++ Dmp without delayed goal system or without
 function approximators

---
 src/dmp/Dmp.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 26562b4..54f940b 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -231,7 +231,9 @@ void Dmp::set_spring_constant(double spring_constant)
 void Dmp::initFunctionApproximators(
     vector<FunctionApproximator*> function_approximators)
 {
-  if (function_approximators.empty()) return;
+  // No function approximators: no forcing term
+  if (function_approximators.empty())
+    function_approximators.resize(dim_y(), NULL);
 
   assert(dim_y() == (int)function_approximators.size());
 
@@ -307,6 +309,10 @@ void Dmp::differentialEquation(const Eigen::Ref<const Eigen::VectorXd>& x,
 
   // Compute output of the funciton approximators
   for (int i_dim = 0; i_dim < dim_y(); i_dim++) {
+    if (function_approximators_[i_dim] == NULL) {
+      fa_output_prealloc_(0, i_dim) = 0.0;
+      continue;
+    }
     function_approximators_[i_dim]->predictRealTime(x.PHASE,
                                                     fa_output_one_prealloc_);
     fa_output_prealloc_(0, i_dim) = fa_output_one_prealloc_(0, 0);
@@ -420,6 +426,7 @@ void Dmp::analyticalSolution(const Eigen::VectorXd& ts, Eigen::MatrixXd& xs,
 
   MatrixXd fa_output_one_dim(n_time_steps, 1);
   for (int i_dim = 0; i_dim < dim_y(); i_dim++) {
+    if (function_approximators_[i_dim] == NULL) continue;
     function_approximators_[i_dim]->predict(xs_phase, fa_output_one_dim);
     fa_outputs.col(i_dim) = fa_output_one_dim;
   }
@@ -557,9 +564,10 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
   // from_json(j.at("_y_init"), y_init);
   // from_json(j.at("_y_attr"), y_attr);
 
-  ExponentialSystem* goal_system;
+  ExponentialSystem* goal_system = NULL;
   DynamicalSystem *phase_system, *gating_system;
-  goal_system = j.at("_goal_system").get<ExponentialSystem*>();
+  if (!j.at("_goal_system").is_null())
+    goal_system = j.at("_goal_system").get<ExponentialSystem*>();
   phase_system = j.at("_phase_system").get<DynamicalSystem*>();
   gating_system = j.at("_gating_system").get<DynamicalSystem*>();
 
@@ -591,11 +599,18 @@ void Dmp::to_json_helper(nlohmann::json& j) const
 
   j["_spring_system"]["damping_coefficient"] =
       spring_system_->damping_coefficient();
-  j["_goal_system"] = goal_system_;
+  j["_goal_system"] = nullptr;
+  if (goal_system_ != NULL) j["_goal_system"] = goal_system_;
   j["_phase_system"] = phase_system_;
   j["_gating_system"] = gating_system_;
   j["_forcing_term_scaling"] = forcing_term_scaling_;
-  j["_function_approximators"] = function_approximators_;
+  j["_function_approximators"] = nlohmann::json::array();
+  for (FunctionApproximator* fa : function_approximators_) {
+    if (fa == NULL)
+      j["_function_approximators"].push_back(nullptr);
+    else
+      j["_function_approximators"].push_back(fa);
+  }
   j["class"] = "Dmp";
 }
 
-- 
2.43.0


From 2f253884628e2208e49c86c93c84223117e9d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:46 +0000
Subject: [PATCH 46/70] fix: differential equation of a C++ Dmp allocated
 memory if the forcing term is scaled with the distance to the goal

---
 src/dmp/Dmp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dmp/Dmp.hpp b/src/dmp/Dmp.hpp
index e22792e..61489a1 100644
--- a/src/dmp/Dmp.hpp
+++ b/src/dmp/Dmp.hpp
@@ -347,7 +347,8 @@ class Dmp : public DynamicalSystem {
   inline void get_y_init(Eigen::VectorXd& y_init) const
   {
     // x = [y z etc], return only y part
-    y_init = x_init().segment(0, dim_y());
+    // (without making a copy of the state, which would allocate memory)
+    DynamicalSystem::get_y_init(y_init);
   }
 
   /** Read an object from json.
-- 
2.43.0


From 1b3b803a325f7557e5a42f41516054773cbb3993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:50 +0000
Subject: [PATCH 47/70] fix: loading matrices from files with trailing
 whitespace or blank lines, or with words or rows of different sizes

---
 src/eigenutils/eigen_file_io.hpp |  2 ++
 src/eigenutils/eigen_file_io.tpp | 37 ++++++++++++++++++++++++++------
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/eigenutils/eigen_file_io.hpp b/src/eigenutils/eigen_file_io.hpp
index 27d8c7e..7a43298 100644
--- a/src/eigenutils/eigen_file_io.hpp
+++ b/src/eigenutils/eigen_file_io.hpp
@@ -30,7 +30,9 @@
 #include <eigen3/Eigen/Core>
 #include <fstream>
 #include <iostream>
+#include <sstream>
 #include <string>
+#include <vector>
 
 namespace DmpBbo {
 
diff --git a/src/eigenutils/eigen_file_io.tpp b/src/eigenutils/eigen_file_io.tpp
index 5ecc4ab..3020108 100644
--- a/src/eigenutils/eigen_file_io.tpp
+++ b/src/eigenutils/eigen_file_io.tpp
@@ -44,24 +44,47 @@ inline bool loadMatrix(
     return false;
   }
   std::string line;
-  Scalar d;
+  std::string word;
 
   std::vector<Scalar> v;
   int n_rows = 0;
+  int n_cols = 0;
   while (getline(input, line)) {
-    ++n_rows;
     std::stringstream input_line(line);
-    while (!input_line.eof()) {
-      input_line >> d;
+    int n_cols_line = 0;
+    while (input_line >> word) {
+      Scalar d;
+      std::stringstream input_word(word);
+      if (!(input_word >> d) || input_word.peek() != EOF) {
+        std::cerr << "ERROR. '" << word << "' in file '" << filename
+                  << "' is not a number." << std::endl;
+        return false;
+      }
       v.push_back(d);
+      n_cols_line++;
+    }
+    // Lines without numbers, e.g. at the end of the file, are not rows
+    if (n_cols_line == 0) continue;
+    if (n_rows == 0) n_cols = n_cols_line;
+    if (n_cols_line != n_cols) {
+      std::cerr << "ERROR. The rows in file '" << filename
+                << "' do not have the same size." << std::endl;
+      return false;
     }
+    ++n_rows;
   }
   input.close();
 
-  int n_cols = v.size() / n_rows;
-  m = Eigen::Matrix<Scalar, RowsAtCompileTime, ColsAtCompileTime>(n_rows,
-                                                                  n_cols);
+  bool size_ok =
+      (RowsAtCompileTime == Eigen::Dynamic || RowsAtCompileTime == n_rows) &&
+      (ColsAtCompileTime == Eigen::Dynamic || ColsAtCompileTime == n_cols);
+  if (n_rows == 0 || !size_ok) {
+    std::cerr << "ERROR. File '" << filename << "' contains a " << n_rows
+              << " X " << n_cols << " matrix." << std::endl;
+    return false;
+  }
 
+  m.resize(n_rows, n_cols);
   for (int i = 0; i < n_rows; i++)
     for (int j = 0; j < n_cols; j++) m(i, j) = v[i * n_cols + j];
 
-- 
2.43.0


From b4ec3bfdfd2711831aa78963f8742f9eb160d2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:50 +0000
Subject: [PATCH 48/70] fix: saveMatrix returned true if the matrix was not
 saved

---
 src/eigenutils/eigen_file_io.tpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/eigenutils/eigen_file_io.tpp b/src/eigenutils/eigen_file_io.tpp
index 3020108..c11f55a 100644
--- a/src/eigenutils/eigen_file_io.tpp
+++ b/src/eigenutils/eigen_file_io.tpp
@@ -116,9 +116,7 @@ inline bool saveMatrix(
   }
 
   filename = directory + "/" + filename;
-  saveMatrix(filename, matrix, overwrite);
-
-  return true;
+  return saveMatrix(filename, matrix, overwrite);
 }
 
 /** Save an Eigen matrix to an ASCII file.
@@ -154,5 +152,5 @@ inline bool saveMatrix(
   file << matrix;
   file.close();
 
-  return true;
+  return !file.fail();
 }
-- 
2.43.0


From 2efaf09c7a9c848d87132060990a2f4e5cd458c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:57 +0000
Subject: [PATCH 49/70] fix: joining C++ trajectories aborted because of
 rounding errors

---
 src/dmp/Trajectory.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index 9f15143..9d4adb4 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -82,27 +82,29 @@ void Trajectory::set_misc(const Eigen::MatrixXd& misc)
   }
 }
 
+#ifndef NDEBUG  // Only required for asserts
+/** Check whether the last row of one matrix is equal to the first row of
+ * another, up to numerical errors. These depend on the magnitude of the values
+ * in the matrices.
+ */
+static bool isContinuous(const MatrixXd& front, const MatrixXd& back)
+{
+  double magnitude =
+      1.0 + front.cwiseAbs().maxCoeff() + back.cwiseAbs().maxCoeff();
+  RowVectorXd diff = front.row(front.rows() - 1) - back.row(0);
+  return diff.cwiseAbs().maxCoeff() <= 1e-6 * magnitude;
+}
+#endif
+
 void Trajectory::append(const Trajectory& trajectory)
 {
   assert(dim() == trajectory.dim());
 
   assert(ts_[length() - 1] == trajectory.ts()[0]);
 
-  if (ys_.row(length() - 1).isZero() || trajectory.ys().row(0).isZero())
-    assert(ys_.row(length() - 1).isZero() && trajectory.ys().row(0).isZero());
-  else
-    assert(ys_.row(length() - 1).isApprox(trajectory.ys().row(0)));
-
-  if (yds_.row(length() - 1).isZero() || trajectory.yds().row(0).isZero())
-    assert(yds_.row(length() - 1).isZero() && trajectory.yds().row(0).isZero());
-  else
-    assert(yds_.row(length() - 1).isApprox(trajectory.yds().row(0)));
-
-  if (ydds_.row(length() - 1).isZero() || trajectory.ydds().row(0).isZero())
-    assert(ydds_.row(length() - 1).isZero() &&
-           trajectory.ydds().row(0).isZero());
-  else
-    assert(ydds_.row(length() - 1).isApprox(trajectory.ydds().row(0)));
+  assert(isContinuous(ys_, trajectory.ys()));
+  assert(isContinuous(yds_, trajectory.yds()));
+  assert(isContinuous(ydds_, trajectory.ydds()));
 
   int new_size = length() + trajectory.length() - 1;
 
-- 
2.43.0


From 34f83f3b40b3b13003791bf75fa0e48b0a319987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:42:32 +0000
Subject: [PATCH 50/70] fix: default gating system of C++ Dmps was wrong for
 time constants other than 1

---
 src/dmp/Dmp.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 54f940b..7e237dc 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -175,7 +175,12 @@ void Dmp::initSubSystems(std::string dmp_type)
   } else if (dmp_type == "KULVICIUS_2012_JOINING" ||
              dmp_type == "COUNTDOWN_2013") {
     goal_system = new ExponentialSystem(tau(), y_init(), y_attr_, 15);
-    gating_system = new SigmoidSystem(tau(), one_1, -10, 0.9 * tau());
+    // Gating decreases to 0.1 at time tau, cf. SigmoidSystem.for_gating (Python)
+    double d = 1e-6;
+    double max_rate = -log(((1.0 + d) / 0.1 - 1.0) / d) / tau();
+    double inflection_ratio = -log(1.0 / d) / (max_rate * tau());
+    gating_system =
+        new SigmoidSystem(tau(), one_1, max_rate, inflection_ratio);
     bool count_down = (dmp_type == "COUNTDOWN_2013");
     phase_system = new TimeSystem(tau(), count_down);
   }
-- 
2.43.0


From b08240b6daab3facd83ab3a954645c15f4f2b545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:13:03 +0000
Subject: [PATCH 51/70] fix: Richards system was NaN if the attractor differs
 from the initial state by rounding only

---
 dmpbbo/dynamicalsystems/RichardsSystem.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dmpbbo/dynamicalsystems/RichardsSystem.py b/dmpbbo/dynamicalsystems/RichardsSystem.py
index d8af3a9..7315caa 100644
--- a/dmpbbo/dynamicalsystems/RichardsSystem.py
+++ b/dmpbbo/dynamicalsystems/RichardsSystem.py
@@ -61,7 +61,8 @@ class RichardsSystem(DynamicalSystem):
         self.v = np.clip(self.v, 0.5, None)
         exp_term = np.exp(-self.alpha * self.v * t_infl / self.tau)
         z = np.power((self.v / exp_term) + 1, 1 / self.v)
-        left_asymp = (z * self.x_init - self.right_asymp) / (z - 1)
+        # Same as (z * x_init - x_attr) / (z - 1), but accurate if x_init and x_attr are very close
+        left_asymp = self.x_init - (self.right_asymp - self.x_init) / (z - 1)
         return left_asymp
 
     def differential_equation(self, x):
@@ -98,9 +99,10 @@ class RichardsSystem(DynamicalSystem):
             # https://en.wikipedia.org/wiki/Generalised_logistic_function
             a = left_asymp if np.isscalar(left_asymp) else left_asymp[dd]
             k = self.right_asymp if np.isscalar(self.right_asymp) else self.right_asymp[dd]
-            if k == a:
-                # Both asymptotes are the same (x_init = x_attr): the system is at rest.
-                xs[:, dd] = k
+            if k == a or self.x_init[dd] == a:
+                # Both asymptotes are the same (x_init = x_attr), possibly up to rounding, or the
+                # initial state is the left asymptote: the system is at rest.
+                xs[:, dd] = self.x_init[dd]
                 continue
             q = -1 + np.power((k - a) / (self.x_init[dd] - a), v)
 
-- 
2.43.0


From 4c45a27bfa005cb8317001d1385580c3d05dbe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:39:45 +0000
Subject: [PATCH 52/70] fix: C++ objects written as JSON could not be read back

The JSON of systems lacked _x_init, that of exponential systems _x_attr, that
of DMPs _y_attr, _scaling_amplitudes and most of the spring system. DMPs with
dimensions without function approximator could not be read.
---
 src/dmp/Dmp.cpp                            | 9 ++++++---
 src/dynamicalsystems/DynamicalSystem.cpp   | 1 +
 src/dynamicalsystems/ExponentialSystem.cpp | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 7e237dc..547dcb4 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -585,7 +585,9 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
   const auto& jrow = j.at("_function_approximators");
   if (jrow.is_array()) {
     for (int i_dim = 0; i_dim < n_dims; i_dim++) {
-      FunctionApproximator* fa = jrow.at(i_dim).get<FunctionApproximator*>();
+      FunctionApproximator* fa = NULL;
+      if (!jrow.at(i_dim).is_null())
+        fa = jrow.at(i_dim).get<FunctionApproximator*>();
       function_approximators.push_back(fa);
     }
   }
@@ -602,13 +604,14 @@ void Dmp::to_json_helper(nlohmann::json& j) const
 {
   to_json_base(j);  // Get the json string from the base class
 
-  j["_spring_system"]["damping_coefficient"] =
-      spring_system_->damping_coefficient();
+  j["_y_attr"] = y_attr_;
+  j["_spring_system"] = spring_system_;
   j["_goal_system"] = nullptr;
   if (goal_system_ != NULL) j["_goal_system"] = goal_system_;
   j["_phase_system"] = phase_system_;
   j["_gating_system"] = gating_system_;
   j["_forcing_term_scaling"] = forcing_term_scaling_;
+  j["_scaling_amplitudes"] = scaling_amplitudes_;
   j["_function_approximators"] = nlohmann::json::array();
   for (FunctionApproximator* fa : function_approximators_) {
     if (fa == NULL)
diff --git a/src/dynamicalsystems/DynamicalSystem.cpp b/src/dynamicalsystems/DynamicalSystem.cpp
index 258ec6b..3c6fcb5 100644
--- a/src/dynamicalsystems/DynamicalSystem.cpp
+++ b/src/dynamicalsystems/DynamicalSystem.cpp
@@ -175,6 +175,7 @@ void DynamicalSystem::to_json_base(nlohmann::json& j) const
   j["_dim_x"] = dim_x_;
   j["_dim_y"] = dim_y_;
   j["_tau"] = tau_;
+  j["_x_init"] = x_init_;
   j["_y_init"] = x_init_.segment(0, dim_y_);
   j["class"] = "DynamicalSystem";
 }
diff --git a/src/dynamicalsystems/ExponentialSystem.cpp b/src/dynamicalsystems/ExponentialSystem.cpp
index 18cdccc..e97304d 100644
--- a/src/dynamicalsystems/ExponentialSystem.cpp
+++ b/src/dynamicalsystems/ExponentialSystem.cpp
@@ -104,7 +104,7 @@ void ExponentialSystem::to_json_helper(nlohmann::json& j) const
 {
   to_json_base(j);  // Get the json string from the base class
   j["alpha"] = alpha_;
-  j["_y_attr"] = x_attr_;
+  j["_x_attr"] = x_attr_;
   j["class"] = "ExponentialSystem";
 }
 
-- 
2.43.0


From d1951a66bccd61132e0262041f139c7d48a83f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:46:05 +0000
Subject: [PATCH 53/70] fix: set_tau of a C++ Dmp set the time constants of all
 subsystems to its own

Those of subsystems passed by the user are scaled in Python.
---
 src/dmp/Dmp.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 547dcb4..601c7f4 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -524,15 +524,18 @@ void Dmp::analyticalSolution(const Eigen::VectorXd& ts, Eigen::MatrixXd& xs,
   }
 }
 
-void Dmp::set_tau(double tau)
+void Dmp::set_tau(double new_tau)
 {
-  DynamicalSystem::set_tau(tau);
-
-  // Set value in all relevant subsystems also
-  spring_system_->set_tau(tau);
-  if (goal_system_ != NULL) goal_system_->set_tau(tau);
-  phase_system_->set_tau(tau);
-  gating_system_->set_tau(tau);
+  double tau_scale = new_tau / tau();
+  DynamicalSystem::set_tau(new_tau);
+
+  // Set value in all relevant subsystems also; those passed by the user may
+  // have another time constant, which is scaled (as in Python)
+  spring_system_->set_tau(new_tau);
+  if (goal_system_ != NULL)
+    goal_system_->set_tau(tau_scale * goal_system_->tau());
+  phase_system_->set_tau(tau_scale * phase_system_->tau());
+  gating_system_->set_tau(tau_scale * gating_system_->tau());
 }
 
 void Dmp::set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init)
-- 
2.43.0


From 6dfd1f2454d61fc58fd2e6a69cd95c212589af17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:38:40 +0000
Subject: [PATCH 54/70] fix: rates of a sigmoid's closed form were NaN at late
 times

---
 dmpbbo/dynamicalsystems/SigmoidSystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dynamicalsystems/SigmoidSystem.py b/dmpbbo/dynamicalsystems/SigmoidSystem.py
index 0c93554..fc14b8d 100644
--- a/dmpbbo/dynamicalsystems/SigmoidSystem.py
+++ b/dmpbbo/dynamicalsystems/SigmoidSystem.py
@@ -147,7 +147,8 @@ class SigmoidSystem(DynamicalSystem):
             K = Ks[dd]  # noqa
             b = (K / self._x_init[dd]) - 1
             xs[:, dd] = K / (1 + b * exp_rt)
-            xds[:, dd] = np.multiply((K * r * b) / np.square(1.0 + b * exp_rt), exp_rt)
+            # Same as K*r*b*exp_rt/(1+b*exp_rt)^2, but also defined if exp_rt is infinite
+            xds[:, dd] = r * xs[:, dd] * (1.0 - xs[:, dd] / K)
 
         return xs, xds
 
-- 
2.43.0


From 15e1104397d20f8110eb58416d14ea3e3516fa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:38:40 +0000
Subject: [PATCH 55/70] fix: rates of the closed form of a C++ sigmoid were NaN
 at late times

---
 src/dynamicalsystems/SigmoidSystem.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dynamicalsystems/SigmoidSystem.cpp b/src/dynamicalsystems/SigmoidSystem.cpp
index 2f4d5f2..3349115 100644
--- a/src/dynamicalsystems/SigmoidSystem.cpp
+++ b/src/dynamicalsystems/SigmoidSystem.cpp
@@ -157,9 +157,8 @@ void SigmoidSystem::analyticalSolution(const VectorXd& ts, MatrixXd& xs,
     double b = (K / y_init[dd]) - 1;
 
     xs.block(0, dd, n_time_steps, 1) = K / (1 + b * exp_rt.array());
-    xds.block(0, dd, n_time_steps, 1) =
-        K * r * b * ((1 + b * exp_rt.array()).square().inverse().array()) *
-        exp_rt.array();
+    // Same as K*r*b*exp_rt/(1+b*exp_rt)^2, but also defined if exp_rt is infinite
+    xds.col(dd) = r * xs.col(dd).array() * (1 - xs.col(dd).array() / K);
   }
 
   if (caller_expects_transposed) {
-- 
2.43.0


From 00f4b89e646b58c5ed3c8615aaa080483fa72c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:38:40 +0000
Subject: [PATCH 56/70] fix: rolling out a throw overwrote the accelerations of
 the trajectory of the Dmp

---
 demos/robot/TaskThrowBall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/robot/TaskThrowBall.py b/demos/robot/TaskThrowBall.py
index c4416fe..cf172bd 100644
--- a/demos/robot/TaskThrowBall.py
+++ b/demos/robot/TaskThrowBall.py
@@ -138,7 +138,7 @@ def run_python_simulation(dmp, y_floor=-0.3):
             # If the ball is in your hand, it moves along with your hand
             ys_ball[ii, :] = ys[ii, :]
             yd_ball = yds[ii, :]
-            ydd_ball = ydds[ii, :]  # noqa
+            ydd_ball = ydds[ii, :].copy()  # noqa
 
             if ts[ii] > 0.6:
                 # Release the ball to throw it!
-- 
2.43.0


From 9686b6363f54ff58a08f3eb89194582cbf34ecda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:38:40 +0000
Subject: [PATCH 57/70] fix: TaskSolverDmpArm2D ignored the link lengths and
 failed without them

---
 demos/python/bbo_of_dmps/arm2D/TaskSolverDmpArm2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/python/bbo_of_dmps/arm2D/TaskSolverDmpArm2D.py b/demos/python/bbo_of_dmps/arm2D/TaskSolverDmpArm2D.py
index 11de431..6de6714 100644
--- a/demos/python/bbo_of_dmps/arm2D/TaskSolverDmpArm2D.py
+++ b/demos/python/bbo_of_dmps/arm2D/TaskSolverDmpArm2D.py
@@ -30,7 +30,7 @@ class TaskSolverDmpArm2D(TaskSolverDmp):
 
     def __init__(self, dmp, dt, integrate_dmp_beyond_tau_factor, link_lengths=None):
         super().__init__(dmp, dt, integrate_dmp_beyond_tau_factor)
-        if link_lengths is not None or len(link_lengths)>0:
+        if link_lengths is None or len(link_lengths) == 0:
             n_dofs = dmp.dim_dmp()
             # Every link has same length, and they sum to 1.0
             link_lengths = np.full(n_dofs, 1.0 / n_dofs)
-- 
2.43.0


From 7856586fcd5f3848d2657aa25463cde6a4ce0a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:38:40 +0000
Subject: [PATCH 58/70] fix: acceleration cost of TaskViapoint divided by a
 wrong number of time steps

---
 demos/python/bbo_of_dmps/TaskViapoint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demos/python/bbo_of_dmps/TaskViapoint.py b/demos/python/bbo_of_dmps/TaskViapoint.py
index ccf1dff..1482b14 100644
--- a/demos/python/bbo_of_dmps/TaskViapoint.py
+++ b/demos/python/bbo_of_dmps/TaskViapoint.py
@@ -151,8 +151,8 @@ class TaskViapoint(Task):
         if self.goal_weight > 0.0 and self.goal is not None:
             after_goal_indices = ts >= self.goal_time
             ys_after_goal = ys[after_goal_indices, :]
-            n_time_steps = ys_after_goal.shape[0]
-            goal_repeat = np.repeat(np.atleast_2d(self.goal), n_time_steps, axis=0)
+            n_after_goal = ys_after_goal.shape[0]
+            goal_repeat = np.repeat(np.atleast_2d(self.goal), n_after_goal, axis=0)
             delay_cost_mean = np.mean(np.linalg.norm(ys_after_goal - goal_repeat, axis=1))
 
         costs = np.zeros(1 + 4)
-- 
2.43.0


From 1e14bd5630e497a5f2ce6cb3d6d4f8065f74b9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:38:40 +0000
Subject: [PATCH 59/70] fix: C++ robots did not save trajectories with absolute
 filenames, or report it

---
 demos/robot/robotExecuteDmp.cpp        | 4 ++--
 demos/robot/robotExecuteTrajectory.cpp | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/demos/robot/robotExecuteDmp.cpp b/demos/robot/robotExecuteDmp.cpp
index 93e655b..96aa77e 100644
--- a/demos/robot/robotExecuteDmp.cpp
+++ b/demos/robot/robotExecuteDmp.cpp
@@ -97,9 +97,9 @@ int main(int n_args, char** args)
   // Save cost_vars to file
   bool overwrite = true;
   cout << "C++ Writing   -> " << cost_vars_filename << endl;
-  saveMatrix("./", cost_vars_filename, cost_vars, overwrite);
+  bool saved = saveMatrix(cost_vars_filename, cost_vars, overwrite);
 
   delete dmp;
 
-  return 0;
+  return saved ? 0 : -1;
 }
diff --git a/demos/robot/robotExecuteTrajectory.cpp b/demos/robot/robotExecuteTrajectory.cpp
index d727f5a..9205000 100644
--- a/demos/robot/robotExecuteTrajectory.cpp
+++ b/demos/robot/robotExecuteTrajectory.cpp
@@ -68,6 +68,7 @@ int main(int n_args, char** args)
   // Load trajectory
   Trajectory trajectory;
   trajectory = Trajectory::readFromFile(traj_filename);
+  if (trajectory.length() < 2) return -1;
 
   // Prepare simulation
   VectorXd ts = trajectory.ts();
@@ -89,7 +90,7 @@ int main(int n_args, char** args)
   // Save cost_vars to file
   bool overwrite = true;
   cout << "C++ Writing   -> " << cost_vars_filename << endl;
-  saveMatrix("./", cost_vars_filename, cost_vars, overwrite);
+  bool saved = saveMatrix(cost_vars_filename, cost_vars, overwrite);
 
-  return 0;
+  return saved ? 0 : -1;
 }
-- 
2.43.0


From fa1b65e3a9e82762324eb932ea0a6e9f1f0a93c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:38:40 +0000
Subject: [PATCH 60/70] fix: titles of windows could not be set with current
 versions of matplotlib

---
 demos/python/bbo/demo_bbo.py                              | 2 +-
 demos/python/bbo_of_dmps/arm2D/demo_bbo_of_dmps_arm2D.py  | 2 +-
 demos/python/bbo_of_dmps/demo_bbo_of_dmps.py              | 2 +-
 .../with_schedules/demo_bbo_of_dmps_with_gains.py         | 2 +-
 demos/python/dmps/demo_dmp.py                             | 6 +++---
 demos/python/dmps/demo_dmp_parameterizable.py             | 2 +-
 demos/python/dmps/demo_trajectory.py                      | 8 ++++----
 .../python/dmps/with_schedules/demo_dmp_with_schedules.py | 6 +++---
 .../demo_dmp_with_schedules_parameterizable.py            | 2 +-
 .../functionapproximators/demo_function_approximators.py  | 2 +-
 .../demo_function_approximators_parameterizable.py        | 2 +-
 demos/robot/step1_train_dmp_from_trajectory_file.py       | 2 +-
 12 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/demos/python/bbo/demo_bbo.py b/demos/python/bbo/demo_bbo.py
index 285a6c4..2437ff6 100644
--- a/demos/python/bbo/demo_bbo.py
+++ b/demos/python/bbo/demo_bbo.py
@@ -93,7 +93,7 @@ def main():
             cost_function, distribution, updater, n_updates, n_samples_per_update, cur_directory
         )
         fig = session.plot()
-        fig.canvas.set_window_title(f"Optimization with covar_update={name}")
+        fig.canvas.manager.set_window_title(f"Optimization with covar_update={name}")
 
     plt.show()
 
diff --git a/demos/python/bbo_of_dmps/arm2D/demo_bbo_of_dmps_arm2D.py b/demos/python/bbo_of_dmps/arm2D/demo_bbo_of_dmps_arm2D.py
index 1c07ca0..64ddc28 100644
--- a/demos/python/bbo_of_dmps/arm2D/demo_bbo_of_dmps_arm2D.py
+++ b/demos/python/bbo_of_dmps/arm2D/demo_bbo_of_dmps_arm2D.py
@@ -105,7 +105,7 @@ def main(directory=None):
         task, task_solver, distribution, updater, n_updates, n_samples_per_update, directory
     )
     fig = session.plot()
-    fig.canvas.set_window_title(f"Optimization with covar_update={covar_update}")
+    fig.canvas.manager.set_window_title(f"Optimization with covar_update={covar_update}")
 
     plt.show()
 
diff --git a/demos/python/bbo_of_dmps/demo_bbo_of_dmps.py b/demos/python/bbo_of_dmps/demo_bbo_of_dmps.py
index d650c93..90939f8 100644
--- a/demos/python/bbo_of_dmps/demo_bbo_of_dmps.py
+++ b/demos/python/bbo_of_dmps/demo_bbo_of_dmps.py
@@ -99,7 +99,7 @@ def run_demo(directory, traj):
         task, task_solver, distribution, updater, n_updates, n_samples_per_update, directory
     )
     fig = session.plot()
-    fig.canvas.set_window_title(f"Optimization with covar_update={covar_update}")
+    fig.canvas.manager.set_window_title(f"Optimization with covar_update={covar_update}")
 
 
 def main():
diff --git a/demos/python/bbo_of_dmps/with_schedules/demo_bbo_of_dmps_with_gains.py b/demos/python/bbo_of_dmps/with_schedules/demo_bbo_of_dmps_with_gains.py
index 9be66ba..449525a 100644
--- a/demos/python/bbo_of_dmps/with_schedules/demo_bbo_of_dmps_with_gains.py
+++ b/demos/python/bbo_of_dmps/with_schedules/demo_bbo_of_dmps_with_gains.py
@@ -264,7 +264,7 @@ def run_optimization(stochastic_field, directory=None):
         session.set_style(handle, i_update, n_updates)
 
     window_label = "stochastic" if stochastic_field else "constant"
-    plt.gcf().canvas.set_window_title(window_label + " force field")
+    plt.gcf().canvas.manager.set_window_title(window_label + " force field")
     return session
 
 
diff --git a/demos/python/dmps/demo_dmp.py b/demos/python/dmps/demo_dmp.py
index d7b80a0..cf6007e 100644
--- a/demos/python/dmps/demo_dmp.py
+++ b/demos/python/dmps/demo_dmp.py
@@ -63,10 +63,10 @@ def main():
             xs_step[tt, :], xds_step[tt, :] = dmp.integrate_step(dt, xs_step[tt - 1, :])
 
         dmp.plot(ts, plot_no_forcing_term_also=True, plot_demonstration=traj)
-        plt.gcf().canvas.set_window_title(f"Analytical integration ({dmp_type})")
+        plt.gcf().canvas.manager.set_window_title(f"Analytical integration ({dmp_type})")
 
         dmp.plot(ts, xs_step, xds_step)
-        plt.gcf().canvas.set_window_title(f"Step-by-step integration ({dmp_type})")
+        plt.gcf().canvas.manager.set_window_title(f"Step-by-step integration ({dmp_type})")
 
         lines, axs = traj.plot()
         plt.setp(lines, linestyle="-", linewidth=4, color=(0.8, 0.8, 0.8))
@@ -84,7 +84,7 @@ def main():
 
         plt.legend()
         t = f"Comparison between demonstration and reproduced ({dmp_type})"
-        plt.gcf().canvas.set_window_title(t)
+        plt.gcf().canvas.manager.set_window_title(t)
 
     plt.show()
 
diff --git a/demos/python/dmps/demo_dmp_parameterizable.py b/demos/python/dmps/demo_dmp_parameterizable.py
index e16afc7..34d0814 100644
--- a/demos/python/dmps/demo_dmp_parameterizable.py
+++ b/demos/python/dmps/demo_dmp_parameterizable.py
@@ -70,7 +70,7 @@ def main():
             xs, xds, forcing, fas = dmp.analytical_solution(ts)
             h, _ = dmp.plot(ts, xs, xds, forcing_terms=forcing, fa_outputs=fas, axs=axs)
             plt.setp(h, color=[0.6, 0.0, 0.0], linewidth=1)
-        plt.gcf().canvas.set_window_title(f"Perturbation of  {selected_param_names}")
+        plt.gcf().canvas.manager.set_window_title(f"Perturbation of  {selected_param_names}")
 
     plt.show()
 
diff --git a/demos/python/dmps/demo_trajectory.py b/demos/python/dmps/demo_trajectory.py
index 42dd6c1..398af81 100644
--- a/demos/python/dmps/demo_trajectory.py
+++ b/demos/python/dmps/demo_trajectory.py
@@ -34,11 +34,11 @@ def main():
 
     traj_min_jerk = Trajectory.from_min_jerk(ts, y_first, y_last)
     traj_min_jerk.plot()
-    plt.gcf().canvas.set_window_title("min-jerk trajectory")
+    plt.gcf().canvas.manager.set_window_title("min-jerk trajectory")
 
     traj = Trajectory.from_polynomial(ts, y_first, yd_first, ydd_first, y_last, yd_last, ydd_last)
     traj.plot()
-    plt.gcf().canvas.set_window_title("polynomial trajectory")
+    plt.gcf().canvas.manager.set_window_title("polynomial trajectory")
 
     y_yd_ydd_viapoint = np.array([-0.2, 0.3, 0.0, 0.0, 0, 0])
     viapoint_time = 0.4 * ts[-1]
@@ -50,7 +50,7 @@ def main():
     traj.plot(axs)
     axs[0].plot(viapoint_time, y_yd_ydd_viapoint[0], "ok")
     axs[0].plot(viapoint_time, y_yd_ydd_viapoint[1], "ok")
-    plt.gcf().canvas.set_window_title("polynomial viapoint trajectory")
+    plt.gcf().canvas.manager.set_window_title("polynomial viapoint trajectory")
 
     # Do low-pass filtering
     # Make a noisy trajectory
@@ -69,7 +69,7 @@ def main():
     plt.setp(lines[0], label="filtered trajectory")
     axs[0].legend()
 
-    plt.gcf().canvas.set_window_title("low-pass filtering")
+    plt.gcf().canvas.manager.set_window_title("low-pass filtering")
 
     plt.show()
 
diff --git a/demos/python/dmps/with_schedules/demo_dmp_with_schedules.py b/demos/python/dmps/with_schedules/demo_dmp_with_schedules.py
index 5c11608..6d6eaa0 100644
--- a/demos/python/dmps/with_schedules/demo_dmp_with_schedules.py
+++ b/demos/python/dmps/with_schedules/demo_dmp_with_schedules.py
@@ -82,10 +82,10 @@ def main():
         forcing_terms=forcing_terms_ana,
         fa_outputs=fa_outputs_ana,
     )
-    plt.gcf().canvas.set_window_title(f"Analytical integration")
+    plt.gcf().canvas.manager.set_window_title(f"Analytical integration")
 
     dmp.plot_sched(ts, xs_step, xds_step, schs_step)
-    plt.gcf().canvas.set_window_title(f"Step-by-step integration")
+    plt.gcf().canvas.manager.set_window_title(f"Step-by-step integration")
 
     lines, axs = traj.plot()
     plt.setp(lines, linestyle="-", linewidth=4, color=(0.8, 0.8, 0.8))
@@ -98,7 +98,7 @@ def main():
 
     plt.legend()
     t = f"Comparison between demonstration and reproduced"
-    plt.gcf().canvas.set_window_title(t)
+    plt.gcf().canvas.manager.set_window_title(t)
 
     plt.show()
 
diff --git a/demos/python/dmps/with_schedules/demo_dmp_with_schedules_parameterizable.py b/demos/python/dmps/with_schedules/demo_dmp_with_schedules_parameterizable.py
index 8e16b12..7a4ff0b 100644
--- a/demos/python/dmps/with_schedules/demo_dmp_with_schedules_parameterizable.py
+++ b/demos/python/dmps/with_schedules/demo_dmp_with_schedules_parameterizable.py
@@ -78,7 +78,7 @@ def main():
                 ts, xs, xds, scheds, forcing_terms=forcing, fa_outputs=fas, axs=axs
             )
             plt.setp(h, color=[0.6, 0.0, 0.0], linewidth=1)
-        plt.gcf().canvas.set_window_title(f"Perturbation of  {selected_param_names}")
+        plt.gcf().canvas.manager.set_window_title(f"Perturbation of  {selected_param_names}")
 
     plt.show()
 
diff --git a/demos/python/functionapproximators/demo_function_approximators.py b/demos/python/functionapproximators/demo_function_approximators.py
index 6a92849..bc52d53 100644
--- a/demos/python/functionapproximators/demo_function_approximators.py
+++ b/demos/python/functionapproximators/demo_function_approximators.py
@@ -92,7 +92,7 @@ def train(fa_name, n_dims):
     # Plotting
     h, ax = fa.plot(inputs, targets=targets, plot_residuals=True, plot_model_parameters=True)
     ax.set_title(f"{fa_name} {n_dims}D")
-    plt.gcf().canvas.set_window_title(f"{fa_name} {n_dims}D")
+    plt.gcf().canvas.manager.set_window_title(f"{fa_name} {n_dims}D")
 
 
 def main():
diff --git a/demos/python/functionapproximators/demo_function_approximators_parameterizable.py b/demos/python/functionapproximators/demo_function_approximators_parameterizable.py
index ed5ed1a..52e4a66 100644
--- a/demos/python/functionapproximators/demo_function_approximators_parameterizable.py
+++ b/demos/python/functionapproximators/demo_function_approximators_parameterizable.py
@@ -125,7 +125,7 @@ def train(fa_name, n_dims):
             plt.setp(h, color=[0.5, 0.5, 1.0], linewidth=w / 2)
 
         ax.set_title(f"{fa_name} {n_dims}D\n({noise} noise)")
-        plt.gcf().canvas.set_window_title(f"{fa_name} {n_dims}D")
+        plt.gcf().canvas.manager.set_window_title(f"{fa_name} {n_dims}D")
 
 
 def main():
diff --git a/demos/robot/step1_train_dmp_from_trajectory_file.py b/demos/robot/step1_train_dmp_from_trajectory_file.py
index b6ba689..cee9840 100644
--- a/demos/robot/step1_train_dmp_from_trajectory_file.py
+++ b/demos/robot/step1_train_dmp_from_trajectory_file.py
@@ -116,7 +116,7 @@ def main():
             plt.setp(h_demo, linestyle="-", linewidth=4, color=(0.8, 0.8, 0.8), label=d)
             plt.setp(h_repr, linestyle="--", linewidth=2, color=(0.0, 0.0, 0.5), label="reproduced")
             plt.legend()
-            plt.gcf().canvas.set_window_title(f"Comparison {d}/reproduced  (n_bfs={n_bfs})")
+            plt.gcf().canvas.manager.set_window_title(f"Comparison {d}/reproduced  (n_bfs={n_bfs})")
             plt.gcf().suptitle(f"Comparison {d}/reproduced  (n_bfs={n_bfs})")
             if args.save:
                 plt.gcf().savefig(Path(args.output_directory, f"trajectory_comparison_{n_bfs}.png"))
-- 
2.43.0


From 9f60d77ff4fe8b215cc8bbeda809ddcad85a9617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:28 +0000
Subject: [PATCH 61/70] fix: plotting a learning curve changed the list of
 labels, and put the legend into other axes

---
 dmpbbo/bbo/LearningSession.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 2db566e..32046b8 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -112,8 +112,7 @@ def plot_learning_curve(learning_curve, **kwargs):
     ax.set_title("Learning curve")
 
     if cost_labels is not None:
-        cost_labels.insert(0, "total cost")
-        plt.legend(lines, cost_labels)
+        ax.legend(lines, ["total cost", *cost_labels])
 
     plot_update_lines(samples_eval, ax)
 
-- 
2.43.0


From 27f3f9600ae41f7e2631aafec52df0efa8d7e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:28 +0000
Subject: [PATCH 62/70] fix: evaluation costs of step-by-step optimizations
 were ignored in the learning curve

---
 dmpbbo/bbo/LearningSession.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 32046b8..7c309d9 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -469,9 +469,11 @@ class LearningSession:
         @param i_update:  The update numbers
         @return: The costs for that update.
         """
-        has_eval = self.exists("cost", 0, "eval")
+        # The evaluation cost is called "costs" if updates were done step by step
+        name = "cost" if self.exists("cost", 0, "eval") else "costs"
+        has_eval = self.exists(name, 0, "eval")
         if has_eval:
-            cost_eval = self.ask("cost", i_update, "eval")
+            cost_eval = self.ask(name, i_update, "eval")
             # Evaluation at the beginning of an update
             i_sample = i_update * self._n_samples_per_update
         else:
-- 
2.43.0


From 501a52c0f4ee638f1648a3d838b3de6adc9ee261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:28 +0000
Subject: [PATCH 63/70] fix: predictions of function approximators could not be
 plotted without targets

---
 dmpbbo/functionapproximators/FunctionApproximator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index 92ca85b..5e90338 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -279,7 +279,9 @@ class FunctionApproximator(Parameterizable):
         @param inputs: The input samples (n_samples X n_input_dims )
         @return: line handles and axis
         """
-        targets = kwargs.get("targets", [])
+        targets = kwargs.get("targets")
+        if targets is None:
+            targets = []
         ax = kwargs.get("ax") or self._get_axis()
         plot_residuals = kwargs.get("plot_residuals", True)
 
-- 
2.43.0


From 7ade85cc1e5a79e53d98be115558563212859f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:28 +0000
Subject: [PATCH 64/70] fix: schedules of a DMP were plotted in the current
 figure instead of that of the DMP

---
 dmpbbo/dmps/DmpWithSchedules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/DmpWithSchedules.py b/dmpbbo/dmps/DmpWithSchedules.py
index c3f9250..db979aa 100644
--- a/dmpbbo/dmps/DmpWithSchedules.py
+++ b/dmpbbo/dmps/DmpWithSchedules.py
@@ -268,7 +268,7 @@ class DmpWithSchedules(Dmp):
         kwargs["n_subplot_columns"] = 5  # Add column to plot schedule
         lines, axs = super().plot(ts, xs, xds, **kwargs)
 
-        ax = plt.gcf().add_subplot(2, 5, 10)
+        ax = axs[0].figure.add_subplot(2, 5, 10)
 
         h = ax.plot(ts, schedules)
         x = np.mean(ax.get_xlim())
-- 
2.43.0


From 2ea9efae00c8a8c40004f7e173c50995c9da1bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:28 +0000
Subject: [PATCH 65/70] fix: LearningSessionTask.plot did not return the figure

---
 dmpbbo/bbo_of_dmps/LearningSessionTask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/bbo_of_dmps/LearningSessionTask.py b/dmpbbo/bbo_of_dmps/LearningSessionTask.py
index 27ecf2a..2993f5a 100644
--- a/dmpbbo/bbo_of_dmps/LearningSessionTask.py
+++ b/dmpbbo/bbo_of_dmps/LearningSessionTask.py
@@ -176,4 +176,4 @@ class LearningSessionTask(LearningSession):
         self.plot_rollouts(axs[1])
         self.plot_exploration_curve(axs[2])
         self.plot_learning_curve(axs[3])
-        return axs
+        return axs[0].figure
-- 
2.43.0


From 66894c8b929d2e294a94c1a6a856f1b455f5edbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:28 +0000
Subject: [PATCH 66/70] fix: demo of contextual DMPs called plot with outdated
 arguments

---
 demos/python/dmps/demo_contextual_dmp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/demos/python/dmps/demo_contextual_dmp.py b/demos/python/dmps/demo_contextual_dmp.py
index 5d5e43e..12be324 100644
--- a/demos/python/dmps/demo_contextual_dmp.py
+++ b/demos/python/dmps/demo_contextual_dmp.py
@@ -57,8 +57,7 @@ def main():
         params_and_trajs, fas_dmp, ["weights"], fa_ppf, dmp_type=dmp_type, save_training_data=True
     )
 
-    traj_demos = [pt[1] for pt in params_and_trajs]
-    dmp_contextual.plot(plot_demonstrations=traj_demos, plot_no_forcing_term_also=True)
+    dmp_contextual.plot(params_and_trajs)
     plt.show()
 
 
-- 
2.43.0


From 11428857782b6620fa7a3d1dbad29b303d9c4a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:45 +0000
Subject: [PATCH 67/70] fix: policy parameter functions could not be plotted
 for one parameter or two task parameters

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index d30b791..be207f3 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -209,12 +209,15 @@ class DmpContextualTwoStep(DynamicalSystem):
         axs = kwargs.get("axs", None)
         if axs is None:
             n_rows = int(np.ceil(np.sqrt(len(self.ppf))))
-            _, axs = plt.subplots(n_rows, n_rows)
+            # With two task parameters, the functions are plotted in 3D
+            kw = {"projection": "3d"} if self.ppf[0].dim_input() == 2 else {}
+            _, axs = plt.subplots(n_rows, n_rows, squeeze=False, subplot_kw=kw)
             axs = axs.flatten()
         hs = []
         for i_param, fa in enumerate(self.ppf):
             h, _ = fa.plot(ax=axs[i_param], **kwargs)
-            hs.extend(h)
+            if h is not None:  # None if there are no training data
+                hs.extend(h if isinstance(h, list) else [h])
         return hs, axs
 
     def plot(self, task_params_and_trajs, **kwargs):
-- 
2.43.0


From 1d03e2a17bfb63ee00e83e3275824da4c9586ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:12:45 +0000
Subject: [PATCH 68/70] fix: plotting a contextual DMP changed its initial
 state and goal

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index be207f3..d976908 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -246,7 +246,7 @@ class DmpContextualTwoStep(DynamicalSystem):
 
         hs = []
         cmap = cm.copper  # noqa
-        prev_tau = self.dmp.tau
+        prev = (self.dmp.tau, self.dmp.y_init, self.dmp.y_attr)
         for task_param, traj_demo in task_params_and_trajs:
 
             self.dmp.tau = traj_demo.duration
@@ -266,6 +266,6 @@ class DmpContextualTwoStep(DynamicalSystem):
             for ax in axs:
                 ax.axvline(self.dmp.tau, color=color, linewidth=1)
 
-        self.dmp.tau = prev_tau
+        self.dmp.tau, self.dmp.y_init, self.dmp.y_attr = prev
 
         return hs, axs
-- 
2.43.0


From d9f1353068839b76434860fea72d46c4d85ec9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:36 +0000
Subject: [PATCH 69/70] fix: load trajectories with one sample from file

---
 dmpbbo/dmps/Trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index e4b5cf1..407cdd3 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -541,7 +541,7 @@ class Trajectory:
         @param n_dims_misc: The number of miscellaneous variables in the trajectory. This needs
         to be specified, because it cannot be stored in the matrix.
         """
-        data = np.loadtxt(filename)
+        data = np.loadtxt(filename, ndmin=2)
 
         (n_time_steps, n_cols) = data.shape
         n_dims = (n_cols - 1 - n_dims_misc) // 3
-- 
2.43.0


From 92a37f1b65842d7495712cf5d1dc3b630fa61009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:36 +0000
Subject: [PATCH 70/70] fix: normalize activations of Gaussians with full
 covariances per sample

---
 src/functionapproximators/BasisFunction.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/functionapproximators/BasisFunction.cpp b/src/functionapproximators/BasisFunction.cpp
index bc2297b..0ba63da 100644
--- a/src/functionapproximators/BasisFunction.cpp
+++ b/src/functionapproximators/BasisFunction.cpp
@@ -89,19 +89,15 @@ void Gaussian::activations(const std::vector<Eigen::VectorXd>& mus,
   }
 
   if (normalized_basis_functions) {
-    // Compute sum for each row (each value in input_vector)
-    MatrixXd sum_kernel_activations =
-        kernel_activations.rowwise().sum();  // n_samples x 1
-
-    // Add small number to avoid division by zero. Not full-proof...
-    if ((sum_kernel_activations.array() == 0).any())
-      sum_kernel_activations.array() +=
-          sum_kernel_activations.maxCoeff() / 100000.0;
-
     // Normalize for each row (each value in input_vector)
-    kernel_activations =
-        kernel_activations.array() /
-        sum_kernel_activations.replicate(1, n_basis_functions).array();
+    for (int tt = 0; tt < n_samples; tt++) {
+      double sum_kernel_activations = kernel_activations.row(tt).sum();
+      if (sum_kernel_activations == 0.0)
+        // Apparently, no basis function was active. Set all to same value
+        kernel_activations.row(tt).fill(1.0 / n_basis_functions);
+      else
+        kernel_activations.row(tt) /= sum_kernel_activations;
+    }
   }
 }
 
-- 
2.43.0

