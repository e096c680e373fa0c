From 4af0ca3a08b7d8a7ce58fd36f3d9b8406bb7de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 01/22] fix: solve no longer keeps the caller's termination
 events

solve() extended the solver's own event list in place, so the events of one
solve also terminated every later solve of the same instance.
---
 ibl/ibl_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 4033a83..2a527c2 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -556,7 +556,7 @@ class IBLMethod(ABC):
             atol = atol_set
 
         # setup the ODE solver
-        kill_events = self._kill_events
+        kill_events = list(self._kill_events)
 
         if isinstance(term_event, list):
             kill_events += term_event
-- 
2.43.0


From c79931d724a086261b355dc2a2b50e8e1975975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 02/22] fix: _set_kill_event stores a copy of the list it is
 given

A later _add_kill_event() appended to the list owned by the caller.
---
 ibl/ibl_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 2a527c2..7daa848 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -695,7 +695,7 @@ class IBLMethod(ABC):
         if isinstance(ke, TermEvent):
             self._kill_events = [ke]
         else:
-            self._kill_events = ke
+            self._kill_events = list(ke)
 
     @abstractmethod
     def v_e(self, x: InputParam) -> npt.NDArray:
-- 
2.43.0


From ae033fa9a23f42203606b264e1073357e294e1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 03/22] fix: Thwaites separation event returns a scalar

The event returned a one element array, so that a solve with any additional
(scalar) user event raised an inhomogeneous array error in solve_ivp.
---
 ibl/thwaites_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index ce12a2b..58e6f34 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -732,7 +732,7 @@ class _ThwaitesSeparationEvent(TermEvent):
         float
             Current value of the shear function.
         """
-        return self._shear_fun(self._calc_lam(x, f))
+        return self._shear_fun(self._calc_lam(x, f[0]))
 
     @override
     def event_info(self) -> Tuple[TermReason, str]:
-- 
2.43.0


From 0ad9e3e018cad4f220af85c7daab457859d74a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 04/22] fix: clamp both ends of the Thwaites fit range in one
 evaluation

An array holding a value below the range left values above it unclamped.
---
 ibl/thwaites_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index 58e6f34..ab0a173 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -544,7 +544,7 @@ class _ThwaitesFunctions:
             lam_local[lam_local < lam_min] = lam_min
 #            raise ValueError("Cannot pass value less than {} into this "
 #                             "function: {}".format(lam_min, lam))
-        elif (lam_local > lam_max).any():
+        if (lam_local > lam_max).any():
             lam_local[lam_local > lam_max] = lam_max
 #            raise ValueError("Cannot pass value greater than {} into this "
 #                             "function: {}".format(lam_max, lam))
-- 
2.43.0


From 11228a6cea7b69a76bed77a11e70a1738766e6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 05/22] fix: evaluate the Thwaites fits in floating point

For an integer argument the clamped value and the result of np.piecewise were
truncated to an integer (e.g. the Cebeci-Bradshaw shear at 0 was 0, not 0.22).
---
 ibl/thwaites_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index ab0a173..6aeb1d2 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -538,7 +538,7 @@ class _ThwaitesFunctions:
 
     def _check_range(self, lam: InputParam) -> InputParam:
         lam_min, lam_max = self.range()
-        lam_local = np.array(lam)
+        lam_local = np.array(lam, dtype=float)
 
         if (lam_local < lam_min).any():
             lam_local[lam_local < lam_min] = lam_min
-- 
2.43.0


From 02385768c81d3134d13dd4201ee59c5c4cda7385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 06/22] fix: Head's method no longer writes into the edge
 velocity array

The lower limit on the edge velocity was stored into the array returned by the
user's velocity function (for u_e(x)=x that is the caller's x), failed for
scalar locations in tau_w, and treated negative velocities differently for
scalars and arrays.
---
 ibl/head_method.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ibl/head_method.py b/ibl/head_method.py
index ea12662..64f473a 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -219,8 +219,7 @@ class HeadMethod(IBLMethod):
 
         delta_m = self._solution(x)[0]
         shape_d = self._solution(x)[1]
-        u_e = self.u_e(x)
-        u_e[np.abs(u_e) < 0.001] = 0.001
+        u_e = np.maximum(self.u_e(x), 0.001)
         re_delta_m = u_e*delta_m/self._nu
         c_f = c_f_fun(re_delta_m, shape_d)
         return 0.5*rho*u_e**2*c_f
@@ -282,11 +281,7 @@ class HeadMethod(IBLMethod):
         shape_d = np.asarray(f[1])
         if (shape_d < 1.11).any():
             shape_d[shape_d < 1.11] = 1.11
-        u_e = self.u_e(x)
-        if isinstance(u_e, float):
-            u_e = max(u_e, 0.001)
-        else:
-            u_e[np.abs(u_e) < 0.001] = 0.001
+        u_e = np.maximum(self.u_e(x), 0.001)
         du_e = self.du_e(x)
         re_delta_m = u_e*delta_m/self._nu
         c_f = c_f_fun(re_delta_m, shape_d)
-- 
2.43.0


From 29d3e03000623791a604d36d87d0f5c95f27869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 07/22] fix: Head's method relations work on copies of their
 arguments

The range limits were stored into the caller's shape factor array (and into
the state array handed to the right-hand side); integer arguments truncated.
---
 ibl/head_method.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ibl/head_method.py b/ibl/head_method.py
index 64f473a..796f4bd 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -278,7 +278,7 @@ class HeadMethod(IBLMethod):
         """
         f_p = np.zeros_like(f)
         delta_m = f[0]
-        shape_d = np.asarray(f[1])
+        shape_d = np.array(f[1])
         if (shape_d < 1.11).any():
             shape_d[shape_d < 1.11] = 1.11
         u_e = np.maximum(self.u_e(x), 0.001)
@@ -309,7 +309,7 @@ class HeadMethod(IBLMethod):
         numpy.ndarray
             Entrainment shape factor.
         """
-        shape_d = np.asarray(shape_d)
+        shape_d = np.array(shape_d, dtype=float)
         if (shape_d <= 1.1).any():
             shape_d[shape_d <= 1.1] = 1.1001
 #            raise ValueError("Cannot pass displacement shape factor less "
@@ -347,7 +347,7 @@ class HeadMethod(IBLMethod):
         numpy.ndarray
             Entrainment shape factor.
         """
-        shape_d = np.asarray(shape_d)
+        shape_d = np.array(shape_d, dtype=float)
         if (shape_d <= 1.1).any():
             shape_d[shape_d <= 1.1] = 1.1001
 #            raise ValueError("Cannot pass displacement shape factor less "
@@ -383,7 +383,7 @@ class HeadMethod(IBLMethod):
         numpy.ndarray
             Displacement shape factor.
         """
-        shape_entrainment = np.asarray(shape_entrainment)
+        shape_entrainment = np.array(shape_entrainment, dtype=float)
         if (shape_entrainment <= 3.32254659218600974).any():
             shape_entrainment[shape_entrainment <= 3.32254659218600974] = 3.323
 #            raise ValueError("Cannot pass entrainment shape factor less "
@@ -411,7 +411,7 @@ class HeadMethod(IBLMethod):
 
     @staticmethod
     def _entrainment_velocity(shape_entr: InputParam) -> npt.NDArray:
-        shape_entr = np.asarray(shape_entr, float)
+        shape_entr = np.array(shape_entr, dtype=float)
         if (shape_entr <= 3).any():
             shape_entr[shape_entr <= 3] = 3.001
 #            raise ValueError("Cannot pass entrainment shape factor less than "
-- 
2.43.0


From 85c45ff2fa59a7773c8899afda8c8dc41107a5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 08/22] fix: set_velocity checks that the second derivative is
 callable

The check tested the first derivative again.
---
 ibl/ibl_method.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 7daa848..0b7d0a5 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -463,9 +463,9 @@ class IBLMethod(ABC):
 
                         self._d2u_e = d2u_e_fun
                 else:
-                    if not callable(du_e):
+                    if not callable(d2u_e):
                         raise ValueError("Must pass in callable object for "
-                                         "first derivative if callable u_e "
+                                         "second derivative if callable u_e "
                                          "given")
 
                     self._d2u_e = d2u_e
-- 
2.43.0


From 702c0e703bbac983a1db3c53f592c87439acb771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 09/22] fix: a rejected set_velocity leaves the velocity
 relations unchanged

u_e (and du_e) were replaced before the remaining arguments were checked.
---
 ibl/ibl_method.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 0b7d0a5..e0a55d4 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -416,8 +416,6 @@ class IBLMethod(ABC):
 
         # check if U_e is callable
         if callable(u_e):
-            self._u_e = u_e
-
             # if dU_edx not provided then use finite differences
             if du_e is None:
                 if d2u_e is not None:
@@ -425,6 +423,7 @@ class IBLMethod(ABC):
                                      + "first derivative was specified")
 
                 # if U_e has derivative method then use it
+                self._u_e = u_e
                 if (hasattr(u_e, "derivative")
                         and callable(getattr(u_e, "derivative"))):
                     self._du_e = u_e.derivative()
@@ -447,6 +446,11 @@ class IBLMethod(ABC):
                 if not callable(du_e):
                     raise ValueError("Must pass in callable object for first "
                                      "derivative if callable u_e given")
+                if (d2u_e is not None) and not callable(d2u_e):
+                    raise ValueError("Must pass in callable object for "
+                                     "second derivative if callable u_e "
+                                     "given")
+                self._u_e = u_e
                 self._du_e = du_e
 
                 # if d2U_edx2 not provied then use finite difference
@@ -463,11 +467,6 @@ class IBLMethod(ABC):
 
                         self._d2u_e = d2u_e_fun
                 else:
-                    if not callable(d2u_e):
-                        raise ValueError("Must pass in callable object for "
-                                         "second derivative if callable u_e "
-                                         "given")
-
                     self._d2u_e = d2u_e
         elif isinstance(u_e, (int, float)):
             # if is 2-tuple then assume x, dU_edx pairs to build spline
-- 
2.43.0


From d9e6224e459be0a40ce6370b59f42805494d9390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 10/22] fix: set_velocity raises ValueError for scalar u_e
 without du_e

It raised a TypeError from len(None).
---
 ibl/ibl_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index e0a55d4..1ffe217 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -470,7 +470,7 @@ class IBLMethod(ABC):
                     self._d2u_e = d2u_e
         elif isinstance(u_e, (int, float)):
             # if is 2-tuple then assume x, dU_edx pairs to build spline
-            if len(du_e) == 2:
+            if (du_e is not None) and (len(du_e) == 2):
                 x_pts = np.asarray(du_e[0])
                 du_e_pts = np.asarray(du_e[1])
                 pchip = PchipInterpolator(x_pts, du_e_pts)
-- 
2.43.0


From 76b3daa60cb4f64a2a704777c823475da558ab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 11/22] fix: an unconverged similarity solution raises
 ValueError

When the search ran out of iterations its last guess was used as the solution,
e.g. FalknerSkan(beta=1, u_ref=10, nu_ref=1e-5, fw_pp=1.233).
---
 ibl/analytic/_analytic_2d_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index 8fe4579..7fd1d29 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -627,6 +627,9 @@ class Analytic2dSimilarityIncompressible(ABC):
                     eta_inf_prev = eta_inf_curr
                     eta_inf_curr = eta_inf_prev + delta_eta_inf
                 j = j + 1
+            if not eta_inf_converged:
+                raise ValueError("Solution search did not converge in "
+                                 + f"{j_max} iterations.")
         else:
             eta_inf_curr = eta_inf
             fw_pp_curr = fw_pp
-- 
2.43.0


From 0a1a50a914c41d3fc85a7eb5c893bbb24bd64ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 12/22] fix: rejected solution parameters keep the previous
 similarity solution

A failing set_solution_parameters left the new stream function together with
(some of) the old thicknesses.
---
 ibl/analytic/_analytic_2d_base.py | 49 +++++++++++++++++++------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index 7fd1d29..20a7dea 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -462,25 +462,36 @@ class Analytic2dSimilarityIncompressible(ABC):
             raise ValueError("Invalid solution initial condition value: "
                              + f"{fw_pp}")
 
-        self._calculate_solution(fw_pp=fw_pp, eta_inf=eta_inf)
-
-        # calculate the invariant thickness now that have solution
-        self._eta_d = float(self.eta_inf-self.f(self.eta_inf))
-        self._eta_m = (self.fw_pp
-                       - self._beta*self.eta_d)/(self._alpha+self._beta)
-
-        def k_fun(eta: float) -> float:
-            return float(2*self.f(eta)*self.f_p(eta)*self.f_pp(eta))
-
-        self._eta_k = quad(k_fun, 0, self.eta_inf)[0]
-
-        def s_fun(eta: float) -> float:
-            return float(0.99-self.f_p(eta))
-
-        sol = root_scalar(s_fun, method="bisect", bracket=[0, self.eta_inf])
-        if not sol.converged:
-            raise ValueError("Could not find shear thickness with error: "
-                             + sol.flag)
+        f_prev, eta_inf_prev = self._f, self._eta_inf
+        try:
+            self._calculate_solution(fw_pp=fw_pp, eta_inf=eta_inf)
+
+            # calculate the invariant thickness now that have solution
+            eta_d = float(self.eta_inf-self.f(self.eta_inf))
+            eta_m = (self.fw_pp
+                     - self._beta*eta_d)/(self._alpha+self._beta)
+
+            def k_fun(eta: float) -> float:
+                return float(2*self.f(eta)*self.f_p(eta)*self.f_pp(eta))
+
+            eta_k = quad(k_fun, 0, self.eta_inf)[0]
+
+            def s_fun(eta: float) -> float:
+                return float(0.99-self.f_p(eta))
+
+            sol = root_scalar(s_fun, method="bisect",
+                              bracket=[0, self.eta_inf])
+            if not sol.converged:
+                raise ValueError("Could not find shear thickness with error: "
+                                 + sol.flag)
+        except ValueError:
+            # keep the previous solution when the new one is not usable
+            self._f, self._eta_inf = f_prev, eta_inf_prev
+            raise
+
+        self._eta_d = eta_d
+        self._eta_m = eta_m
+        self._eta_k = eta_k
         self._eta_s = sol.root
 
     def _calculate_solution(self, fw_pp: Optional[float],
-- 
2.43.0


From 65b03de49b649bb96c69697fdf2c22a7ff4aad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 13/22] fix: a rejected reset_beta keeps the previous wedge
 angle

beta was replaced before eta_inf and fw_pp were checked, leaving an object
whose beta did not match its solution.
---
 ibl/analytic/_falkner_skan.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ibl/analytic/_falkner_skan.py b/ibl/analytic/_falkner_skan.py
index 071b198..85e0d08 100644
--- a/ibl/analytic/_falkner_skan.py
+++ b/ibl/analytic/_falkner_skan.py
@@ -91,9 +91,14 @@ class FalknerSkan(Analytic2dSimilarityIncompressible):
         if (beta < -0.19884) or (beta > 2):
             raise ValueError("Invalid wedge angle parameter: "
                              + f"{beta}")
+        beta_prev = self._beta
         self._beta = beta
 
-        self.set_solution_parameters(fw_pp=fw_pp, eta_inf=eta_inf)
+        try:
+            self.set_solution_parameters(fw_pp=fw_pp, eta_inf=eta_inf)
+        except ValueError:
+            self._beta = beta_prev
+            raise
 
     def reset_m(self, m: float, eta_inf: Optional[float] = None,
                 fw_pp: Optional[float] = None) -> None:
-- 
2.43.0


From 6536da9f918ec42483f06a7b54c10203ab7caa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 14/22] fix: do not share the stagnation point between both
 XFoil surfaces

For a dump with a point at exactly zero velocity the shared record was shifted
once per surface, which raised for its negative arc length or corrupted it.
---
 ibl/reference/_xfoil_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index 2d8eb60..bc75fc8 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -200,7 +200,7 @@ class XFoilReader:
         # find stagnation point
         if self._upper[0].u_e_rel == 0:
             stag_s = self._upper[0].s
-            self._lower.insert(0, self._upper[0])
+            self._lower.insert(0, copy.copy(self._upper[0]))
         else:
             # interpolate properties
             up = self._upper[0]
-- 
2.43.0


From 280dafd544753058c762e0d7e222a5a0599b07fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 15/22] fix: a failed XFoil dump load leaves the reader empty

A malformed row left the rows read so far, unadjusted, in the reader.
---
 ibl/reference/_xfoil_reader.py | 37 ++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index bc75fc8..7a5f266 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -182,50 +182,57 @@ class XFoilReader:
         airfoil_data, wake_data = self._get_dump_data(filename)
 
         # extract the upper airfoil data
+        upper: List[XFoilAirfoilData] = []
         idx_lower = -1
         for idx, ad in enumerate(airfoil_data):
             new_pt = XFoilAirfoilData(ad)
             if new_pt.u_e_rel < 0:
                 idx_lower = idx
                 break
-            self._upper.insert(0, new_pt)
+            upper.insert(0, new_pt)
 
         # extract the lower aifoil data
-        self._lower = [XFoilAirfoilData(x) for x in airfoil_data[idx_lower:]]
-        for a in self._lower:
+        lower = [XFoilAirfoilData(x) for x in airfoil_data[idx_lower:]]
+        for a in lower:
             a.u_e_rel *= -1
             a.mass_defect *= -1
             a.ke_defect *= -1
 
         # find stagnation point
-        if self._upper[0].u_e_rel == 0:
-            stag_s = self._upper[0].s
-            self._lower.insert(0, copy.copy(self._upper[0]))
+        if upper[0].u_e_rel == 0:
+            stag_s = upper[0].s
+            lower.insert(0, copy.copy(upper[0]))
         else:
             # interpolate properties
-            up = self._upper[0]
-            lo = self._lower[0]
+            up = upper[0]
+            lo = lower[0]
             du = up.u_e_rel + lo.u_e_rel
             frac = up.u_e_rel/du
             stag_pt = self._interpolate_aifoil_data(up, lo, frac)
 
             stag_s = stag_pt.s
-            self._upper.insert(0, stag_pt)
-            self._lower.insert(0, copy.copy(stag_pt))
+            upper.insert(0, stag_pt)
+            lower.insert(0, copy.copy(stag_pt))
 
         # adjust arc-length parameter to be based on leading edge
-        for a in self._upper:
+        for a in upper:
             a.s = stag_s - a.s
-        for a in self._lower:
+        for a in lower:
             a.s -= stag_s
 
         # extract the wake data adjust for wake to be from trailing edge
+        wake: List[XFoilWakeData] = []
         if wake_data:
-            self._wake = [XFoilWakeData(x) for x in wake_data]
-            s_offset = self._wake[0].s
-            for w in self._wake:
+            wake = [XFoilWakeData(x) for x in wake_data]
+            s_offset = wake[0].s
+            for w in wake:
                 w.s -= s_offset
 
+        # everything is usable so can store it
+        self._upper = upper
+        self._lower = lower
+        self._wake = wake
+
     def upper_count(self) -> int:
         """
         Return number of points on the upper surface of airofil.
-- 
2.43.0


From c7f53fd43c04dd990f66e2d390c27be1857b3ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 16/22] fix: XFoilReader.filename reports the file that was
 loaded

The name was never stored, so that it was empty after every load.
---
 ibl/reference/_xfoil_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index 7a5f266..ca1e3dc 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -232,6 +232,7 @@ class XFoilReader:
         self._upper = upper
         self._lower = lower
         self._wake = wake
+        self._filename = filename
 
     def upper_count(self) -> int:
         """
-- 
2.43.0


From 50ef3fb88613abeed5ac946a46f9258278bbfe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 17/22] fix: an unknown Stanford case raises ValueError and
 clears the case

It raised IndexError, and the previous case number was still reported although
its data had been dropped.
---
 ibl/reference/_stanford_1968.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ibl/reference/_stanford_1968.py b/ibl/reference/_stanford_1968.py
index 8655e50..f87a82c 100644
--- a/ibl/reference/_stanford_1968.py
+++ b/ibl/reference/_stanford_1968.py
@@ -112,12 +112,14 @@ class StanfordOlympics1968:
         self._nu_ref = np.inf
         self._smooth_vel = None
         self._station = []
+        self._case = ""
 
         if case == "":
-            self._case = ""
             return
 
         case_data = self._get_case_data(case_id=case)
+        if not case_data:
+            raise ValueError(f"Unknown case: {case}")
 
         # extract case info
         case_parts = [x.rstrip().lstrip() for x in case_data[0][0].split("=")]
-- 
2.43.0


From 9229a4720f19da871d6c298a95654b2a7c99583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 18/22] fix: a failed Stanford case load leaves no partial case
 data

The case number, viscosity and the stations read so far were kept.
---
 ibl/reference/_stanford_1968.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ibl/reference/_stanford_1968.py b/ibl/reference/_stanford_1968.py
index f87a82c..c783361 100644
--- a/ibl/reference/_stanford_1968.py
+++ b/ibl/reference/_stanford_1968.py
@@ -130,36 +130,36 @@ class StanfordOlympics1968:
         if case_parts[1] != case:
             raise ValueError(f"Case {case} does not match data file case "
                              + f"{case_parts[1]}")
-        self._case = case
         si_unit = case[0] == "1"
 
         nu_parts = [x.rstrip().lstrip() for x in case_data[0][1].split("=")]
         if (nu_parts[0] != "V") and (nu_parts[0] != "v"):
             raise ValueError(f"Invalid viscosity line: {case_data[0][1]}")
         if si_unit:
-            self._nu_ref = float(nu_parts[1])*1e-4
+            nu_ref = float(nu_parts[1])*1e-4
         else:
-            self._nu_ref = float(nu_parts[1])*FOOT_PER_METER**2
+            nu_ref = float(nu_parts[1])*FOOT_PER_METER**2
 
         # extract smoothed velocity info
-        self._smooth_vel = StanfordOlympics1968SmoothVel(si_unit=si_unit,
-                                                         data=case_data[2])
+        smooth_vel = StanfordOlympics1968SmoothVel(si_unit=si_unit,
+                                                   data=case_data[2])
 
         # extract station data
+        station: List[StanfordOlympics1968StationData] = []
         if len(case_data) < 4:
             for sum_d in case_data[1]:
                 sod = StanfordOlympics1968StationData(si_unit=si_unit,
                                                       summ_data=sum_d,
                                                       stat_summ="",
                                                       stat_data=[])
-                self._station.append(sod)
+                station.append(sod)
         elif len(case_data) < 5:
             for sum_d, stat_s in zip(case_data[1], case_data[3]):
                 sod = StanfordOlympics1968StationData(si_unit=si_unit,
                                                       summ_data=sum_d,
                                                       stat_summ=stat_s,
                                                       stat_data=[])
-                self._station.append(sod)
+                station.append(sod)
         else:
             for sum_d, stat_s, stat_d in zip(case_data[1], case_data[3],
                                              case_data[4:]):
@@ -167,7 +167,13 @@ class StanfordOlympics1968:
                                                       summ_data=sum_d,
                                                       stat_summ=stat_s,
                                                       stat_data=stat_d)
-                self._station.append(sod)
+                station.append(sod)
+
+        # everything is usable so can store it
+        self._case = case
+        self._nu_ref = nu_ref
+        self._smooth_vel = smooth_vel
+        self._station = station
 
     def station_count(self) -> int:
         """
-- 
2.43.0


From 832c2c4008f1e4605de49075f3e3c13f572ae06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 19/22] fix: negative profile samples are rejected when reading
 station data

The samples were stored element by element, past the checks that they must be
greater than or equal to zero.
---
 ibl/reference/_stanford_1968_station.py | 40 +++++++++++++++++--------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/ibl/reference/_stanford_1968_station.py b/ibl/reference/_stanford_1968_station.py
index f1ceaf9..c3e6f07 100644
--- a/ibl/reference/_stanford_1968_station.py
+++ b/ibl/reference/_stanford_1968_station.py
@@ -670,12 +670,18 @@ class StanfordOlympics1968StationData:
         """
         # reset values
         n_station = len(station_data)
-        self._y_plus = np.empty(n_station)
-        self._u_plus = np.empty(n_station)
-        self._y = np.empty(n_station)
-        self._u = np.empty(n_station)
-        self._y_c = np.empty(n_station)
-        self._u_defect = np.empty(n_station)
+        self._y_plus = np.empty(0)
+        self._u_plus = np.empty(0)
+        self._y = np.empty(0)
+        self._u = np.empty(0)
+        self._y_c = np.empty(0)
+        self._u_defect = np.empty(0)
+        y_plus_vals = np.empty(n_station)
+        u_plus_vals = np.empty(n_station)
+        y_vals = np.empty(n_station)
+        u_vals = np.empty(n_station)
+        y_c_vals = np.empty(n_station)
+        u_defect_vals = np.empty(n_station)
 
         # unpack values from string
         for i, st in enumerate(station_data):
@@ -712,13 +718,21 @@ class StanfordOlympics1968StationData:
                                  + f"({(self.u_e-u)/self.u_star}) "
                                  + f"for defect velocity sample {i}")
 
-            # set values
-            self.y_plus[i] = yplus
-            self.u_plus[i] = uplus
-            self.y[i] = y
-            self.u[i] = u
-            self.y_c[i] = ycd
-            self.u_defect[i] = udef
+            # collect values
+            y_plus_vals[i] = yplus
+            u_plus_vals[i] = uplus
+            y_vals[i] = y
+            u_vals[i] = u
+            y_c_vals[i] = ycd
+            u_defect_vals[i] = udef
+
+        # set values
+        self.y_plus = y_plus_vals
+        self.u_plus = u_plus_vals
+        self.y = y_vals
+        self.u = u_vals
+        self.y_c = y_c_vals
+        self.u_defect = u_defect_vals
 
 
 class StanfordOlympics1968SmoothVel:
-- 
2.43.0


From a274e97039c1210351d97f8d485fa5fb9ea76b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:32 +0000
Subject: [PATCH 20/22] fix: failing derivative of the edge velocity leaves the
 old velocity in place

---
 ibl/ibl_method.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 1ffe217..4395f42 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -423,12 +423,15 @@ class IBLMethod(ABC):
                                      + "first derivative was specified")
 
                 # if U_e has derivative method then use it
-                self._u_e = u_e
                 if (hasattr(u_e, "derivative")
                         and callable(getattr(u_e, "derivative"))):
-                    self._du_e = u_e.derivative()
-                    self._d2u_e = u_e.derivative(2)
+                    du_e_spline = u_e.derivative()
+                    d2u_e_spline = u_e.derivative(2)
+                    self._u_e = u_e
+                    self._du_e = du_e_spline
+                    self._d2u_e = d2u_e_spline
                 else:
+                    self._u_e = u_e
                     # FIX: This is depricated in scipy
                     def du_e_fun(x:InputParam) -> InputParam:
                         # pylint: disable-next=line-too-long
@@ -450,8 +453,6 @@ class IBLMethod(ABC):
                     raise ValueError("Must pass in callable object for "
                                      "second derivative if callable u_e "
                                      "given")
-                self._u_e = u_e
-                self._du_e = du_e
 
                 # if d2U_edx2 not provied then use finite difference
                 if d2u_e is None:
@@ -468,6 +469,8 @@ class IBLMethod(ABC):
                         self._d2u_e = d2u_e_fun
                 else:
                     self._d2u_e = d2u_e
+                self._u_e = u_e
+                self._du_e = du_e
         elif isinstance(u_e, (int, float)):
             # if is 2-tuple then assume x, dU_edx pairs to build spline
             if (du_e is not None) and (len(du_e) == 2):
-- 
2.43.0


From 426567f50c421805485be675b2f5aea67a3cb2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:12 +0000
Subject: [PATCH 21/22] fix: initial thickness and shape factor take effect
 with every initial condition and keep each other

---
 ibl/head_method.py     | 12 +++++++++---
 ibl/thwaites_method.py |  6 ++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/ibl/head_method.py b/ibl/head_method.py
index 796f4bd..d76fa2e 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -5,7 +5,7 @@ This module contains the necessary classes and data for the implementation of
 Head's two equation integral boundary layer method.
 """
 
-from typing import Tuple, cast, Optional, Any
+from typing import Tuple, Optional, Any
 from typing_extensions import override
 
 import numpy as np
@@ -48,7 +48,10 @@ class HeadMethod(IBLMethod):
     def initial_delta_m(self, delta_m0: float) -> None:
         if delta_m0 <= 0:
             raise ValueError(f"Invalid initial momentum thickness: {delta_m0}")
-        cast(ManualCondition, self._ic).del_m = delta_m0
+        self.set_initial_condition(
+            ManualCondition(delta_d=self._ic.shape_d()*delta_m0,
+                            delta_m=delta_m0,
+                            delta_k=self._ic.shape_k()*delta_m0))
 
     @property
     def initial_shape_d(self) -> float:
@@ -62,7 +65,10 @@ class HeadMethod(IBLMethod):
     def initial_shape_d(self, shape_d: float) -> None:
         if shape_d <= 0:
             raise ValueError(f"Invalid displacement shape factor: {shape_d}")
-        cast(ManualCondition, self._ic).del_d = shape_d*self.initial_delta_m
+        delta_m = self._ic.delta_m()
+        self.set_initial_condition(
+            ManualCondition(delta_d=shape_d*delta_m, delta_m=delta_m,
+                            delta_k=self._ic.delta_k()))
 
     def set_shape_d_critical(self, shape_d_crit: float) -> None:
         """
diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index 6aeb1d2..032000d 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -12,7 +12,7 @@ assumption and provides slightly better results in all cases tested.
 # pylint: disable=too-many-branches
 
 from abc import abstractmethod
-from typing import Tuple, cast, Union, Callable, Optional, Any
+from typing import Tuple, Union, Callable, Optional, Any
 from typing_extensions import override
 
 import numpy as np
@@ -76,7 +76,9 @@ class ThwaitesMethod(IBLMethod):
     def initial_delta_m(self, delta_m0: float) -> None:
         if delta_m0 <= 0:
             raise ValueError(f"Invalid initial momentum thickness: {delta_m0}")
-        cast(ManualCondition, self._ic).del_m = delta_m0
+        self.set_initial_condition(ManualCondition(delta_d=0,
+                                                   delta_m=delta_m0,
+                                                   delta_k=0))
 
     def set_data_fits(self, data_fits: _DataFits) -> None:
         """
-- 
2.43.0


From 6b0607531601243673f5238fa5c05c01310673d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:46 +0000
Subject: [PATCH 22/22] fix: a solve that ends with an exception no longer
 leaves the previous solution behind

---
 ibl/ibl_method.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 4395f42..ef28cf5 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -544,6 +544,9 @@ class IBLMethod(ABC):
         TypeError
             When solution parameters have not been set.
         """
+        # any previous solution is no longer valid even if this solve fails
+        self._solution = None
+
         # setup the initial conditions
         self._ic.nu = self._nu
         self._ic.du_e = float(self.du_e(x0))
@@ -570,7 +573,6 @@ class IBLMethod(ABC):
                         rtol=rtol, atol=atol)
 
         # if completed gather info
-        self._solution = None
         x_end = x0
         f_end = y0
         status = TermReason.UNKNOWN
-- 
2.43.0

