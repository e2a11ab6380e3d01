From 7b87d1946b5587e809d32ce328fa43ca292860bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:16 +0000
Subject: [PATCH 01/24] fix: covariant conversion across the south edge of
 panel 2

The first covariant component sent from panel 2 to panel 5 was -a2 instead of -a1.
---
 wx_factory/process_topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/process_topology.py b/wx_factory/process_topology.py
index 2f23b91..cf498a5 100644
--- a/wx_factory/process_topology.py
+++ b/wx_factory/process_topology.py
@@ -188,7 +188,7 @@ class ProcessTopology:
                 lambda a1, a2, x: (a1 + 2.0 * x / (1.0 + x**2) * a2, a2),  # East neighbor
             ],
             [  # Panel 2
-                lambda a1, a2, x: (-a2, -a2 + 2.0 * x / (1.0 + x**2) * a1),  # South neighbor
+                lambda a1, a2, x: (-a1, -a2 + 2.0 * x / (1.0 + x**2) * a1),  # South neighbor
                 lambda a1, a2, x: (-a1, -a2 - 2.0 * x / (1.0 + x**2) * a1),  # North neighbor
                 lambda a1, a2, x: (a1 - 2.0 * x / (1.0 + x**2) * a2, a2),  # West neighbor
                 lambda a1, a2, x: (a1 + 2.0 * x / (1.0 + x**2) * a2, a2),  # East neighbor
-- 
2.43.0


From c0b2878eb5c87e64dfad0c0cc8663017d6351aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:37 +0000
Subject: [PATCH 02/24] fix: area element of the 2-D metric

The element-scaled metric of the 2-D cubed sphere uses two half-widths,
so the area element must be scaled by dx1*dx2/4; the factor of the 3-D
metric (1/8) halved every global integral.
---
 wx_factory/geometry/metric2d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wx_factory/geometry/metric2d.py b/wx_factory/geometry/metric2d.py
index 04f67a1..ce5bd60 100644
--- a/wx_factory/geometry/metric2d.py
+++ b/wx_factory/geometry/metric2d.py
@@ -127,9 +127,9 @@ class Metric2D:
         # x1 and x2 run from -pi/4 to pi/4 and x3 runs from 0 to htop, but inside each elemenet
         # (from the perspective of the differentiation matrices) each coordinate runs from -1 to 1.
 
-        self.sqrtG *= geom.delta_x1 * geom.delta_x2 / 8.0
-        self.sqrtG_itf_i *= geom.delta_x1 * geom.delta_x2 / 8.0
-        self.sqrtG_itf_j *= geom.delta_x1 * geom.delta_x2 / 8.0
+        self.sqrtG *= geom.delta_x1 * geom.delta_x2 / 4.0
+        self.sqrtG_itf_i *= geom.delta_x1 * geom.delta_x2 / 4.0
+        self.sqrtG_itf_j *= geom.delta_x1 * geom.delta_x2 / 4.0
 
         self.inv_sqrtG = 1.0 / self.sqrtG
 
-- 
2.43.0


From 8eaeef4438c7b8e00a0d91f65212eb6a14575ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:03 +0000
Subject: [PATCH 03/24] fix: no extra time step from accumulated rounding

With e.g. dt = 0.1 and t_end = 1, the accumulated time after 10 steps is
slightly below t_end, so that an 11th step with dt ~ 1e-16 was taken.
---
 wx_factory/simulation/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wx_factory/simulation/simulation.py b/wx_factory/simulation/simulation.py
index b411ea8..ce7b77d 100644
--- a/wx_factory/simulation/simulation.py
+++ b/wx_factory/simulation/simulation.py
@@ -128,12 +128,13 @@ class Simulation:
 
         self.t = self.config.dt * self.starting_step
         self.integrator.sim_time = self.t
-        self.num_steps = int(numpy.ceil(self.config.t_end / self.config.dt)) - self.starting_step
+        self.num_steps = int(numpy.ceil(self.config.t_end / self.config.dt - 1e-9)) - self.starting_step
 
     def step(self):
         """Advance the simulation by one time step."""
         if self.t < self.config.t_end:
-            if self.t + self.config.dt > self.config.t_end:
+            # Last step: end exactly at t_end. The accumulated rounding error in t must not lead to an extra (tiny) step
+            if self.t + self.config.dt * (1.0 + 1e-9) > self.config.t_end:
                 self.config.dt = self.config.t_end - self.t
                 self.t = self.config.t_end
             else:
-- 
2.43.0


From 3bfd3049ce35654ed3d1483d0c413d3d0d5a74bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:41 +0000
Subject: [PATCH 04/24] fix: writing netCDF output added the topography to the
 model state

The fluid depth was modified in place, so that every output of a
shallow water run over topography raised the fluid. Winds and potential
vorticity are those of the fluid depth.
---
 wx_factory/output/output_cubesphere_netcdf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 882e7dd..778ef90 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -312,9 +312,8 @@ class OutputCubesphereNetcdf(OutputCubesphere):
 
             # Unpack physical variables
             h = Q[idx_h, :, :]
-            if self.topo is not None:
-                h += self.topo.hsurf
-            self.store_field(geom.to_single_block(prepare(h)), "h", idx)
+            height = h if self.topo is None else h + self.topo.hsurf
+            self.store_field(geom.to_single_block(prepare(height)), "h", idx)
 
             if self.config.case_number >= 2:
                 u1 = Q[idx_hu1, :, :] / h
-- 
2.43.0


From 95c3134c191b4bfe1ce6ff448cfebe9a94b1c63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:23 +0000
Subject: [PATCH 05/24] fix: nodes of the stiff EPI methods are the previous
 time levels

The coefficients were computed for nodes 1, 2, ... although the stored states are at -1, -2, ...,
which reduces orders 4 and above to order 3.
---
 wx_factory/integrators/epi_stiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/integrators/epi_stiff.py b/wx_factory/integrators/epi_stiff.py
index f6eb23f..f4ecbbf 100644
--- a/wx_factory/integrators/epi_stiff.py
+++ b/wx_factory/integrators/epi_stiff.py
@@ -24,7 +24,7 @@ class EpiStiff(Integrator):
 
         if order < 2:
             raise ValueError("Unsupported order for EPI method")
-        self.A = alpha_coeff([-i for i in range(-1, 1 - order, -1)])
+        self.A = alpha_coeff([-i for i in range(1, order - 1)])
 
         m, self.n_prev = self.A.shape
 
-- 
2.43.0


From 136231a9026d643ec5bb69b629e19f5b9423415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:23 +0000
Subject: [PATCH 06/24] fix: first step of BDF2 used only half of the
 right-hand side

---
 wx_factory/integrators/bdf2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/integrators/bdf2.py b/wx_factory/integrators/bdf2.py
index fa9b458..5053004 100644
--- a/wx_factory/integrators/bdf2.py
+++ b/wx_factory/integrators/bdf2.py
@@ -20,7 +20,7 @@ class Bdf2(Integrator):
             newQ = Q.copy()
             for _ in range(self.init_substeps):
                 init_dt = dt / self.init_substeps
-                nonlin_fun = lambda Q_plus: (Q_plus - newQ) / init_dt - 0.5 * self.rhs(Q_plus)
+                nonlin_fun = lambda Q_plus: (Q_plus - newQ) / init_dt - self.rhs(Q_plus)
 
                 newQ, num_iter, residuals = newton_krylov(nonlin_fun, newQ, f_tol=self.tol)
         else:
-- 
2.43.0


From f1fbd3716b9b41fca2c14044a5fa834fb6b42e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:50 +0000
Subject: [PATCH 07/24] fix: BDF2 after a change of time step

The constant-step formula is not consistent when the last step is shortened; use the variable-step one.
---
 wx_factory/integrators/bdf2.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wx_factory/integrators/bdf2.py b/wx_factory/integrators/bdf2.py
index 5053004..647bb51 100644
--- a/wx_factory/integrators/bdf2.py
+++ b/wx_factory/integrators/bdf2.py
@@ -12,6 +12,7 @@ class Bdf2(Integrator):
         self.tol = param.tolerance
         self.init_substeps = init_substeps
         self.Qprev = None
+        self.dt_prev = None
 
     def __step__(self, Q, dt):
         t0 = time()
@@ -26,8 +27,14 @@ class Bdf2(Integrator):
         else:
             maxiter = None
 
+            # The previous step may have had a different length (w = 1: 4/3, 1/3 and 2/3)
+            w = dt / self.dt_prev
+            c0 = (1.0 + w) ** 2 / (1.0 + 2.0 * w)
+            c1 = w**2 / (1.0 + 2.0 * w)
+            beta = (1.0 + w) / (1.0 + 2.0 * w)
+
             def nonlin_fun(Q_plus):
-                return (Q_plus - 4.0 / 3.0 * Q + 1.0 / 3.0 * self.Qprev) / dt - 2.0 / 3.0 * self.rhs(Q_plus)
+                return (Q_plus - c0 * Q + c1 * self.Qprev) / dt - beta * self.rhs(Q_plus)
 
             if self.preconditioner is not None:
                 self.preconditioner.prepare(dt, Q, self.Qprev)
@@ -40,5 +47,6 @@ class Bdf2(Integrator):
         self.solver_info = SolverInfo(0, t1 - t0, num_iter, residuals)
 
         self.Qprev = Q.copy()
+        self.dt_prev = dt
 
         return numpy.reshape(newQ, Q.shape)
-- 
2.43.0


From 762faf6d6a71869ac359b89734b125d0472bd6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:04 +0000
Subject: [PATCH 08/24] fix: odd numbers of solution points above 5 were
 refused

The central entry of the differentiation matrix comes out as 1e-34 instead of 0 for these orders,
and the matrix was then rejected as not skew-centrosymmetric.
---
 wx_factory/geometry/operators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wx_factory/geometry/operators.py b/wx_factory/geometry/operators.py
index e939154..87c6155 100644
--- a/wx_factory/geometry/operators.py
+++ b/wx_factory/geometry/operators.py
@@ -85,6 +85,7 @@ class DFROperators:
 
         diff = diffmat(grd.extension_sym)
         diff = xp.asarray(diff)
+        diff[xp.abs(diff) < 1e-20] = 0.0
 
         if param.filter_apply:
             self.V = vandermonde(grd.extension)
-- 
2.43.0


From 9eb4833335fad1fafbaf7a1900b5ca1f6b063bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:13 +0000
Subject: [PATCH 09/24] fix: the sponge layer of Cartesian runs works with the
 element layout

Building the operators (and applying the sponge) unpacked the grid's shape as (nk, ni), which fails since fields are
stored by element: any configuration with apply_sponge (config/schar.ini) stopped at start-up.
---
 wx_factory/geometry/operators.py | 34 +++++++++++---------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/wx_factory/geometry/operators.py b/wx_factory/geometry/operators.py
index 87c6155..474d9e4 100644
--- a/wx_factory/geometry/operators.py
+++ b/wx_factory/geometry/operators.py
@@ -124,19 +124,13 @@ class DFROperators:
         if param.apply_sponge:
             if not isinstance(grd, Cartesian2D):
                 raise TypeError(f"The sponge can only be applied on a Cartesian2D geometry")
-            nk, ni = grd.X1.shape
             zs = param.z1 - param.sponge_zscale  # zs is bottom of layer
-            self.beta = xp.zeros_like(grd.X1)  # used as our damping profile
-            # Loop over points
-            # TODO use implicit loop (will also work with CUDA)
-            for k in range(nk):
-                for i in range(ni):
-                    if grd.X3[k, i] >= zs:
-                        self.beta[k, i] = (
-                            self.beta[k, i]
-                            + (1.0 / param.sponge_tscale)
-                            * xp.sin((0.5 * xp.pi) * (grd.X3[k, i] - zs) / (param.z1 - zs)) ** 2
-                        )
+            # Damping profile
+            self.beta = xp.where(
+                grd.X3 >= zs,
+                (1.0 / param.sponge_tscale) * xp.sin((0.5 * xp.pi) * (grd.X3 - zs) / (param.z1 - zs)) ** 2,
+                0.0,
+            )
 
         if check_skewcentrosymmetry(self.diff_ext) is False:
             raise ValueError("Something horribly wrong has happened in the creation of the differentiation matrix")
@@ -241,17 +235,11 @@ class DFROperators:
 
         # Apply Sponge (if desired)
         if self.apply_sponge:
-            nk, ni = geom.X1.shape
-            # Loop over points
-            # TODO use implicit loop (will also work with CUDA)
-            for k in range(nk):
-                for i in range(ni):
-                    # !!!!!!!!
-                    # !!! Important Note:
-                    #     TODO: For 3D, we want to rotate radially, apply sponge, rotate back
-                    # !!!!!!!!
-                    ww = (1.0 / (1.0 + self.beta[k, i] * dt)) * Q[idx_2d_rho_w, k, i]
-                    Q[idx_2d_rho_w, k, i] = ww
+            # !!!!!!!!
+            # !!! Important Note:
+            #     TODO: For 3D, we want to rotate radially, apply sponge, rotate back
+            # !!!!!!!!
+            Q[idx_2d_rho_w] = (1.0 / (1.0 + self.beta * dt)) * Q[idx_2d_rho_w]
 
         return Q
 
-- 
2.43.0


From bf5b75c918ff1d564064e1e5040346f76c9817f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:16 +0000
Subject: [PATCH 10/24] fix: AUSM kernel keeps the advective part of the normal
 momentum flux

---
 wx_factory/pde/kernels/riemann_flux.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/pde/kernels/riemann_flux.hpp b/wx_factory/pde/kernels/riemann_flux.hpp
index cf7d5c3..6e31178 100644
--- a/wx_factory/pde/kernels/riemann_flux.hpp
+++ b/wx_factory/pde/kernels/riemann_flux.hpp
@@ -62,13 +62,13 @@ DEVICE_SPACE void riemann_eulercartesian_ausm_2d_kernel(
   *params_l.flux[dir].rho = rhol * Mmax + rhor * Mmin;
   if (dir == 0)
   {
-    *params_l.flux[dir].rho_u = 0.5 * (Ml * pl - Mr * pr);
+    *params_l.flux[dir].rho_u = rho_ul * Mmax + rho_ur * Mmin + 0.5 * (Ml * pl - Mr * pr);
     *params_l.flux[dir].rho_w = rho_wl * Mmax + rho_wr * Mmin;
   }
   else
   {
     *params_l.flux[dir].rho_u = rho_ul * Mmax + rho_ur * Mmin;
-    *params_l.flux[dir].rho_w = 0.5 * (Ml * pl - Mr * pr);
+    *params_l.flux[dir].rho_w = rho_wl * Mmax + rho_wr * Mmin + 0.5 * (Ml * pl - Mr * pr);
   }
   *params_l.flux[dir].rho_theta = rho_thetal * Mmax + rho_thetar * Mmin;
 
-- 
2.43.0


From b94ffeb0ee76abe5104478881c0bf62d94afb4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:42 +0000
Subject: [PATCH 11/24] fix: relative vorticity uses the right derivatives of
 the covariant winds

---
 wx_factory/output/diagnostic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wx_factory/output/diagnostic.py b/wx_factory/output/diagnostic.py
index a5b1844..287e150 100644
--- a/wx_factory/output/diagnostic.py
+++ b/wx_factory/output/diagnostic.py
@@ -11,8 +11,11 @@ def relative_vorticity(u1_contra: NDArray, u2_contra: NDArray, metric: Metric2D,
     u1_dual = metric.H_cov_11 * u1_contra + metric.H_cov_12 * u2_contra
     u2_dual = metric.H_cov_21 * u1_contra + metric.H_cov_22 * u2_contra
 
-    du1dx2 = u2_dual @ mtrx.derivative_y
-    du2dx1 = u1_dual @ mtrx.derivative_x
+    # Derivatives within each element, whose points are stored row by row
+    shape = u1_dual.shape
+    square = shape[:-1] + mtrx.diff.shape
+    du1dx2 = (mtrx.diff @ u1_dual.reshape(square)).reshape(shape)
+    du2dx1 = (u2_dual.reshape(square) @ mtrx.diff_tr).reshape(shape)
 
     vort = metric.inv_sqrtG * (du2dx1 - du1dx2)
 
-- 
2.43.0


From 367d89c6b01fe36a6bf754f89b4331a9bc3ce931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:37 +0000
Subject: [PATCH 12/24] fix: the netCDF file is opened by the simulation's own
 communicator

---
 wx_factory/output/output_cubesphere_netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 778ef90..3aeb0ce 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -56,7 +56,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         import netCDF4
 
         # creating the netcdf file(s)
-        with SingleProcess() as s, Conditional(s):
+        with SingleProcess(self.comm) as s, Conditional(s):
             self.ncfile = netCDF4.Dataset(self.filename, "w", format="NETCDF4")
 
         # create dimensions
-- 
2.43.0


From 82baf447a0bc6d027fa3522be367fe590383114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:29 +0000
Subject: [PATCH 13/24] fix: the ground's elevation in netCDF output is a 2-D
 field

---
 wx_factory/output/output_cubesphere_netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 3aeb0ce..0bc6983 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -287,7 +287,7 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         lats = self._gather_field(prepare(self.geometry.block_lat * 180 / math.pi), 2)
         if self.config.equations == "euler":
             elevs = self._gather_field(prepare(self.geometry.coordVec_latlon[2, :, :, :]), 3)
-            topos = self._gather_field(prepare(self.geometry.zbot[:, :]), 3)
+            topos = self._gather_field(prepare(self.geometry.zbot[:, :]), 2)
 
         if self.rank == 0:
             for i in range(6):
-- 
2.43.0


From 402a5135b15cc3f460e77b82ce1ff942289965e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:29 +0000
Subject: [PATCH 14/24] fix: Y coordinate in netCDF output with several tiles
 per panel

---
 wx_factory/output/output_cubesphere_netcdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wx_factory/output/output_cubesphere_netcdf.py b/wx_factory/output/output_cubesphere_netcdf.py
index 0bc6983..1bc99ba 100644
--- a/wx_factory/output/output_cubesphere_netcdf.py
+++ b/wx_factory/output/output_cubesphere_netcdf.py
@@ -273,11 +273,11 @@ class OutputCubesphereNetcdf(OutputCubesphere):
         prepare = self.device.to_host
 
         panel_x = self._gather_panel(prepare(self.geometry.x1[...]))
-        panel_y = self._gather_panel(prepare(self.geometry.x2[...]))
+        panel_y = self._gather_panel(prepare(self.geometry.x2[:, None]))  # As a column, to join the rows of tiles
 
         if self.rank == 0:
             xxx[:] = panel_x
-            yyy[:] = panel_y
+            yyy[:] = panel_y[:, 0]
             if self.config.equations == "euler":
                 # No gathering needed for vertical coords
                 # FIXME: With mapped coordinates, x3/height is a truly 3D coordinate
-- 
2.43.0


From 786e27c2b57f6725bd3ef88ddcbb78288258b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:29 +0000
Subject: [PATCH 15/24] fix: report of output times above 1000 seconds

---
 wx_factory/output/output_manager.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/wx_factory/output/output_manager.py b/wx_factory/output/output_manager.py
index f75db46..56c4fbb 100644
--- a/wx_factory/output/output_manager.py
+++ b/wx_factory/output/output_manager.py
@@ -26,11 +26,8 @@ def _readable_time(seconds):
     elif seconds < 1.0:
         return f"{seconds * 1e3:.1f} ms"
     elif seconds > 1000:
-        h_s = int(seconds)
-        h = h_s // 3600
-        rem = seconds - h_s
-        m = rem // 60
-        s = rem % 60
+        h, rem = divmod(int(seconds), 3600)
+        m, s = divmod(rem, 60)
         return f"{h}:{m:02d}:{s:02d}"
     else:
         return f"{seconds:.2f}"
-- 
2.43.0


From 782637e237da53e8549f38e0e5182620470a1a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:05 +0000
Subject: [PATCH 16/24] fix: off-diagonal term of the contravariant 3-D metric

---
 wx_factory/geometry/metric3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wx_factory/geometry/metric3d.py b/wx_factory/geometry/metric3d.py
index 80cafeb..72ed2ca 100644
--- a/wx_factory/geometry/metric3d.py
+++ b/wx_factory/geometry/metric3d.py
@@ -215,7 +215,7 @@ class Metric3DTopo:
         ):
             delta2 = 1 + X**2 + Y**2
             metric_contra[0, 0, :, :, :] = delta2 / (1 + X**2)
-            metric_contra[0, 1, :, :, :] = delta2 * X * Y / ((1 + X**2) + (1 + Y**2))
+            metric_contra[0, 1, :, :, :] = delta2 * X * Y / ((1 + X**2) * (1 + Y**2))
             metric_contra[1, 0, :, :, :] = metric_contra[0, 1, :, :, :]
             metric_contra[1, 1, :, :, :] = delta2 / (1 + Y**2)
 
-- 
2.43.0


From 721f4b41fa575e98e5f04383adbed4a34f61f254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:05 +0000
Subject: [PATCH 17/24] fix: Coriolis terms of the 3-D Christoffel symbols on
 rotated panels

---
 wx_factory/geometry/metric3d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wx_factory/geometry/metric3d.py b/wx_factory/geometry/metric3d.py
index 72ed2ca..008ca80 100644
--- a/wx_factory/geometry/metric3d.py
+++ b/wx_factory/geometry/metric3d.py
@@ -679,7 +679,7 @@ class Metric3DTopo:
                 Omega * X_int * Y_int / deltasq * rot1 + dRdx1_int * Omega / (R_int * (1 + X_int**2)) * rot2
             )
             Christoffel_1_02 = (
-                -Omega * (-(1 + Y_int**2) / deltasq) * rot1 + dRdx2_int * Omega / (R_int * (1 + X_int**2)) * rot2
+                -Omega * (1 + Y_int**2) / deltasq * rot1 + dRdx2_int * Omega / (R_int * (1 + X_int**2)) * rot2
             )
             Christoffel_1_03 = dRdeta_int * Omega / (R_int * (1 + X_int**2)) * rot2
 
@@ -689,7 +689,7 @@ class Metric3DTopo:
         else:  # Shallow atmosphere, R->A
             Christoffel_1_01 = Omega * X_int * Y_int / deltasq * rot1 + dRdx1_int * Omega / (A * (1 + X_int**2)) * rot2
             Christoffel_1_02 = (
-                -Omega * (-(1 + Y_int**2) / deltasq) * rot1 + dRdx2_int * Omega / (A * (1 + X_int**2)) * rot2
+                -Omega * (1 + Y_int**2) / deltasq * rot1 + dRdx2_int * Omega / (A * (1 + X_int**2)) * rot2
             )
             Christoffel_1_03 = dRdeta_int * Omega / (A * (1 + X_int**2)) * rot2
 
@@ -708,7 +708,7 @@ class Metric3DTopo:
                 Omega * (1 + X_int**2) / deltasq * rot1 + dRdx1_int * Omega / (R_int * (1 + Y_int**2)) * rot3
             )
             Christoffel_2_02 = (
-                -Omega * X_int * Y_int / deltasq * rot2 + dRdx2_int * Omega / (R_int * (1 + Y_int**2)) * rot3
+                -Omega * X_int * Y_int / deltasq * rot1 + dRdx2_int * Omega / (R_int * (1 + Y_int**2)) * rot3
             )
             Christoffel_2_03 = dRdeta_int * Omega / (R_int * (1 + Y_int**2)) * rot3
 
@@ -720,7 +720,7 @@ class Metric3DTopo:
             Christoffel_2_23 = dRdeta_int / R_int
         else:  # Shallow
             Christoffel_2_01 = Omega * (1 + X_int**2) / deltasq * rot1 + dRdx1_int * Omega / (A * (1 + Y_int**2)) * rot3
-            Christoffel_2_02 = -Omega * X_int * Y_int / deltasq * rot2 + dRdx2_int * Omega / (A * (1 + Y_int**2)) * rot3
+            Christoffel_2_02 = -Omega * X_int * Y_int / deltasq * rot1 + dRdx2_int * Omega / (A * (1 + Y_int**2)) * rot3
             Christoffel_2_03 = dRdeta_int * Omega / (A * (1 + Y_int**2)) * rot3
 
             Christoffel_2_11 = 0
-- 
2.43.0


From 8e8c6987c18ef063b8d12c78746561d5b5690a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:43 +0000
Subject: [PATCH 18/24] fix: only the known output formats are accepted

---
 config/config-format.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config-format.json b/config/config-format.json
index 270598e..5bfddac 100644
--- a/config/config-format.json
+++ b/config/config-format.json
@@ -519,7 +519,7 @@
                     "name": "output_format",
                     "type": "str",
                     "default": "netcdf",
-                    "selectable": ["netcdf", "fst"],
+                    "selectables": ["netcdf", "fst"],
                     "description": "Desired format to use for storing simulation results."
                 }
             ]
-- 
2.43.0


From a2c4e2bf579515b92e9149aa51629eec19eb8ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:14 +0000
Subject: [PATCH 19/24] fix: fractional numbers in a list of integers are
 refused, not truncated

---
 wx_factory/common/configuration_schema.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wx_factory/common/configuration_schema.py b/wx_factory/common/configuration_schema.py
index 41916eb..885d80f 100644
--- a/wx_factory/common/configuration_schema.py
+++ b/wx_factory/common/configuration_schema.py
@@ -171,7 +171,9 @@ class ConfigurationField:
         try:
             return [self.type(parser.get(self.section, self.name))]
         except ValueError:
-            return [self.type(x) for x in json.loads(parser.get(self.section, self.name))]
+            # Fractional numbers are converted from text, like a single value, so that they are not truncated to integers
+            values = json.loads(parser.get(self.section, self.name))
+            return [self.type(str(x) if isinstance(x, float) else x) for x in values]
 
     def read(self, parser: ConfigParser) -> OptionType:
         """Read this field from the given parser and verify that it falls within its valid range."""
-- 
2.43.0


From 2158ebf8d9435ff8bcef7bde7568e1f69b40bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:38 +0000
Subject: [PATCH 20/24] fix: fgmres decides on stagnation with all processes

The test only looked at the local part of the solution, so that one process could
leave the solver while the others waited for it in a collective operation.
---
 wx_factory/solvers/fgmres.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wx_factory/solvers/fgmres.py b/wx_factory/solvers/fgmres.py
index 6cf5ce7..fcb34b0 100644
--- a/wx_factory/solvers/fgmres.py
+++ b/wx_factory/solvers/fgmres.py
@@ -258,11 +258,13 @@ def fgmres(
         # TODO : End cpu calculation here
         # Has GMRES stagnated?
         indices = x != 0
+        local_change = -1.0
         if indices.any():
-            change = xp.max(xp.abs(update[indices] / x[indices]))
-            if change < 1e-12:
-                # No change, halt
-                return x, norm_r, norm_b, niter, -1, residuals
+            local_change = xp.max(xp.abs(update[indices] / x[indices]))
+        change = comm.allreduce(local_change, op=MPI.MAX)  # All PEs must take the same decision
+        if 0.0 <= change < 1e-12:
+            # No change, halt
+            return x, norm_r, norm_b, niter, -1, residuals
 
         # test for convergence
         if norm_r < tol_relative:
-- 
2.43.0


From 818154dff8c7cb86029cb8ed2120c20d27d95ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:38 +0000
Subject: [PATCH 21/24] fix: fgmres returns an initial guess that already is
 the solution

The first Krylov vector was the residual divided by its norm, zero in that case.
---
 wx_factory/solvers/fgmres.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wx_factory/solvers/fgmres.py b/wx_factory/solvers/fgmres.py
index fcb34b0..411dd6e 100644
--- a/wx_factory/solvers/fgmres.py
+++ b/wx_factory/solvers/fgmres.py
@@ -175,6 +175,9 @@ def fgmres(
 
     residuals.append(((norm_r / norm_b).item(), time() - t_start, 0.0))
 
+    if norm_r == 0.0:  # The initial guess is the solution. There is no direction to search
+        return x, norm_r, norm_b, niter, 0, residuals
+
     for outer in range(maxiter):
         # NOTE: We are dealing with row-major matrices, but we store the transpose of H and V.
         H = xp.zeros((restart + 2, restart + 2))
-- 
2.43.0


From 648e3f3edb859cf279ba86d946ef67952832d8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:38 +0000
Subject: [PATCH 22/24] fix: exponential solvers restart with the right
 polynomial forcing

After a first substep, the augmented part of the vector has to be t^i/i! with i = p-1-k
(it was p+1-k): with two phi functions or more, the result was wrong as soon as the
interval was split in substeps.
---
 wx_factory/solvers/cwy_1s.py     | 2 +-
 wx_factory/solvers/cwy_ne.py     | 2 +-
 wx_factory/solvers/cwy_ne1s.py   | 2 +-
 wx_factory/solvers/dcgs2.py      | 2 +-
 wx_factory/solvers/icwy_1s.py    | 2 +-
 wx_factory/solvers/icwy_ne.py    | 2 +-
 wx_factory/solvers/icwy_ne1s.py  | 2 +-
 wx_factory/solvers/icwy_neiop.py | 2 +-
 wx_factory/solvers/kiops.py      | 2 +-
 wx_factory/solvers/kiops_nest.py | 2 +-
 wx_factory/solvers/pmex.py       | 2 +-
 wx_factory/solvers/pmex_1s.py    | 2 +-
 wx_factory/solvers/pmex_ne1s.py  | 2 +-
 13 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/wx_factory/solvers/cwy_1s.py b/wx_factory/solvers/cwy_1s.py
index bdb7901..ccf98ee 100644
--- a/wx_factory/solvers/cwy_1s.py
+++ b/wx_factory/solvers/cwy_1s.py
@@ -159,7 +159,7 @@ def cwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index 5efd894..61d53c2 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -147,7 +147,7 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/cwy_ne1s.py b/wx_factory/solvers/cwy_ne1s.py
index d22fe38..2055dbc 100644
--- a/wx_factory/solvers/cwy_ne1s.py
+++ b/wx_factory/solvers/cwy_ne1s.py
@@ -142,7 +142,7 @@ def cwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/dcgs2.py b/wx_factory/solvers/dcgs2.py
index 9ac2edd..98a289f 100644
--- a/wx_factory/solvers/dcgs2.py
+++ b/wx_factory/solvers/dcgs2.py
@@ -142,7 +142,7 @@ def dcgs2(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fal
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_1s.py b/wx_factory/solvers/icwy_1s.py
index 06c3010..a8f5793 100644
--- a/wx_factory/solvers/icwy_1s.py
+++ b/wx_factory/solvers/icwy_1s.py
@@ -153,7 +153,7 @@ def icwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_ne.py b/wx_factory/solvers/icwy_ne.py
index 075f316..086aeeb 100644
--- a/wx_factory/solvers/icwy_ne.py
+++ b/wx_factory/solvers/icwy_ne.py
@@ -142,7 +142,7 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_ne1s.py b/wx_factory/solvers/icwy_ne1s.py
index f220e7e..61f1c84 100644
--- a/wx_factory/solvers/icwy_ne1s.py
+++ b/wx_factory/solvers/icwy_ne1s.py
@@ -144,7 +144,7 @@ def icwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/icwy_neiop.py b/wx_factory/solvers/icwy_neiop.py
index 907fed3..f16774d 100644
--- a/wx_factory/solvers/icwy_neiop.py
+++ b/wx_factory/solvers/icwy_neiop.py
@@ -142,7 +142,7 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/kiops.py b/wx_factory/solvers/kiops.py
index 34a724b..3fa344d 100644
--- a/wx_factory/solvers/kiops.py
+++ b/wx_factory/solvers/kiops.py
@@ -158,7 +158,7 @@ def kiops(
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[0, n + k] = (tau_now**i) / math.factorial(i) * mu
             V[0, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/kiops_nest.py b/wx_factory/solvers/kiops_nest.py
index 1021819..1caee69 100644
--- a/wx_factory/solvers/kiops_nest.py
+++ b/wx_factory/solvers/kiops_nest.py
@@ -142,7 +142,7 @@ def kiops_nest(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/pmex.py b/wx_factory/solvers/pmex.py
index 16d1c7c..9c7a30a 100644
--- a/wx_factory/solvers/pmex.py
+++ b/wx_factory/solvers/pmex.py
@@ -141,7 +141,7 @@ def pmex(
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (tau_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/pmex_1s.py b/wx_factory/solvers/pmex_1s.py
index 04641fb..8456cc1 100644
--- a/wx_factory/solvers/pmex_1s.py
+++ b/wx_factory/solvers/pmex_1s.py
@@ -129,7 +129,7 @@ def pmex_1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, reu
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
diff --git a/wx_factory/solvers/pmex_ne1s.py b/wx_factory/solvers/pmex_ne1s.py
index b292a09..d1065e6 100644
--- a/wx_factory/solvers/pmex_ne1s.py
+++ b/wx_factory/solvers/pmex_ne1s.py
@@ -115,7 +115,7 @@ def pmex_ne1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, r
 
             # Update the last part of w
             for k in range(p - 1):
-                i = p - k + 1
+                i = p - k - 1
                 V[j, n + k] = (τ_now**i) / math.factorial(i) * mu
             V[j, n + p - 1] = mu
 
-- 
2.43.0


From 5387e4994b11cb28420d8e60c22581b0d814449e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:07 +0000
Subject: [PATCH 23/24] fix: exponential solvers keep the last column at a
 happy breakdown

The column of H was stored after the loop had been left, so that the exponential was taken
of a projection that lacks it. In cwy_ne, the names in that path were misspelled as well.
---
 wx_factory/solvers/cwy_ne.py     | 7 ++++---
 wx_factory/solvers/icwy_ne.py    | 3 ++-
 wx_factory/solvers/icwy_neiop.py | 3 ++-
 wx_factory/solvers/pmex.py       | 3 ++-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index 61d53c2..b60eb28 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -231,9 +231,9 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             if global_temp_vec[-1, 1] < sum_sqrt:
                 local_sum = V[j, 0:n] @ V[j, 0:n]
-                global_sum_nrm = numpy.empty_link(local_sum)
+                global_sum_nrm = numpy.empty_like(local_sum)
                 MPI.COMM_WORLD.Allreduce([local_sum, MPI.DOUBLE], [global_sum_nrm, MPI.DOUBLE])
-                nrm = math.sqrt(gloal_sum_nrm + V[j, n : n + p] @ V[j, n : n + p])
+                nrm = math.sqrt(global_sum_nrm + V[j, n : n + p] @ V[j, n : n + p])
                 reg_comm += 1
             else:
                 # compute norm estimate in quad precision
@@ -244,6 +244,8 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
                 # nrm = math.sqrt(global_temp_vec[-1,1] - sum_sqrd)
 
+            H[0:j, j - 1] = tmp2
+
             # Happy breakdown
             if nrm < tol:
                 happy = True
@@ -251,7 +253,6 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
 
             # 7. Normalize
             H[j, j - 1] = nrm
-            H[0:j, j - 1] = tmp2
             V[j, :] /= nrm
 
             krystep += 1
diff --git a/wx_factory/solvers/icwy_ne.py b/wx_factory/solvers/icwy_ne.py
index 086aeeb..e7e321d 100644
--- a/wx_factory/solvers/icwy_ne.py
+++ b/wx_factory/solvers/icwy_ne.py
@@ -197,13 +197,14 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
 
                 # nrm = math.sqrt(global_temp[-1,1] - sum_sqrd)
 
+            H[0:j, j - 1] = tmp2
+
             # Happy breakdown
             if nrm < tol:
                 happy = True
                 break
 
             H[j, j - 1] = nrm
-            H[0:j, j - 1] = tmp2
             V[j, :] /= nrm
 
             krystep += 1
diff --git a/wx_factory/solvers/icwy_neiop.py b/wx_factory/solvers/icwy_neiop.py
index f16774d..691b834 100644
--- a/wx_factory/solvers/icwy_neiop.py
+++ b/wx_factory/solvers/icwy_neiop.py
@@ -199,13 +199,14 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
             else:
                 nrmish = math.sqrt(global_temp[-1, 1] - sum_sqrd)
 
+            H[indx:j, j - 1] = tmp
+
             # Happy breakdown
             if nrmish < tol:
                 happy = True
                 break
 
             H[j, j - 1] = nrmish
-            H[indx:j, j - 1] = tmp
             V[j, :] /= nrmish
 
             krystep += 1
diff --git a/wx_factory/solvers/pmex.py b/wx_factory/solvers/pmex.py
index 9c7a30a..970ead7 100644
--- a/wx_factory/solvers/pmex.py
+++ b/wx_factory/solvers/pmex.py
@@ -219,6 +219,8 @@ def pmex(
                 # compute norm estimate in quad precision
                 curr_nrm = device.xp.array(device.xp.sqrt(global_vec[-1, 1] - sum_sqrd), device.xp.float64)
 
+            H[0:j, j - 1] = sol
+
             # Happy breakdown
             if curr_nrm < tol:
                 happy = True
@@ -227,7 +229,6 @@ def pmex(
             # Normalize vector and set norm to H matrix
             V[j, :] /= curr_nrm
             H[j, j - 1] = curr_nrm
-            H[0:j, j - 1] = sol
 
             krystep += 1
 
-- 
2.43.0


From 755a24bd2734b933bd47ff10b9acdfbbbeb4adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:20 +0000
Subject: [PATCH 24/24] fix: exponential solvers accept the phi_0 vector alone

The row of zeros that is added then had the wrong length, and numpy.row_stack no longer exists.
---
 wx_factory/solvers/cwy_1s.py     | 2 +-
 wx_factory/solvers/cwy_ne.py     | 2 +-
 wx_factory/solvers/cwy_ne1s.py   | 2 +-
 wx_factory/solvers/dcgs2.py      | 2 +-
 wx_factory/solvers/exode.py      | 2 +-
 wx_factory/solvers/icwy_1s.py    | 2 +-
 wx_factory/solvers/icwy_ne.py    | 2 +-
 wx_factory/solvers/icwy_ne1s.py  | 2 +-
 wx_factory/solvers/icwy_neiop.py | 2 +-
 wx_factory/solvers/kiops.py      | 2 +-
 wx_factory/solvers/kiops_nest.py | 2 +-
 wx_factory/solvers/pmex.py       | 2 +-
 wx_factory/solvers/pmex_1s.py    | 2 +-
 wx_factory/solvers/pmex_ne1s.py  | 2 +-
 14 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/wx_factory/solvers/cwy_1s.py b/wx_factory/solvers/cwy_1s.py
index ccf98ee..b1790b9 100644
--- a/wx_factory/solvers/cwy_1s.py
+++ b/wx_factory/solvers/cwy_1s.py
@@ -65,7 +65,7 @@ def cwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/cwy_ne.py b/wx_factory/solvers/cwy_ne.py
index b60eb28..2349ae6 100644
--- a/wx_factory/solvers/cwy_ne.py
+++ b/wx_factory/solvers/cwy_ne.py
@@ -62,7 +62,7 @@ def cwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fa
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/cwy_ne1s.py b/wx_factory/solvers/cwy_ne1s.py
index 2055dbc..6dbc479 100644
--- a/wx_factory/solvers/cwy_ne1s.py
+++ b/wx_factory/solvers/cwy_ne1s.py
@@ -62,7 +62,7 @@ def cwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/dcgs2.py b/wx_factory/solvers/dcgs2.py
index 98a289f..12eb36e 100644
--- a/wx_factory/solvers/dcgs2.py
+++ b/wx_factory/solvers/dcgs2.py
@@ -63,7 +63,7 @@ def dcgs2(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=Fal
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/exode.py b/wx_factory/solvers/exode.py
index 81f6d61..97f7b29 100644
--- a/wx_factory/solvers/exode.py
+++ b/wx_factory/solvers/exode.py
@@ -31,7 +31,7 @@ def exode(
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     y0 = u[0].copy()
 
diff --git a/wx_factory/solvers/icwy_1s.py b/wx_factory/solvers/icwy_1s.py
index a8f5793..515fb44 100644
--- a/wx_factory/solvers/icwy_1s.py
+++ b/wx_factory/solvers/icwy_1s.py
@@ -63,7 +63,7 @@ def icwy_1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/icwy_ne.py b/wx_factory/solvers/icwy_ne.py
index e7e321d..fd18158 100644
--- a/wx_factory/solvers/icwy_ne.py
+++ b/wx_factory/solvers/icwy_ne.py
@@ -62,7 +62,7 @@ def icwy_ne(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1=F
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/icwy_ne1s.py b/wx_factory/solvers/icwy_ne1s.py
index 61f1c84..78a30d3 100644
--- a/wx_factory/solvers/icwy_ne1s.py
+++ b/wx_factory/solvers/icwy_ne1s.py
@@ -61,7 +61,7 @@ def icwy_ne1s(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task1
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/icwy_neiop.py b/wx_factory/solvers/icwy_neiop.py
index 691b834..cdc6267 100644
--- a/wx_factory/solvers/icwy_neiop.py
+++ b/wx_factory/solvers/icwy_neiop.py
@@ -62,7 +62,7 @@ def icwy_neiop(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/kiops.py b/wx_factory/solvers/kiops.py
index 3fa344d..dc88209 100644
--- a/wx_factory/solvers/kiops.py
+++ b/wx_factory/solvers/kiops.py
@@ -80,7 +80,7 @@ def kiops(
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = xp.row_stack((u, xp.zeros(len(u))))
+        u = xp.vstack((u, xp.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/kiops_nest.py b/wx_factory/solvers/kiops_nest.py
index 1caee69..7079625 100644
--- a/wx_factory/solvers/kiops_nest.py
+++ b/wx_factory/solvers/kiops_nest.py
@@ -63,7 +63,7 @@ def kiops_nest(τ_out, A, u, tol=1e-7, m_init=10, mmin=10, mmax=128, iop=2, task
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     # We only allow m to vary between mmin and mmax
     m = max(mmin, min(m_init, mmax))
diff --git a/wx_factory/solvers/pmex.py b/wx_factory/solvers/pmex.py
index 970ead7..2254e33 100644
--- a/wx_factory/solvers/pmex.py
+++ b/wx_factory/solvers/pmex.py
@@ -53,7 +53,7 @@ def pmex(
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = device.xp.row_stack((u, device.xp.zeros(len(u))))
+        u = device.xp.vstack((u, device.xp.zeros((1, n))))
 
     step = 0
     krystep = 0
diff --git a/wx_factory/solvers/pmex_1s.py b/wx_factory/solvers/pmex_1s.py
index 8456cc1..9880732 100644
--- a/wx_factory/solvers/pmex_1s.py
+++ b/wx_factory/solvers/pmex_1s.py
@@ -19,7 +19,7 @@ def pmex_1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, reu
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     step = 0
     krystep = 0
diff --git a/wx_factory/solvers/pmex_ne1s.py b/wx_factory/solvers/pmex_ne1s.py
index d1065e6..837bbd3 100644
--- a/wx_factory/solvers/pmex_ne1s.py
+++ b/wx_factory/solvers/pmex_ne1s.py
@@ -17,7 +17,7 @@ def pmex_ne1s(τ_out, A, u, tol=1e-7, delta=1.2, m_init=10, mmin=10, mmax=128, r
     if p == 0:
         p = 1
         # Add extra column of zeros
-        u = numpy.row_stack((u, numpy.zeros(len(u))))
+        u = numpy.vstack((u, numpy.zeros((1, n))))
 
     step = 0
     krystep = 0
-- 
2.43.0

