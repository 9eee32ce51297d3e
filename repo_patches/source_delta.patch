From ab77b4cde0f4e029afec04fbc6e357f00ae2ea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 01/40] fix: a single-cell axis has zero derivative (1-D grids)

The derivative along an axis with one cell was the identity, which added a
spurious 1/mu_0 term to the system matrix (and a spurious H component) of every
1-D simulation.
---
 angler/derivatives.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/angler/derivatives.py b/angler/derivatives.py
index 8bbba51..04b06ac 100644
--- a/angler/derivatives.py
+++ b/angler/derivatives.py
@@ -26,7 +26,8 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
                 dxb = sp.diags([1, -1, -1], [0, -1, Nx-1], shape=(Nx, Nx))
                 Dws = 1/dx*sp.kron(dxb, sp.eye(Ny), format=matrix_format)
         else:
-            Dws = sp.eye(Ny)            
+            # a single (periodic) cell has no variation along x
+            Dws = sp.csr_matrix((Ny, Ny))
     if w is 'y':
         if Ny > 1:
             if s is 'f':
@@ -36,7 +37,8 @@ def createDws(w, s, dL, N, matrix_format=DEFAULT_MATRIX_FORMAT):
                 dyb = sp.diags([1, -1, -1], [0, -1, Ny-1], shape=(Ny, Ny))
                 Dws = 1/dy*sp.kron(sp.eye(Nx), dyb, format=matrix_format)
         else:
-            Dws = sp.eye(Nx)
+            # a single (periodic) cell has no variation along y
+            Dws = sp.csr_matrix((Nx, Nx))
     return Dws
 
 
-- 
2.43.0


From d3aa420fbd836c1354408a5a34f829c33bc7d279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:54 +0000
Subject: [PATCH 02/40] fix: place the PML on exactly NPML cells at both ends
 of an axis

The s-factor loops were ported from 1-based indexing without shifting the index:
the low end had NPML+1 absorbing cells and the high end only NPML-1 (none at all
for NPML=1), so waves were reflected from the right/top boundary and a mirrored
structure did not give the mirrored field.
---
 angler/pml.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/angler/pml.py b/angler/pml.py
index 412f3be..4906d07 100644
--- a/angler/pml.py
+++ b/angler/pml.py
@@ -27,15 +27,15 @@ def create_sfactor(wrange, L0, s, omega, Nw, Nw_pml):
     dw = Nw_pml*hw
     for i in range(0, Nw):
         if s is 'f':
-            if i <= Nw_pml:
-                sfactor_array[i] = S(hw * (Nw_pml - i + 0.5), dw, omega, L0)
-            elif i > Nw - Nw_pml:
-                sfactor_array[i] = S(hw * (i - (Nw - Nw_pml) - 0.5), dw, omega, L0)
+            if i < Nw_pml:
+                sfactor_array[i] = S(hw * (Nw_pml - i - 0.5), dw, omega, L0)
+            elif i >= Nw - Nw_pml:
+                sfactor_array[i] = S(hw * (i - (Nw - Nw_pml) + 0.5), dw, omega, L0)
         if s is 'b':
-            if i <= Nw_pml:
-                sfactor_array[i] = S(hw * (Nw_pml - i + 1), dw, omega, L0)
-            elif i > Nw - Nw_pml:
-                sfactor_array[i] = S(hw * (i - (Nw - Nw_pml) - 1), dw, omega, L0)
+            if i < Nw_pml:
+                sfactor_array[i] = S(hw * (Nw_pml - i), dw, omega, L0)
+            elif i >= Nw - Nw_pml:
+                sfactor_array[i] = S(hw * (i - (Nw - Nw_pml)), dw, omega, L0)
     return sfactor_array
 
 
-- 
2.43.0


From e5ad4256a146864c4c05df74e6834c4d32c192c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:54 +0000
Subject: [PATCH 03/40] fix: Hz fields use the same edge-averaged permittivity
 as the system matrix

construct_A averages the permittivity to the cell edges by default, but
solve_fields computed Ex and Ey from the unaveraged one, so at material
interfaces the returned (Ex, Ey, Hz) did not satisfy Maxwell's equations.
---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 244f1ae..76496f1 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -110,7 +110,7 @@ class Simulation:
         self.fields = {f: None for f in ['Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz']}
         self.fields_nl = {f: None for f in ['Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz']}
 
-    def solve_fields(self, include_nl=False, timing=False, averaging=False,
+    def solve_fields(self, include_nl=False, timing=False, averaging=True,
                      matrix_format=DEFAULT_MATRIX_FORMAT):
         # performs direct solve for A given source
 
-- 
2.43.0


From 6a64e0b9e68a22b619c00e0599d6427013b176b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:26 +0000
Subject: [PATCH 04/40] fix: adjoint gradients for Hz-polarized objectives (Hz,
 Ex, Ey)

They were evaluated with the forward-difference operators and the unaveraged
permittivity, neither of which the forward problem uses; the adjoint source of
Ex/Ey had the order of 1/eps and the derivative swapped, and the explicit
dependence of Ex/Ey on the permittivity was missing.  check_deriv() now agrees
with the finite differences for all three components.
---
 angler/adjoint.py   |   2 +-
 angler/gradients.py | 111 +++++++++++++++++++-------------------------
 angler/linalg.py    |   8 ++++
 3 files changed, 57 insertions(+), 64 deletions(-)

diff --git a/angler/adjoint.py b/angler/adjoint.py
index a3ad326..6ec273f 100644
--- a/angler/adjoint.py
+++ b/angler/adjoint.py
@@ -26,7 +26,7 @@ def adjoint_linear_Ez(simulation, b_aj, averaging=False, solver=DEFAULT_SOLVER,
     return Ez
 
 
-def adjoint_linear_Hz(simulation, b_aj, averaging=False, solver=DEFAULT_SOLVER, matrix_format=DEFAULT_MATRIX_FORMAT):
+def adjoint_linear_Hz(simulation, b_aj, averaging=True, solver=DEFAULT_SOLVER, matrix_format=DEFAULT_MATRIX_FORMAT):
     # Compute the adjoint field for a linear problem
     # Note: the correct definition requires simulating with the transpose matrix A.T
     EPSILON_0_ = EPSILON_0*simulation.L0
diff --git a/angler/gradients.py b/angler/gradients.py
index 1f34835..4681a2f 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -7,7 +7,7 @@ from angler.filter import (eps2rho, rho2eps, get_W, deps_drhob, drhob_drhot,
                     drhot_drho, rho2rhot, drhot_drho, rhot2rhob)
 from angler.constants import *
 from angler.derivatives import unpack_derivs
-from angler.linalg import grid_average
+from angler.linalg import grid_average, grid_average_T
 
 """ This is where the gradients are defined
     These are selected when you define an objective function
@@ -225,13 +225,13 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
 ####################################################################################################################################
 
 
-def grad_linear_Hz(optimization, dJ, Hz, args, averaging=False):
+def grad_linear_Hz(optimization, dJ, Hz, args, averaging=True):
 
     EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
     MU_0_ = MU_0*optimization.simulation.L0
     omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
+    Dxb = optimization.simulation.derivs['Dxb']
+    Dyb = optimization.simulation.derivs['Dyb']
 
     eps_tot = optimization.simulation.eps_r
     M = eps_tot.size
@@ -273,35 +273,28 @@ def grad_linear_Hz(optimization, dJ, Hz, args, averaging=False):
     filt_mat = drhot_drho(optimization.W)
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
-    if averaging:
-
-        design_region_x = grid_average(optimization.design_region, 'x')
-        dAdeps_x = design_region_x*omega**2*EPSILON_0_            
-        design_region_y = grid_average(optimization.design_region, 'y')
-        dAdeps_y = design_region_y*omega**2*EPSILON_0_
-        dAdeps_vec_x = np.reshape(dAdeps_x, (-1,))
-        dAdeps_vec_y = np.reshape(dAdeps_y, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec_x)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec_x)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+    dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
+    dAdeps_vec = np.reshape(dAdeps, (-1,))
 
-    else:
+    # Ex and Ey see the permittivity at the cell edges
+    overlap_x = np.reshape(Ex_vec*Ex_aj_vec, rho.shape)
+    overlap_y = np.reshape(Ey_vec*Ey_aj_vec, rho.shape)
+    if averaging:
+        overlap_x = grid_average_T(overlap_x, 'y')
+        overlap_y = grid_average_T(overlap_y, 'x')
 
-        dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
-        dAdeps_vec = np.reshape(dAdeps, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+    dfdrho = eps_mat*filt_mat.multiply(proj_mat*dAdeps_vec)
+    sensitivity_vec = dfdrho.dot(np.reshape(overlap_x + overlap_y, (-1,)))
 
     return 1*np.real(np.reshape(sensitivity_vec, rho.shape))    
 
-def grad_linear_Ex(optimization, dJ, Hz, args, averaging=False):
+def grad_linear_Ex(optimization, dJ, Hz, args, averaging=True):
 
     EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
     MU_0_ = MU_0*optimization.simulation.L0
     omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
+    Dxb = optimization.simulation.derivs['Dxb']
+    Dyb = optimization.simulation.derivs['Dyb']
 
     eps_tot = optimization.simulation.eps_r
     M = eps_tot.size
@@ -328,13 +321,16 @@ def grad_linear_Ex(optimization, dJ, Hz, args, averaging=False):
     partial = -dJ(*args)
     partial_vec = partial.reshape((-1,))
 
-    b_aj_vec =  1/1j/omega * T_eps_y_inv.dot(Dyb.T).dot(partial_vec)
+    b_aj_vec =  1/1j/omega * Dyb.T.dot(T_eps_y_inv).dot(partial_vec)
     b_aj = b_aj_vec.reshape(Hz.shape)
 
     (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)   
     Ex_aj_vec = np.reshape(Ex_aj, (-1,)).T
     Ey_aj_vec = np.reshape(Ey_aj, (-1,)).T
 
+    # Ex also depends on the permittivity explicitly (Ex ~ 1/eps * Dyb * Hz)
+    Ex_aj_vec = Ex_aj_vec + partial_vec/omega**2/vector_eps_y
+
     # set up filtering bits
     rho = optimization.simulation.rho
     rho_t = rho2rhot(rho, optimization.W)
@@ -344,35 +340,28 @@ def grad_linear_Ex(optimization, dJ, Hz, args, averaging=False):
     filt_mat = drhot_drho(optimization.W)
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
-    if averaging:
-
-        design_region_x = grid_average(optimization.design_region, 'x')
-        dAdeps_x = design_region_x*omega**2*EPSILON_0_            
-        design_region_y = grid_average(optimization.design_region, 'y')
-        dAdeps_y = design_region_y*omega**2*EPSILON_0_
-        dAdeps_vec_x = np.reshape(dAdeps_x, (-1,))
-        dAdeps_vec_y = np.reshape(dAdeps_y, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec_x)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec_x)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+    dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
+    dAdeps_vec = np.reshape(dAdeps, (-1,))
 
-    else:
+    # Ex and Ey see the permittivity at the cell edges
+    overlap_x = np.reshape(Ex_vec*Ex_aj_vec, rho.shape)
+    overlap_y = np.reshape(Ey_vec*Ey_aj_vec, rho.shape)
+    if averaging:
+        overlap_x = grid_average_T(overlap_x, 'y')
+        overlap_y = grid_average_T(overlap_y, 'x')
 
-        dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
-        dAdeps_vec = np.reshape(dAdeps, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+    dfdrho = eps_mat*filt_mat.multiply(proj_mat*dAdeps_vec)
+    sensitivity_vec = dfdrho.dot(np.reshape(overlap_x + overlap_y, (-1,)))
 
     return 1*np.real(np.reshape(sensitivity_vec, rho.shape)) 
 
-def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
+def grad_linear_Ey(optimization, dJ, Hz, args, averaging=True):
 
     EPSILON_0_ = EPSILON_0 * optimization.simulation.L0
     MU_0_ = MU_0*optimization.simulation.L0
     omega = optimization.simulation.omega
-    Dxb = optimization.simulation.derivs['Dxf']
-    Dyb = optimization.simulation.derivs['Dyf']
+    Dxb = optimization.simulation.derivs['Dxb']
+    Dyb = optimization.simulation.derivs['Dyb']
 
     eps_tot = optimization.simulation.eps_r
     M = eps_tot.size
@@ -399,13 +388,16 @@ def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
     partial = -dJ(*args)
     partial_vec = partial.reshape((-1,))
 
-    b_aj_vec = -1/1j/omega * T_eps_x_inv.dot(Dxb.T).dot(partial_vec)
+    b_aj_vec = -1/1j/omega * Dxb.T.dot(T_eps_x_inv).dot(partial_vec)
     b_aj = b_aj_vec.reshape(Hz.shape)
 
     (Ex_aj, Ey_aj) = adjoint_linear_Hz(optimization.simulation, b_aj, averaging=averaging)   
     Ex_aj_vec = np.reshape(Ex_aj, (-1,)).T
     Ey_aj_vec = np.reshape(Ey_aj, (-1,)).T
 
+    # Ey also depends on the permittivity explicitly (Ey ~ 1/eps * Dxb * Hz)
+    Ey_aj_vec = Ey_aj_vec + partial_vec/omega**2/vector_eps_x
+
     # set up filtering bits
     rho = optimization.simulation.rho
     rho_t = rho2rhot(rho, optimization.W)
@@ -415,25 +407,18 @@ def grad_linear_Ey(optimization, dJ, Hz, args, averaging=False):
     filt_mat = drhot_drho(optimization.W)
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
-    if averaging:
-
-        design_region_x = grid_average(optimization.design_region, 'x')
-        dAdeps_x = design_region_x*omega**2*EPSILON_0_            
-        design_region_y = grid_average(optimization.design_region, 'y')
-        dAdeps_y = design_region_y*omega**2*EPSILON_0_
-        dAdeps_vec_x = np.reshape(dAdeps_x, (-1,))
-        dAdeps_vec_y = np.reshape(dAdeps_y, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec_x)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec_x)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+    dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
+    dAdeps_vec = np.reshape(dAdeps, (-1,))
 
-    else:
+    # Ex and Ey see the permittivity at the cell edges
+    overlap_x = np.reshape(Ex_vec*Ex_aj_vec, rho.shape)
+    overlap_y = np.reshape(Ey_vec*Ey_aj_vec, rho.shape)
+    if averaging:
+        overlap_x = grid_average_T(overlap_x, 'y')
+        overlap_y = grid_average_T(overlap_y, 'x')
 
-        dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
-        dAdeps_vec = np.reshape(dAdeps, (-1,))
-        dfdrho_x = eps_mat*filt_mat.multiply(Ex_vec*proj_mat*dAdeps_vec)
-        dfdrho_y = eps_mat*filt_mat.multiply(Ey_vec*proj_mat*dAdeps_vec)
-        sensitivity_vec = dfdrho_x.dot(Ex_aj_vec) + dfdrho_y.dot(Ey_aj_vec)    
+    dfdrho = eps_mat*filt_mat.multiply(proj_mat*dAdeps_vec)
+    sensitivity_vec = dfdrho.dot(np.reshape(overlap_x + overlap_y, (-1,)))
 
     return 1*np.real(np.reshape(sensitivity_vec, rho.shape))
 
diff --git a/angler/linalg.py b/angler/linalg.py
index 6a62179..7cf3261 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -25,6 +25,14 @@ def grid_average(center_array, w):
     return avg_array
 
 
+def grid_average_T(edge_array, w):
+    # transpose of grid_average: gives edge values back to the cells they average
+
+    xy = {'x': 0, 'y': 1}
+    edge_shifted = np.roll(edge_array, -1, axis=xy[w])
+    return (edge_shifted+edge_array)/2
+
+
 def dL(N, xrange, yrange=None):
     # solves for the grid spacing
 
-- 
2.43.0


From af9dc2ee970f1ef085aaeae04dc8c2138928833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:26 +0000
Subject: [PATCH 05/40] fix: NameError in the Kerr gradients of Hx and Hy
 objectives

---
 angler/gradients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/gradients.py b/angler/gradients.py
index 4681a2f..c4b307f 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -153,7 +153,7 @@ def grad_kerr_Hx(optimization, dJ, Ez_nl, args):
     omega = optimization.simulation.omega
 
     b_aj_vec = -1/1j/omega/MU_0_ * Dyb.T.dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Ez.shape)
+    b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
     Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
@@ -191,7 +191,7 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
     omega = optimization.simulation.omega
 
     b_aj_vec = 1/1j/omega/MU_0_ * Dxb.T.dot(partial_vec)
-    b_aj = b_aj_vec.reshape(Ez.shape)
+    b_aj = b_aj_vec.reshape(Ez_nl.shape)
 
     # everything else is the same
     Ez_aj = adjoint_kerr_Ez(optimization.simulation, b_aj)
-- 
2.43.0


From 0ea78f79bcf889c6b8a778847553cf1020bf6254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:26 +0000
Subject: [PATCH 06/40] fix: periodic wrap-around of the density filter

wrap(-1, N) gave N-2 and wrap(N, N) gave N, so on a periodic (NPML = 0) axis the
filter averaged over the wrong cells, or indexed past the grid.
---
 angler/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/filter.py b/angler/filter.py
index 27b18d3..1c700a6 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -8,7 +8,7 @@ from autograd import grad
 from functools import partial
 
 def wrap(i, N):
-    return i + (i >= N)*(i - N) + (i < 0)*(i + N)
+    return i % N
 
 def dist(r1, r2):
     return np.sqrt(np.sum(np.square(r1 - r2)))
-- 
2.43.0


From db1a454a26e6faed92237b4e22caf52ccdbf4f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:04 +0000
Subject: [PATCH 07/40] fix: density filter is a weighted average and the
 gradients use its transpose

The filter weights were normalised by columns, so a uniform density did not stay
uniform and cells in the PML margin were silently emptied.  The chain rule needs
the transpose of the (now row-normalised, non-symmetric) filter matrix.
---
 angler/filter.py    |  4 +++-
 angler/gradients.py | 18 +++++++++---------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/angler/filter.py b/angler/filter.py
index 1c700a6..a446adb 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -77,11 +77,13 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
 
     W_des = W.dot(des_mat) + no_des_mat
 
+    # each filtered cell is a weighted average: its weights must sum to one
     norm_vec = W.dot(np.ones((Nx*Ny,)))
+    unfiltered = 1.0*(norm_vec == 0)    # cells too close to the PML to be filtered
     norm_vec[norm_vec == 0] = 1
     norm_mat = sp.diags(1/norm_vec, shape=(N, N))
 
-    W = W.dot(norm_mat)
+    W = norm_mat.dot(W) + sp.diags(unfiltered, shape=(N, N))
 
     return des_mat.dot(W) + no_des_mat
 
diff --git a/angler/gradients.py b/angler/gradients.py
index c4b307f..9f3e646 100644
--- a/angler/gradients.py
+++ b/angler/gradients.py
@@ -28,7 +28,7 @@ def grad_linear_Ez(optimization, dJ, Ez, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez, (-1,))
@@ -66,7 +66,7 @@ def grad_linear_Hx(optimization, dJ, Ez, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez, (-1,))
@@ -104,7 +104,7 @@ def grad_linear_Hy(optimization, dJ, Ez, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez, (-1,))
@@ -133,7 +133,7 @@ def grad_kerr_Ez(optimization, dJ, Ez_nl, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez_nl, (-1,))
@@ -169,7 +169,7 @@ def grad_kerr_Hx(optimization, dJ, Ez_nl, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez_nl, (-1,))
@@ -207,7 +207,7 @@ def grad_kerr_Hy(optimization, dJ, Ez_nl, args):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     Ez_vec = np.reshape(Ez_nl, (-1,))
@@ -270,7 +270,7 @@ def grad_linear_Hz(optimization, dJ, Hz, args, averaging=True):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
@@ -337,7 +337,7 @@ def grad_linear_Ex(optimization, dJ, Hz, args, averaging=True):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
@@ -404,7 +404,7 @@ def grad_linear_Ey(optimization, dJ, Hz, args, averaging=True):
     rho_b = rhot2rhob(rho_t, eta=optimization.eta, beta=optimization.beta)
     eps_mat = (optimization.eps_m - 1)
 
-    filt_mat = drhot_drho(optimization.W)
+    filt_mat = drhot_drho(optimization.W).T
     proj_mat = drhob_drhot(rho_t, eta=optimization.eta, beta=optimization.beta)
 
     dAdeps = optimization.design_region*omega**2*EPSILON_0_    # Note: physical constants go here if need be!
-- 
2.43.0


From 91e8416f5e04e0a5ba477953b77cecfd79b838b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:29 +0000
Subject: [PATCH 08/40] fix: eps_r setter reshapes 1-D permittivities and keeps
 the grid spacing

---
 angler/simulation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 76496f1..317df7a 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -94,12 +94,16 @@ class Simulation:
         grid_shape = new_eps.shape
         if len(grid_shape) == 1:
             grid_shape = (grid_shape[0], 1)
-            new_eps.reshape(grid_shape)
+            new_eps = np.reshape(new_eps, grid_shape)
 
         (Nx, Ny) = grid_shape
         self.Nx = Nx
         self.Ny = Ny
 
+        # the grid spacing stays dl if the new permittivity has another shape
+        self.xrange = [0, float(self.Nx*self.dl)]
+        self.yrange = [0, float(self.Ny*self.dl)]
+
         self.__eps_r = new_eps
         (A, derivs) = construct_A(self.omega, self.xrange, self.yrange,
                                   self.eps_r, self.NPML, self.pol, self.L0,
-- 
2.43.0


From 6608abbb5d1b8ca558e7cbd7cdc85a7fb55bf379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:29 +0000
Subject: [PATCH 09/40] fix: init_design_region(style='halfway') must not write
 into the caller's array

---
 angler/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 317df7a..e915d16 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -318,7 +318,7 @@ class Simulation:
 
         elif style == 'halfway':
             # halfway between 1 and eps_m in design region
-            eps_halfway = self.eps_r
+            eps_halfway = self.eps_r.copy()
             eps_halfway[design_region == 1] = eps_m/2 + 1/2
             self.eps_r = eps_halfway
 
-- 
2.43.0


From bf4dcb75327a59912e308d1f782d90dd67a02624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:23 +0000
Subject: [PATCH 10/40] fix: an optimization may start from a simulation
 without a material density

---
 angler/optimization.py | 17 ++++++++++++-----
 angler/simulation.py   |  1 +
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 57d3f63..2e4a499 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -74,6 +74,12 @@ class Optimization():
             self.fields_current = True
 
 
+    def _check_rho(self):
+        """ Gets the material density from the permittivity if the simulation has none yet"""
+
+        if self.simulation.rho is None:
+            self.simulation.rho = eps2rho(self.simulation.eps_r, self.eps_m)
+
     def compute_J(self, simulation):
         """ Returns the current objective function of a simulation"""
 
@@ -86,6 +92,9 @@ class Optimization():
     def compute_dJ(self, simulation, design_region):
         """ Returns the current grad of a simulation"""
 
+        # the gradients are evaluated at the current material density
+        self._check_rho()
+
         # stores all of the fields for the objective function in self.field_arg_list
         self._solve_objfn_arg_fields(simulation)
 
@@ -104,6 +113,7 @@ class Optimization():
     def check_deriv(self, Npts=5, d_rho=1e-3):
         """ Returns a list of analytical and numerical derivatives to check grad accuracy"""
 
+        self._check_rho()
         self.fields_current = False
         self.simulation.eps_r = rho2eps(rho=self.simulation.rho, eps_m=self.eps_m, W=self.W,
                                         eta=self.eta, beta=self.beta)
@@ -191,11 +201,8 @@ class Optimization():
 
         self._check_temp_plt()
 
-        # get the material density from the simulation if only the first time being run
-        if self.simulation.rho is None:
-            eps = copy.deepcopy(self.simulation.eps_r)
-            self.simulation.rho = eps2rho(eps)
-        
+        self._check_rho()
+
         self.fields_current = False
         
         allowed = ['LBFGS', 'GD', 'ADAM']
diff --git a/angler/simulation.py b/angler/simulation.py
index e915d16..2fc9bf6 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -48,6 +48,7 @@ class Simulation:
         # construct the system matrix
         self.eps_r = eps_r
 
+        self.rho = None     # material density (set by init_design_region or an Optimization)
         self.modes = []
         self.nonlinearity = []
         self.eps_nl = np.zeros(eps_r.shape)
-- 
2.43.0


From 4772e929cb955e354ff970686ab96e6afd355e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:23 +0000
Subject: [PATCH 11/40] fix: an all-zero design vector is applied to the
 simulation

The relative change was 0/0 or x/0: an empty design was never written.
---
 angler/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 2e4a499..c867e4c 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -390,7 +390,7 @@ class Optimization():
         # Only update the rho if it actually differs from the current one
         # If it doesn't, we don't want to erase the stored fields
 
-        if np.linalg.norm(x - rho_vec[des_vec == 1])/np.linalg.norm(x) > 1e-10:
+        if np.linalg.norm(x - rho_vec[des_vec == 1]) > 1e-10*np.linalg.norm(x):
             rho_vec[des_vec == 1] = x
             rho_new = np.reshape(rho_vec, self.simulation.rho.shape)
             self.simulation.rho = rho_new
-- 
2.43.0


From 2e642b31b5f7d7e0b1303352bac684501f5c9929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:52 +0000
Subject: [PATCH 12/40] fix: the objective function and its gradient never use
 stale fields

fields_current was not reset by check_deriv, scan_frequency, a changed source or
permittivity, nor by passing another simulation.
---
 angler/optimization.py | 49 +++++++++++++-----------------------------
 1 file changed, 15 insertions(+), 34 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index c867e4c..34b89d6 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -41,7 +41,6 @@ class Optimization():
         # store things that will be used later
         self.src_amplitudes = []
         self.objfn_list = []
-        self.fields_current = False     # are the field_args current?  if not, will need to recompute
 
     def _solve_objfn_arg_fields(self, simulation):
         """ 
@@ -49,30 +48,23 @@ class Optimization():
             also checks if it's linear (and if so, doesnt solve_nl)
         """
 
-        # do something only if the fields are not current, or there are no stored fields
-        if not self.fields_current or not self.field_arg_list:
+        _ = simulation.solve_fields()
+        if not self.objective.is_linear():
+            _ = simulation.solve_fields_nl()
 
-            _ = simulation.solve_fields()
-            if not self.objective.is_linear():
-                _ = simulation.solve_fields_nl()
-
-            # prepare a list of arguments that correspond to obj_fn arguments
-            field_arg_list = []
-            for arg in self.objective.arg_list:
-                if not arg.nl:
-                    field = simulation.fields[arg.component]
-                else:
-                    field = simulation.fields_nl[arg.component]
-                if field is None:
-                    raise ValueError("couldn't find a field defined for component '{}'.  Could be the wrong polarization (simulation is '{}' polarization).".format(arg.component, self.simulation.pol))
-                field_arg_list.append(field)
-
-            # store these arguments (so that they dont have to be recomputed)
-            self.field_arg_list = field_arg_list
-
-            # lets other functions know the field_arg_list is up to date
-            self.fields_current = True
+        # prepare a list of arguments that correspond to obj_fn arguments
+        field_arg_list = []
+        for arg in self.objective.arg_list:
+            if not arg.nl:
+                field = simulation.fields[arg.component]
+            else:
+                field = simulation.fields_nl[arg.component]
+            if field is None:
+                raise ValueError("couldn't find a field defined for component '{}'.  Could be the wrong polarization (simulation is '{}' polarization).".format(arg.component, self.simulation.pol))
+            field_arg_list.append(field)
 
+        # store these arguments for the objective function and its gradient
+        self.field_arg_list = field_arg_list
 
     def _check_rho(self):
         """ Gets the material density from the permittivity if the simulation has none yet"""
@@ -114,7 +106,6 @@ class Optimization():
         """ Returns a list of analytical and numerical derivatives to check grad accuracy"""
 
         self._check_rho()
-        self.fields_current = False
         self.simulation.eps_r = rho2eps(rho=self.simulation.rho, eps_m=self.eps_m, W=self.W,
                                         eta=self.eta, beta=self.beta)
 
@@ -145,8 +136,6 @@ class Optimization():
             sim_new.rho = rho_new
             sim_new.eps_r = eps_new
 
-            self.fields_current = False
-
             # solve for the fields with this new permittivity
             J_new = self.compute_J(sim_new)
 
@@ -203,8 +192,6 @@ class Optimization():
 
         self._check_rho()
 
-        self.fields_current = False
-        
         allowed = ['LBFGS', 'GD', 'ADAM']
 
         if method.lower() in ['lbfgs']:
@@ -398,8 +385,6 @@ class Optimization():
                               eta=self.eta, beta=self.beta)
             self.simulation.eps_r = eps_new
 
-        self.fields_current = False
-
     def _get_design_region(self, spatial_array):
         """ Returns a vector of the elements of spatial_array that are in design_region"""
 
@@ -429,7 +414,6 @@ class Optimization():
                 ratio = self.max_ind_shift / max_dn
 
                 self.simulation.src = self.simulation.src * (np.sqrt(ratio) - epsilon)
-        self.fields_current = False
 
     def _update_rho(self, grad, step_size):
         """ Manually updates the permittivity with the grad info """
@@ -440,7 +424,6 @@ class Optimization():
 
         self.simulation.eps_r = rho2eps(self.simulation.rho, self.eps_m, self.W,
                                         eta=self.eta, beta=self.beta)
-        self.fields_current = False
 
     def _step_adam(self, gradient, mopt_old, vopt_old, iteration, beta1, beta2, epsilon=1e-8):
         """ Performs one step of adam optimization"""
@@ -498,8 +481,6 @@ class Optimization():
             sim_new.omega = 2*np.pi*f
             sim_new.eps_r = self.simulation.eps_r
 
-            self.fields_current = False
-
             # compute objective function and append to list
             obj_fn = self.compute_J(sim_new)
             objs.append(obj_fn)
-- 
2.43.0


From 071c2af5c3b0ff1af52f9b3b6cd6026acd58e727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:52 +0000
Subject: [PATCH 13/40] fix: an optimization leaves the permittivity outside
 the design region alone

Projection and the clip to [0,1] were applied to the whole domain, changing any
surrounding material that is not exactly 1 or eps_m, and the first step used a
permittivity that did not correspond to the density.
---
 angler/optimization.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 34b89d6..110bd6a 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -7,7 +7,7 @@ from scipy.optimize import minimize, fmin_l_bfgs_b
 from autograd import grad
 
 from angler.constants import *
-from angler.filter import (eps2rho, rho2eps, get_W, deps_drhob, drhob_drhot,
+from angler.filter import (eps2rho, rho2eps, rhob2eps, get_W, deps_drhob, drhob_drhot,
                     drhot_drho, rho2rhot, drhot_drho, rhot2rhob)
 
 
@@ -72,6 +72,14 @@ class Optimization():
         if self.simulation.rho is None:
             self.simulation.rho = eps2rho(self.simulation.eps_r, self.eps_m)
 
+    def _get_eps(self, rho):
+        """ Returns the permittivity of a material density.
+            The filter and projection act on the design region only, the rest stays as it is
+        """
+
+        eps = rho2eps(rho=rho, eps_m=self.eps_m, W=self.W, eta=self.eta, beta=self.beta)
+        return np.where(self.design_region == 1, eps, rhob2eps(rho, self.eps_m))
+
     def compute_J(self, simulation):
         """ Returns the current objective function of a simulation"""
 
@@ -106,8 +114,7 @@ class Optimization():
         """ Returns a list of analytical and numerical derivatives to check grad accuracy"""
 
         self._check_rho()
-        self.simulation.eps_r = rho2eps(rho=self.simulation.rho, eps_m=self.eps_m, W=self.W,
-                                        eta=self.eta, beta=self.beta)
+        self.simulation.eps_r = self._get_eps(self.simulation.rho)
 
         # solve for the linear fields and grad of the linear objective function
         grad_avm = self.compute_dJ(self.simulation, self.design_region)
@@ -130,8 +137,7 @@ class Optimization():
 
             # make a copy of the current simulation
             sim_new = copy.deepcopy(self.simulation)
-            eps_new = rho2eps(rho=rho_new, eps_m=self.eps_m, W=self.W,
-                              eta=self.eta, beta=self.beta)
+            eps_new = self._get_eps(rho_new)
 
             sim_new.rho = rho_new
             sim_new.eps_r = eps_new
@@ -192,6 +198,9 @@ class Optimization():
 
         self._check_rho()
 
+        # start from the permittivity that this density gives
+        self.simulation.eps_r = self._get_eps(self.simulation.rho)
+
         allowed = ['LBFGS', 'GD', 'ADAM']
 
         if method.lower() in ['lbfgs']:
@@ -381,8 +390,7 @@ class Optimization():
             rho_vec[des_vec == 1] = x
             rho_new = np.reshape(rho_vec, self.simulation.rho.shape)
             self.simulation.rho = rho_new
-            eps_new = rho2eps(rho=rho_new, eps_m=self.eps_m, W=self.W,
-                              eta=self.eta, beta=self.beta)
+            eps_new = self._get_eps(rho_new)
             self.simulation.eps_r = eps_new
 
     def _get_design_region(self, spatial_array):
@@ -419,11 +427,10 @@ class Optimization():
         """ Manually updates the permittivity with the grad info """
 
         self.simulation.rho = self.simulation.rho + self.design_region * step_size * grad
-        self.simulation.rho[self.simulation.rho < 0] = 0
-        self.simulation.rho[self.simulation.rho > 1] = 1
+        self.simulation.rho[(self.design_region == 1) & (self.simulation.rho < 0)] = 0
+        self.simulation.rho[(self.design_region == 1) & (self.simulation.rho > 1)] = 1
 
-        self.simulation.eps_r = rho2eps(self.simulation.rho, self.eps_m, self.W,
-                                        eta=self.eta, beta=self.beta)
+        self.simulation.eps_r = self._get_eps(self.simulation.rho)
 
     def _step_adam(self, gradient, mopt_old, vopt_old, iteration, beta1, beta2, epsilon=1e-8):
         """ Performs one step of adam optimization"""
-- 
2.43.0


From 93bd3679e8c83fdd59f4fee85a026f1cbb17b157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:52 +0000
Subject: [PATCH 14/40] fix: NameError in the scipy branch of
 solver_complex2real

---
 angler/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/linalg.py b/angler/linalg.py
index 7cf3261..ff00ff4 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -184,7 +184,7 @@ def solver_complex2real(A11, A12, b, timing=False, solver=SOLVER):
         pSolve.clear()
 
     elif solver.lower() == 'scipy':
-        x = spsolve(Areal, np.hstack((b_re, b_im)))
+        x = spl.spsolve(Areal, np.hstack((b_re, b_im)))
 
     else:
         raise ValueError('Invalid solver choice: {}, options are pardiso or scipy'.format(str(solver)))
-- 
2.43.0


From 81657b152c4501ab0a57e802705280ede3bbe955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:39 +0000
Subject: [PATCH 15/40] fix: flux_probe multiplies E and H at the same cell
 edge

The edge average was taken between the probe cell and the next one, while the
transverse field sits between the probe cell and the previous one.
---
 angler/simulation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 2fc9bf6..0dffbe3 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -275,9 +275,9 @@ class Simulation:
                 field_val_Hy = self.fields['Hy']
                 field_val_Hx = self.fields['Hx']
 
-            Ez_x = grid_average(field_val_Ez[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'x')[:-1,:-1]
-            Ez_y = grid_average(field_val_Ez[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'y')[:-1,:-1]
-            # NOTE: Last part drops the extra rows/cols used for grid_average
+            # average Ez to the edges where Hy and Hx are defined
+            Ez_x = grid_average(field_val_Ez, 'x')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            Ez_y = grid_average(field_val_Ez, 'y')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
 
             if direction_normal == "x":
                 Sx = -1/2*np.real(Ez_x*np.conj(field_val_Hy[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]))
@@ -297,9 +297,9 @@ class Simulation:
                 field_val_Ey = self.fields['Ey']
                 field_val_Ex = self.fields['Ex']
 
-            Hz_x = grid_average(field_val_Hz[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'x')[:-1, :-1]
-            Hz_y = grid_average(field_val_Hz[inds_x[0]:inds_x[1]+1, inds_y[0]:inds_y[1]+1], 'y')[:-1, :-1]
-            # NOTE: Last part drops the extra rows/cols used for grid_average
+            # average Hz to the edges where Ey and Ex are defined
+            Hz_x = grid_average(field_val_Hz, 'x')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
+            Hz_y = grid_average(field_val_Hz, 'y')[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]
 
             if direction_normal == "x":
                 Sx = 1/2*np.real(field_val_Ey[inds_x[0]:inds_x[1], inds_y[0]:inds_y[1]]*np.conj(Hz_x))
-- 
2.43.0


From e2be8f13191e199d1f7242093de7fd753a1a7799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:39 +0000
Subject: [PATCH 16/40] fix: mode normalization uses this mode's source alone
 and accepts negative centers

---
 angler/source/mode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 2fe8ae8..6b230e9 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -40,16 +40,17 @@ class mode:
         if self.direction_normal == "x":
             inds_y = original_eps[self.center[0], :] > 1
             norm_eps[:, inds_y] = eps_max
-            new_center[0] = Nx - new_center[0]
+            new_center[0] = Nx - new_center[0] % Nx
         elif self.direction_normal == "y":
             inds_x = original_eps[:, self.center[1]] > 1
             norm_eps[inds_x, :] = eps_max
-            new_center[1] = Ny - new_center[1]
+            new_center[1] = Ny - new_center[1] % Ny
         else:
             raise ValueError("The value of direction_normal is not x or y!")
 
         # reset the permittivity to be a straight waveguide, solve fields, compute power
         simulation_norm.eps_r = norm_eps
+        simulation_norm.src = np.zeros((Nx, Ny), dtype=simulation.src.dtype)    # only this mode
         self.insert_mode(simulation_norm, simulation_norm.src, matrix_format=matrix_format)
         simulation_norm.solve_fields()
         W_in = simulation_norm.flux_probe(self.direction_normal, new_center, self.width)
-- 
2.43.0


From 13bf7721d722b6fd5c4ac0289aa89f291aa58bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:34 +0000
Subject: [PATCH 17/40] fix: random design regions keep the loss of the
 surrounding material

---
 angler/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 0dffbe3..cba7ea2 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -332,7 +332,7 @@ class Simulation:
         elif style == 'random':
             # random pixels in design region
             eps_random = (eps_m-1)*np.random.random(self.eps_r.shape)+1
-            eps_random[design_region == 0] = self.eps_r[design_region == 0]
+            eps_random = np.where(design_region == 0, self.eps_r, eps_random)
             self.eps_r = eps_random
 
         elif style == 'random_sym':
@@ -340,7 +340,7 @@ class Simulation:
             R = np.random.random(self.eps_r.shape)
             R_sym = 1/2*(np.fliplr(R) + R)
             eps_random = (eps_m-1)*R_sym+1
-            eps_random[design_region == 0] = self.eps_r[design_region == 0]
+            eps_random = np.where(design_region == 0, self.eps_r, eps_random)
             self.eps_r = eps_random
 
         self.rho = eps2rho(self.eps_r, eps_m)
-- 
2.43.0


From cb4db5f61e8fd4451fa476f61faadf1cdd53f2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:34 +0000
Subject: [PATCH 18/40] fix: Hz modes average the permittivity along the slice
 for both directions

---
 angler/source/mode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 6b230e9..0497b33 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -79,7 +79,7 @@ class mode:
         Dxf = createDws('x', 'f', [simulation.dl], [N], matrix_format=matrix_format)
 
         vector_eps = EPSILON_0_*eps_r.reshape((-1,))
-        vector_eps_x = EPSILON_0_*grid_average(eps_r, 'x').reshape((-1,))
+        vector_eps_x = EPSILON_0_*grid_average(eps_r.reshape((-1, 1)), 'x').reshape((-1,))  # along the slice
         T_eps = sp.spdiags(vector_eps, 0, N, N, format=matrix_format)
         T_epsxinv = sp.spdiags(vector_eps_x**(-1), 0, N, N, format=matrix_format)
 
-- 
2.43.0


From 4095d5adabc6b9c636161b20b15a8c9ab1e83910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:18 +0000
Subject: [PATCH 19/40] fix: the sign of a mode source is reproducible

eigs() starts from a random vector, so the sign of the source (and the relative
phase of several modes) changed from run to run.
---
 angler/source/mode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 0497b33..5511c95 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -97,6 +97,10 @@ class mode:
         else:
             src = vecs[:, self.order-1]
 
+        # eigenvectors have an arbitrary phase, let the first lobe be positive
+        first = np.flatnonzero(np.abs(src) > np.max(np.abs(src))/2)[0]
+        src = src*np.exp(-1j*np.angle(src.flat[first]))
+
         src *= self.scale
 
         if self.direction_normal == 'x':
-- 
2.43.0


From 150cab022b10b6bfe7ea86d6103a33b9f0d4b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:53 +0000
Subject: [PATCH 20/40] fix: plotting crashes (log scale, missing axes, single
 temporary plot, animation)

---
 angler/optimization.py | 10 +++++++---
 angler/plot.py         |  5 +++--
 angler/simulation.py   |  2 +-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 110bd6a..7d9077c 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -328,7 +328,7 @@ class Optimization():
         Nplots = len(self.temp_plt.plot_what)
         plt.close('all')
 
-        Ez_lin = self.simulation.fields['Ez']
+        Ez_lin = self.simulation.fields[self.simulation.pol]
 
         # This is what was used for the T-port in the paper    
         vmin = 4 * np.sqrt(self.simulation.W_in)
@@ -349,13 +349,14 @@ class Optimization():
             axs = faxs.ravel()
         else:
             f, axs = plt.subplots(1, Nplots, figsize=self.temp_plt.figsize)
+            axs = np.atleast_1d(axs)
 
         for n, plots in enumerate(self.temp_plt.plot_what):
             if plots == 'eps':
                 ax = axs[n]
                 self.simulation.plt_eps(outline=False, cbar=False, ax=ax)
                 ax.set_title('Permittivity')
-                ax.annotate('Iteration:%4d' % np.int(iteration), (0.2, 0.92),
+                ax.annotate('Iteration:%4d' % int(iteration), (0.2, 0.92),
                     xycoords='axes fraction',
                     size='medium',
                     color='k',
@@ -374,7 +375,7 @@ class Optimization():
                 self.simulation.plt_abs(outline=True, cbar=False, ax=ax, nl=True, logscale=True, vmin=vmin, vmax=vmax)
                 ax.set_title('Nonlinear field')
         
-        fname = self.temp_plt.folder + ('it%06d.png' % np.int(iteration))
+        fname = self.temp_plt.folder + ('it%06d.png' % int(iteration))
         plt.savefig(fname, dpi=self.temp_plt.dpi)
 
     def _set_design_region(self, x):
@@ -446,6 +447,9 @@ class Optimization():
     def plt_objs(self, norm=None, ax=None):
         """ Plots objective function vs. iteration"""
 
+        if ax is None:
+            _, ax = plt.subplots(1)
+
         iter_range = range(1, len(self.objfn_list) + 1)
         if norm == 'field':
             obj_scaled = [o/a for o, a in zip(self.objfn_list, self.src_amplitudes)]
diff --git a/angler/plot.py b/angler/plot.py
index 25ce832..99ac103 100644
--- a/angler/plot.py
+++ b/angler/plot.py
@@ -1,6 +1,7 @@
 import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib as mpl
+import matplotlib.animation
 from matplotlib.colors import LogNorm
 
 
@@ -17,7 +18,7 @@ def plt_base(field_val, outline_val, cmap, vmin, vmax, label,
     if not logscale:
         h = ax.imshow(field_val, cmap=cmap, vmin=vmin, vmax=vmax, origin='lower')
     else:
-        h = ax.imshow(field_val, cmap=cmap, vmin=vmin, vmax=vmax, origin='lower', norm=LogNorm(vmin=vmin, vmax=vmax))
+        h = ax.imshow(field_val, cmap=cmap, origin='lower', norm=LogNorm(vmin=vmin, vmax=vmax))
 
     if cbar:
         plt.colorbar(h, label=label, ax=ax)
@@ -89,7 +90,7 @@ def plt_base_ani(field_val, cbar=True, Nframes=40, interval=80):
 
 class Temp_plt():
 
-    def __init__(self, it_plot=1, plot_what=('eps'), folder='figs/data/temp_im/', 
+    def __init__(self, it_plot=1, plot_what=('eps',), folder='figs/data/temp_im/', 
                     dpi=100, figsize=(4, 4), vlims=(None,None)):
         self.it_plot = it_plot
         self.plot_what = plot_what 
diff --git a/angler/simulation.py b/angler/simulation.py
index cba7ea2..d287b0d 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -375,7 +375,7 @@ class Simulation:
         if vmax is None:
             vmax = field_val.max()
         if vmin is None:
-            vmin = 0.0
+            vmin = None if logscale else 0.0
 
         cmap = "magma"
 
-- 
2.43.0


From 5f564402a1593ae6d77fb6b25f07a983aa539ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:53 +0000
Subject: [PATCH 21/40] fix: derivatives of the density helpers in utils

---
 angler/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/angler/utils.py b/angler/utils.py
index e470064..f569346 100644
--- a/angler/utils.py
+++ b/angler/utils.py
@@ -1,7 +1,8 @@
 import numpy as np
 import autograd.numpy as npa
 import matplotlib.pylab as plt
-from functools import wraps
+from autograd import grad
+from functools import wraps, partial
 from autograd.scipy.signal import convolve
 
 """ This is meant to be a place to write convenience functions and objects to
@@ -15,7 +16,7 @@ def rho_bar2eps(rho_bar, eps_m):
     return rho_bar * (eps_m - 1) + 1
 
 def deps_drho_bar(eps, eps_m):
-    return 1 / (eps_m - 1)
+    return eps_m - 1
 
 def rho_bar(rho, eta=0.5, beta=100):
     num = npa.tanh(beta*eta) + npa.tanh(beta*(rho - eta))
@@ -23,8 +24,7 @@ def rho_bar(rho, eta=0.5, beta=100):
     return num / den
 
 def drho_bar_drho(rho, eta=0.5, beta=100):
-    rho_bar = partial(rho_bar, eta=eta, beta=beta)
-    grad_rho_bar = grad(rho_bar)
+    grad_rho_bar = grad(partial(rho_bar, eta=eta, beta=beta))
     grad_rho_bar = np.vectorize(grad_rho_bar)
     return grad_rho_bar(rho)
 
-- 
2.43.0


From 2b0019593886f23bc3f79e6f05aade4ba3d0605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:54 +0000
Subject: [PATCH 22/40] fix: the source amplitude limiter uses a relative
 margin

sqrt(ratio) - epsilon turns negative (or removes most of the source) when the
index shift is far above the limit and divides by zero without a nonlinearity.
---
 angler/optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 7d9077c..302b152 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -420,9 +420,11 @@ class Optimization():
                 # compute the index shift and update the source according to the ratio
                 dn = self.simulation.compute_index_shift()
                 max_dn = np.max(dn)
+                if max_dn == 0:
+                    break       # no index shift to limit
                 ratio = self.max_ind_shift / max_dn
 
-                self.simulation.src = self.simulation.src * (np.sqrt(ratio) - epsilon)
+                self.simulation.src = self.simulation.src * np.sqrt(ratio) * (1 - epsilon)
 
     def _update_rho(self, grad, step_size):
         """ Manually updates the permittivity with the grad info """
-- 
2.43.0


From 0d66a5606bc529932ca87e6fd1b9a73507f2005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:54 +0000
Subject: [PATCH 23/40] fix: scan_power solves the linear fields for each
 source amplitude

---
 angler/optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/angler/optimization.py b/angler/optimization.py
index 302b152..e091943 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -549,6 +549,9 @@ class Optimization():
             sim_new.modes[0].setup_src(sim_new)
             W_in = sim_new.W_in
 
+            # the stored linear fields belong to another source amplitude
+            sim_new.solve_fields()
+
             powers.append(W_in)
 
             if solver == 'hybrid':
-- 
2.43.0


From 0f39514b1f0f8299293145dd21ab1cf19e187362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:54 +0000
Subject: [PATCH 24/40] fix: LBFGS with a scipy whose fmin_l_bfgs_b has no
 iprint and disp

---
 angler/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index e091943..4f4f7b6 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -317,8 +317,8 @@ class Optimization():
         # minimize
         (rho_final, _, _) = fmin_l_bfgs_b(_objfn, rho0, fprime=_grad, args=(), approx_grad=0,
                             bounds=rho_bounds, m=10, factr=10,
-                            pgtol=1e-15, epsilon=1e-08, iprint=-1,
-                            maxfun=15000, maxiter=self.Nsteps, disp=self.verbose,
+                            pgtol=1e-15, epsilon=1e-08,
+                            maxfun=15000, maxiter=self.Nsteps,
                             callback=_update_iter_count, maxls=20)
 
         # finally, set the simulation permittivity to that found via optimization
-- 
2.43.0


From 308eba2dcadb591495641241b68b8b87b6b05ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:19 +0000
Subject: [PATCH 25/40] fix: hybrid nonlinear solver honours conv_threshold;
 error paths name the polarization

---
 angler/nonlinear_solvers.py | 4 ++--
 angler/simulation.py        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/angler/nonlinear_solvers.py b/angler/nonlinear_solvers.py
index 0b4df9a..b5678a4 100644
--- a/angler/nonlinear_solvers.py
+++ b/angler/nonlinear_solvers.py
@@ -113,7 +113,7 @@ def newton_solve(simulation,
 		return (Hx, Hy, Ez, conv_array)
 
 	else:
-		raise ValueError('Invalid polarization: {}'.format(str(self.pol)))
+		raise ValueError('Invalid polarization: {}'.format(str(simulation.pol)))
 
 def nl_eq_and_jac(simulation,
 				  averaging=True, Ex=None, Ey=None, Ez=None, compute_jac=True,
@@ -145,7 +145,7 @@ def nl_eq_and_jac(simulation,
 		raise ValueError('angler doesnt support newton method for Hz polarization yet')		
 
 	else:
-		raise ValueError('Invalid polarization: {}'.format(str(self.pol)))
+		raise ValueError('Invalid polarization: {}'.format(str(simulation.pol)))
 
 	if compute_jac:
 		return (fE, Jac11, Jac12)
diff --git a/angler/simulation.py b/angler/simulation.py
index d287b0d..69964c2 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -213,7 +213,7 @@ class Simulation:
             (Fx, Fy, Fz, conv_array) = born_solve(self, Estart,
                                               conv_threshold, 20,
                                               averaging=averaging) 
-            if conv_array[-1] > 1e-10:
+            if conv_array[-1] > conv_threshold:
                 (Fx, Fy, Fz, conv_array) = newton_solve(self, Fz,
                                                     conv_threshold, 20,
                                                     averaging=averaging)                                       
-- 
2.43.0


From 96dbe80762cc40c05bea00878132ec15fdbbc343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 26/40] fix: the density filter accepts boolean design regions

---
 angler/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/filter.py b/angler/filter.py
index a446adb..2122adc 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -70,7 +70,7 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
 
     W = sp.csr_matrix((vals, (row_indeces, col_indeces)), shape=(N, N))
 
-    des_vec = design_region.reshape((-1,))
+    des_vec = 1.0*design_region.reshape((-1,))
     no_des_vec = 1-des_vec
     des_mat = sp.diags(des_vec, shape=(N, N))
     no_des_mat = sp.diags(no_des_vec, shape=(N, N))
-- 
2.43.0


From 68612983109ab4b2e26565304c06711e5e4439c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 27/40] fix: Newton solver and adjoint with a complex Kerr
 coefficient

---
 angler/adjoint.py           | 3 ++-
 angler/nonlinear_solvers.py | 3 ++-
 angler/simulation.py        | 4 ++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/angler/adjoint.py b/angler/adjoint.py
index 6ec273f..f8ef536 100644
--- a/angler/adjoint.py
+++ b/angler/adjoint.py
@@ -76,9 +76,10 @@ def adjoint_kerr_Ez(simulation, b_aj,
     Ez = simulation.fields_nl['Ez']
     Anl = simulation.A + simulation.Anl
     dAde = omega**2*EPSILON_0_*simulation.dnl_de
+    dAdec = omega**2*EPSILON_0_*simulation.dnl_dec
 
     C11 = Anl + sp.spdiags((dAde*Ez).reshape((-1,)), 0, M, M, format=matrix_format)
-    C12 = sp.spdiags((np.conj(dAde)*Ez).reshape((-1)), 0, M, M, format=matrix_format)
+    C12 = sp.spdiags((dAdec*Ez).reshape((-1)), 0, M, M, format=matrix_format)
     C_full = sp.vstack((sp.hstack((C11, C12)), np.conj(sp.hstack((C12, C11)))))
     b_aj = b_aj.reshape((-1,))
 
diff --git a/angler/nonlinear_solvers.py b/angler/nonlinear_solvers.py
index b5678a4..7192db3 100644
--- a/angler/nonlinear_solvers.py
+++ b/angler/nonlinear_solvers.py
@@ -139,7 +139,8 @@ def nl_eq_and_jac(simulation,
 			simulation.compute_nl(Ez)
 			dAde = (simulation.dnl_de).reshape((-1,))*omega**2*EPSILON_0_
 			Jac11 = Anl + sp.spdiags(dAde*Ez.reshape((-1,)), 0, Nbig, Nbig, format=matrix_format)
-			Jac12 = sp.spdiags(np.conj(dAde)*Ez.reshape((-1,)), 0, Nbig, Nbig, format=matrix_format)
+			dAdec = (simulation.dnl_dec).reshape((-1,))*omega**2*EPSILON_0_
+			Jac12 = sp.spdiags(dAdec*Ez.reshape((-1,)), 0, Nbig, Nbig, format=matrix_format)
 
 	elif simulation.pol == 'Hz':
 		raise ValueError('angler doesnt support newton method for Hz polarization yet')		
diff --git a/angler/simulation.py b/angler/simulation.py
index 69964c2..d42c514 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -53,6 +53,7 @@ class Simulation:
         self.nonlinearity = []
         self.eps_nl = np.zeros(eps_r.shape)
         self.dnl_de = np.zeros(eps_r.shape)
+        self.dnl_dec = np.zeros(eps_r.shape)
         self.dnl_deps = np.zeros(eps_r.shape)
 
     def setup_modes(self):
@@ -71,10 +72,13 @@ class Simulation:
         # evaluates the nonlinear functions for a field e
         self.eps_nl = np.zeros(self.eps_r.shape)
         self.dnl_de = np.zeros(self.eps_r.shape)
+        self.dnl_dec = np.zeros(self.eps_r.shape)
         self.dnl_deps = np.zeros(self.eps_r.shape)
         for nli in self.nonlinearity:
             self.eps_nl = self.eps_nl + nli.eps_nl(e, self.eps_r)
             self.dnl_de = self.dnl_de + nli.dnl_de(e, self.eps_r)
+            # derivative with respect to conj(e), as eps_nl depends on e*conj(e)
+            self.dnl_dec = self.dnl_dec + nli.dnl_de(np.conj(e), self.eps_r)
             self.dnl_deps = self.dnl_deps + nli.dnl_deps(e, self.eps_r)
         Nbig = self.Nx*self.Ny
         Anl = sp.spdiags(self.omega**2*EPSILON_0*self.L0*self.eps_nl.reshape((-1,)), 0, Nbig, Nbig, format=matrix_format)
-- 
2.43.0


From 32c398b4683ce56e2896565204fb7a3f3f71fdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:42 +0000
Subject: [PATCH 28/40] fix: mode sources honour the requested mode order

---
 angler/source/mode.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 5511c95..b827651 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -92,10 +92,9 @@ class mode:
         est_beta = simulation.omega*np.sqrt(MU_0_*EPSILON_0_)*self.neff
         (vals, vecs) = solver_eigs(A, self.order, guess_value=np.square(est_beta))
 
-        if self.order == 1:
-            src = vecs
-        else:
-            src = vecs[:, self.order-1]
+        # the solver returns the modes in any order, sort them by distance to the guess
+        inds = np.argsort(np.abs(vals - np.square(est_beta)))
+        src = vecs[:, inds[self.order-1]]
 
         # eigenvectors have an arbitrary phase, let the first lobe be positive
         first = np.flatnonzero(np.abs(src) > np.max(np.abs(src))/2)[0]
-- 
2.43.0


From bf3aa899720f7eec720d7a5d1296b9fba08eee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:42 +0000
Subject: [PATCH 29/40] fix: setting up a mode must not write into the caller's
 source array

---
 angler/source/mode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index b827651..4e61030 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -20,7 +20,8 @@ class mode:
         # compute the input power here using an only waveguide simulation
         self.compute_normalization(simulation, matrix_format=matrix_format)
 
-        # insert the mode into the waveguide
+        # insert the mode into the waveguide (the array may belong to the caller)
+        simulation.src = np.array(simulation.src)
         self.insert_mode(simulation, simulation.src, matrix_format=matrix_format)
 
     def compute_normalization(self, simulation, matrix_format=DEFAULT_MATRIX_FORMAT):
-- 
2.43.0


From a497d14c9b8147adc272eb997fbd8eafc42d6a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:57 +0000
Subject: [PATCH 30/40] fix: the filter weights of wrapped cells use the
 unwrapped distance

---
 angler/filter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/angler/filter.py b/angler/filter.py
index 2122adc..1b582a2 100644
--- a/angler/filter.py
+++ b/angler/filter.py
@@ -56,10 +56,7 @@ def get_W(Nx, Ny, design_region, NPML, R=10):
                     r2 = np.array([i2, j2])
 
                     # wrap around for periodic BC
-                    i2 = wrap(i2, Nx)
-                    j2 = wrap(j2, Ny)
-
-                    col_index = sub2ind((Nx, Ny), i2, j2)
+                    col_index = sub2ind((Nx, Ny), wrap(i2, Nx), wrap(j2, Ny))
 
                     val = R - dist(r1, r2)
 
-- 
2.43.0


From 2b7509f486f66859665478877b8b6c2cb0e3e5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:23 +0000
Subject: [PATCH 31/40] fix: init_design_region keeps fractional and complex
 materials of integer permittivities

---
 angler/simulation.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index d42c514..2a8c8f1 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -317,21 +317,15 @@ class Simulation:
 
         if style == 'full':
             # eps_m filled in design region
-            eps_full = self.eps_r.copy()
-            eps_full[design_region == 1] = eps_m
-            self.eps_r = eps_full
+            self.eps_r = np.where(design_region == 1, eps_m, self.eps_r)
 
         elif style == 'halfway':
             # halfway between 1 and eps_m in design region
-            eps_halfway = self.eps_r.copy()
-            eps_halfway[design_region == 1] = eps_m/2 + 1/2
-            self.eps_r = eps_halfway
+            self.eps_r = np.where(design_region == 1, eps_m/2 + 1/2, self.eps_r)
 
         elif style == 'empty':
             # nothing in design region
-            eps_empty = self.eps_r.copy()
-            eps_empty[design_region == 1] = 1
-            self.eps_r = eps_empty
+            self.eps_r = np.where(design_region == 1, 1, self.eps_r)
 
         elif style == 'random':
             # random pixels in design region
-- 
2.43.0


From 009777923929a764ae528553e38e9d143e2e4d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:01 +0000
Subject: [PATCH 32/40] fix: an unknown optimization method is rejected before
 anything is changed

---
 angler/optimization.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 4f4f7b6..10b4087 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -190,6 +190,10 @@ class Optimization():
             beta1=0.9, beta2=0.999, verbose=True, temp_plt=None):
         """ Runs an optimization."""
 
+        allowed = ['LBFGS', 'GD', 'ADAM']
+        if method.lower() not in [a.lower() for a in allowed]:
+            raise ValueError("'method' must be in {}".format(allowed))
+
         self.Nsteps = Nsteps
         self.verbose = verbose
         self.temp_plt = temp_plt
@@ -201,8 +205,6 @@ class Optimization():
         # start from the permittivity that this density gives
         self.simulation.eps_r = self._get_eps(self.simulation.rho)
 
-        allowed = ['LBFGS', 'GD', 'ADAM']
-
         if method.lower() in ['lbfgs']:
             self._run_LBFGS()
 
@@ -212,9 +214,6 @@ class Optimization():
         elif method.lower() == 'adam':
             self._run_ADAM(step_size=step_size, beta1=beta1, beta2=beta2)
 
-        else:
-            raise ValueError("'method' must be in {}".format(allowed))
-
     def _run_GD(self, step_size):
         """ Performs simple grad descent optimization"""
 
-- 
2.43.0


From a3f51ff90787f639dd75168a2cc2703acdde0d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:10 +0000
Subject: [PATCH 33/40] Revert "fix: an all-zero design vector is applied to
 the simulation"

This reverts commit 4772e929cb955e354ff970686ab96e6afd355e5a.
---
 angler/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/optimization.py b/angler/optimization.py
index 10b4087..acccf96 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -386,7 +386,7 @@ class Optimization():
         # Only update the rho if it actually differs from the current one
         # If it doesn't, we don't want to erase the stored fields
 
-        if np.linalg.norm(x - rho_vec[des_vec == 1]) > 1e-10*np.linalg.norm(x):
+        if np.linalg.norm(x - rho_vec[des_vec == 1])/np.linalg.norm(x) > 1e-10:
             rho_vec[des_vec == 1] = x
             rho_new = np.reshape(rho_vec, self.simulation.rho.shape)
             self.simulation.rho = rho_new
-- 
2.43.0


From 9d8492a922216f4d181c1b3ff78d937b6f6f85f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 34/40] fix: the input power of a mode belongs to the waveguide
 it is injected into

---
 angler/source/mode.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 4e61030..93d09b2 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -30,21 +30,17 @@ class mode:
         # get some information from the permittivity
         original_eps = simulation.eps_r
         (Nx, Ny) = original_eps.shape
-        eps_max = np.max(np.abs(original_eps))
-        norm_eps = np.ones((Nx, Ny))
 
         # make a new simulation and get a new probe center
         simulation_norm = deepcopy(simulation)
         new_center = list(self.center)
 
-        # compute where the source and waveguide should be
+        # compute where the source should be, the waveguide continues the slice through it
         if self.direction_normal == "x":
-            inds_y = original_eps[self.center[0], :] > 1
-            norm_eps[:, inds_y] = eps_max
+            norm_eps = np.tile(original_eps[self.center[0], :].reshape((1, -1)), (Nx, 1))
             new_center[0] = Nx - new_center[0] % Nx
         elif self.direction_normal == "y":
-            inds_x = original_eps[:, self.center[1]] > 1
-            norm_eps[inds_x, :] = eps_max
+            norm_eps = np.tile(original_eps[:, self.center[1]].reshape((-1, 1)), (1, Ny))
             new_center[1] = Ny - new_center[1] % Ny
         else:
             raise ValueError("The value of direction_normal is not x or y!")
-- 
2.43.0


From b292e29ba37ae5f382cff78ee503d7d8bd27f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:57 +0000
Subject: [PATCH 35/40] fix: complex permittivities of structures keep their
 imaginary part

---
 angler/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/structures.py b/angler/structures.py
index d7f2794..3a497b0 100644
--- a/angler/structures.py
+++ b/angler/structures.py
@@ -29,7 +29,7 @@ def apply_regions(reg_list, xs, ys, eps_start, eps_background=1):
         reg_list = [reg_list]
 
     # initialize permittivity with some background value
-    eps_r = eps_background * np.ones(xs.shape)
+    eps_r = eps_background * np.ones(xs.shape, dtype=np.result_type(eps_start, eps_background, float))
 
     # loop through lambdas and apply masks
     for reg in reg_list:
-- 
2.43.0


From 09379e94188c7925f3f9c887cea39eb0ae130005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:27 +0000
Subject: [PATCH 36/40] fix: solve again with full pivoting where pardiso's
 perturbed pivots did not give the solution

---
 angler/linalg.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/angler/linalg.py b/angler/linalg.py
index ff00ff4..a27a6a0 100644
--- a/angler/linalg.py
+++ b/angler/linalg.py
@@ -128,6 +128,21 @@ def solver_eigs(A, Neigs, guess_value=0, guess_vector=None, timing=False):
     return (values, vectors)
 
 
+def solver_refine(A, b, x, tol=1e-10):
+    # pardiso pivots only inside its supernodes and perturbs the pivots that are too small, so (for instance when
+    # the diagonal of A nearly vanishes) what it returns may not solve A x = b: pivot fully where that happened
+
+    residual = np.linalg.norm(A.dot(x) - b)
+    if residual <= tol*np.linalg.norm(b):
+        return x
+
+    x_pivot = spl.spsolve(sp.csc_matrix(A), b)
+    residual_pivot = np.linalg.norm(A.dot(x_pivot) - b)
+    if residual_pivot < residual or not np.isfinite(residual):
+        return x_pivot
+    return x
+
+
 def solver_direct(A, b, timing=False, solver=SOLVER):
     # solves linear system of equations
 
@@ -145,6 +160,7 @@ def solver_direct(A, b, timing=False, solver=SOLVER):
         pSolve.factor()
         x = pSolve.solve(b)
         pSolve.clear()
+        x = solver_refine(A, b, x)
 
     elif solver.lower() == 'scipy':
         x = spl.spsolve(A, b)
@@ -182,6 +198,7 @@ def solver_complex2real(A11, A12, b, timing=False, solver=SOLVER):
         pSolve.factor()
         x = pSolve.solve(np.hstack((b_re, b_im)))
         pSolve.clear()
+        x = solver_refine(Areal, np.hstack((b_re, b_im)), x)
 
     elif solver.lower() == 'scipy':
         x = spl.spsolve(Areal, np.hstack((b_re, b_im)))
-- 
2.43.0


From 71551b3a5df0ace44754d9b6c0d21cbcf2d4a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:38 +0000
Subject: [PATCH 37/40] fix: a mode set up on an integer source array lost its
 profile

---
 angler/source/mode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/angler/source/mode.py b/angler/source/mode.py
index 93d09b2..fe7933a 100644
--- a/angler/source/mode.py
+++ b/angler/source/mode.py
@@ -17,11 +17,13 @@ class mode:
         self.scale = scale
 
     def setup_src(self, simulation, matrix_format=DEFAULT_MATRIX_FORMAT):
+        # the source array may belong to the caller, and integers can not hold a mode
+        simulation.src = np.array(simulation.src, dtype=np.result_type(simulation.src, np.float32))
+
         # compute the input power here using an only waveguide simulation
         self.compute_normalization(simulation, matrix_format=matrix_format)
 
-        # insert the mode into the waveguide (the array may belong to the caller)
-        simulation.src = np.array(simulation.src)
+        # insert the mode into the waveguide
         self.insert_mode(simulation, simulation.src, matrix_format=matrix_format)
 
     def compute_normalization(self, simulation, matrix_format=DEFAULT_MATRIX_FORMAT):
-- 
2.43.0


From 9314748504d5c19f6f3895ec6c8b585402d6b912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:38 +0000
Subject: [PATCH 38/40] fix: the density of a design given as integers was
 truncated by L-BFGS and derivative checks

---
 angler/optimization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/angler/optimization.py b/angler/optimization.py
index acccf96..36fb81e 100644
--- a/angler/optimization.py
+++ b/angler/optimization.py
@@ -72,6 +72,10 @@ class Optimization():
         if self.simulation.rho is None:
             self.simulation.rho = eps2rho(self.simulation.eps_r, self.eps_m)
 
+        elif self.simulation.rho.dtype.kind in 'biu':
+            # a binary design given as integers, which can not hold what is in between
+            self.simulation.rho = 1.0*self.simulation.rho
+
     def _get_eps(self, rho):
         """ Returns the permittivity of a material density.
             The filter and projection act on the design region only, the rest stays as it is
-- 
2.43.0


From beb8344a9a01fca50344269a4ce3d1300478c047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:20 +0000
Subject: [PATCH 39/40] fix: N_port places its input waveguide by the grid
 size, whatever the unit of length

---
 angler/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/angler/structures.py b/angler/structures.py
index 3a497b0..ee98770 100644
--- a/angler/structures.py
+++ b/angler/structures.py
@@ -135,7 +135,7 @@ def N_port(N, L, H, w, d, l, spc, dl, NPML, eps_start, eps_background=1):
 
     # define the regions
     box    = lambda x, y: (np.abs(x) < L/2) * (np.abs(y-y_mid) < H/2)
-    wg_in  = lambda x, y: (x < 0)           * (np.abs(y-0.01) < dl*wg_width_px/2)  # note, this slight offset is to fix gridding issues
+    wg_in  = lambda x, y: (x < 0)           * (np.abs(y-0.2*dl) < dl*wg_width_px/2)  # note, this slight offset is to fix gridding issues
 
     reg_list = [box, wg_in]
     for i in range(N):
-- 
2.43.0


From 32b2a63903e9d530145937505ec4ef58911fc72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:35 +0000
Subject: [PATCH 40/40] fix: index shift is not NaN where a metal (negative
 permittivity) is

---
 angler/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/angler/simulation.py b/angler/simulation.py
index 2a8c8f1..4661de0 100644
--- a/angler/simulation.py
+++ b/angler/simulation.py
@@ -348,8 +348,9 @@ class Simulation:
 
         _ = self.solve_fields()
         _ = self.solve_fields_nl()
-        index_nl = np.sqrt(np.real(self.eps_r + self.eps_nl))
-        index_lin = np.sqrt(np.real(self.eps_r))
+        # the real part of the index of a metal is zero
+        index_nl = np.sqrt(np.maximum(np.real(self.eps_r + self.eps_nl), 0))
+        index_lin = np.sqrt(np.maximum(np.real(self.eps_r), 0))
         return np.abs(index_nl - index_lin)
 
     def plt_abs(self, nl=False, cbar=True, outline=True, ax=None, vmin=None, vmax=None, logscale=False, tiled_y=1):
-- 
2.43.0

