From d2dd35bdd840cdc4ccf3c2f59d1cdd45f3f07b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 01/13] fix: use default factories for array defaults so the
 configuration module can be imported

---
 pySailingVLM/runner/container.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pySailingVLM/runner/container.py b/pySailingVLM/runner/container.py
index 869bc71..3fe02e2 100644
--- a/pySailingVLM/runner/container.py
+++ b/pySailingVLM/runner/container.py
@@ -67,10 +67,10 @@ class Rig:
 class MainSail:
     centerline_twist_deg: np.ndarray = None
     
-    girths: np.ndarray = np.array([0.00, 1./8, 1./4, 1./2, 3./4, 7./8, 1.00])
-    chords: np.ndarray = np.array([4.00, 3.82, 3.64, 3.20, 2.64, 2.32, 2.00])
-    camber: np.ndarray = 5*np.array([0.01, 0.01, 0.01, 0.01, 0.01, 0.01, 0.01])
-    camber_distance_from_luff: np.ndarray = np.array([0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5]) # starting from leading edge
+    girths: np.ndarray = field(default_factory=lambda: np.array([0.00, 1./8, 1./4, 1./2, 3./4, 7./8, 1.00]))
+    chords: np.ndarray = field(default_factory=lambda: np.array([4.00, 3.82, 3.64, 3.20, 2.64, 2.32, 2.00]))
+    camber: np.ndarray = field(default_factory=lambda: 5*np.array([0.01, 0.01, 0.01, 0.01, 0.01, 0.01, 0.01]))
+    camber_distance_from_luff: np.ndarray = field(default_factory=lambda: np.array([0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5])) # starting from leading edge
     
     def __post_init__(self):
         if self.centerline_twist_deg is None:
@@ -80,10 +80,10 @@ class MainSail:
 class JibSail:
     centerline_twist_deg: np.ndarray = None
     
-    girths: np.ndarray = np.array([0.00, 1./4, 1./2, 3./4, 1.00])
-    chords: np.ndarray =np.array([3.80, 2.98, 2.15, 1.33, 0.5])
-    camber: np.ndarray = 0*np.array([0.01, 0.01, 0.01, 0.01, 0.01])
-    camber_distance_from_luff: np.ndarray = np.array([0.5, 0.5, 0.5, 0.5, 0.5]) # starting from leading edge   
+    girths: np.ndarray = field(default_factory=lambda: np.array([0.00, 1./4, 1./2, 3./4, 1.00]))
+    chords: np.ndarray = field(default_factory=lambda: np.array([3.80, 2.98, 2.15, 1.33, 0.5]))
+    camber: np.ndarray = field(default_factory=lambda: 0*np.array([0.01, 0.01, 0.01, 0.01, 0.01]))
+    camber_distance_from_luff: np.ndarray = field(default_factory=lambda: np.array([0.5, 0.5, 0.5, 0.5, 0.5])) # starting from leading edge   
     def __post_init__(self):
         if self.centerline_twist_deg is None:
             self.centerline_twist_deg = 15. * self.girths + 7
@@ -103,7 +103,7 @@ class JibSail:
 # heeling_reference [m] - distance from the water level,  at which the heeling moment is calculated.
 @dataclass
 class Csys:
-    reference_level_for_moments: np.ndarray =  np.array([0, 0, 0])  # [yaw_reference, sway_reference, heeling_reference]
+    reference_level_for_moments: np.ndarray = field(default_factory=lambda: np.array([0, 0, 0]))  # [yaw_reference, sway_reference, heeling_reference]
 
 
 # GEOMETRY OF THE KEEL
@@ -111,4 +111,4 @@ class Csys:
 # reminder: the z coord shall be negative (under the water)
 @dataclass
 class Keel:
-    center_of_lateral_resistance_upright: np.ndarray =  np.array([0, 0, -1.0])  # [m] the coordinates for a yacht standing in upright position
+    center_of_lateral_resistance_upright: np.ndarray = field(default_factory=lambda: np.array([0, 0, -1.0]))  # [m] the coordinates for a yacht standing in upright position
-- 
2.43.0


From fbacd69def949d27ced8ecb85a91d2418a3e4421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 02/13] fix: mirror the camber position along the span for the
 underwater image

---
 pySailingVLM/yacht_geometry/sail_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/yacht_geometry/sail_geometry.py b/pySailingVLM/yacht_geometry/sail_geometry.py
index 44e0f87..4fad021 100644
--- a/pySailingVLM/yacht_geometry/sail_geometry.py
+++ b/pySailingVLM/yacht_geometry/sail_geometry.py
@@ -89,7 +89,7 @@ class SailGeometry(BaseGeometry, ABC):
         sh0, sh1, sh2 = mesh.shape
         mesh = mesh.reshape(sh0*sh1, sh2)
         
-        mesh_underwater = make_airfoil_mesh([le_SW_underwater, le_NW_underwater],[self.__n_chordwise, self.__n_spanwise],fchords_vec, interpolated_distance_from_luff, np.flip(interpolated_camber))
+        mesh_underwater = make_airfoil_mesh([le_SW_underwater, le_NW_underwater],[self.__n_chordwise, self.__n_spanwise],fchords_vec, np.flip(interpolated_distance_from_luff), np.flip(interpolated_camber))
         ### zero mesh
         zero_mesh_under = np.swapaxes(mesh_underwater, 0, 1)
         panels_under_zero, _, _= make_panels_from_mesh_spanwise(zero_mesh_under)
-- 
2.43.0


From ab7f9b609e4a41171f445e6159abf79a38a17a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 03/13] fix: apply the selected LLT_twist mode instead of
 always the real twist

---
 pySailingVLM/yacht_geometry/sail_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/yacht_geometry/sail_geometry.py b/pySailingVLM/yacht_geometry/sail_geometry.py
index 4fad021..353d6fa 100644
--- a/pySailingVLM/yacht_geometry/sail_geometry.py
+++ b/pySailingVLM/yacht_geometry/sail_geometry.py
@@ -125,7 +125,7 @@ class SailGeometry(BaseGeometry, ABC):
                 'real_twist': initial_sail_twist_deg
             }
             sail_twist_deg = twist_dict[LLT_twist]
-            sail_twist_deg = np.hstack([initial_sail_twist_deg] * (sh1))
+            sail_twist_deg = np.hstack([sail_twist_deg] * (sh1))
             sail_twist_deg = sail_twist_deg.reshape(sh1, sh0).transpose().flatten()
 
             p2 = mesh[::sh1][-1]
-- 
2.43.0


From ce2c6b059ee9e87c2b17157c93daba9f99a983f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 04/13] fix: keep the lateral position of the luff in the
 airfoil mesh

---
 pySailingVLM/solver/mesher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/solver/mesher.py b/pySailingVLM/solver/mesher.py
index c3c039f..481dad2 100644
--- a/pySailingVLM/solver/mesher.py
+++ b/pySailingVLM/solver/mesher.py
@@ -60,7 +60,7 @@ def make_airfoil_mesh(le_points : List[np.ndarray], grid_size : List[int], chord
         foil = VlmAirfoil(m, p, 0.0, n=n)
         
         xs = (p2[0] - p1[0]) * foil.xc + p1[0]
-        ys = (p2[0] - p1[0]) * foil.yc 
+        ys = (p2[0] - p1[0]) * foil.yc + p1[1]
         zs =[p1[2]] * n 
     
         counter += 1
-- 
2.43.0


From 0315973acd86094ebbbb8fb01d6d0c8eefd5d8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 05/13] fix: report the apparent wind angle in the correct
 quadrant

---
 pySailingVLM/results/inviscid_flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/results/inviscid_flow.py b/pySailingVLM/results/inviscid_flow.py
index c223b38..05068bc 100644
--- a/pySailingVLM/results/inviscid_flow.py
+++ b/pySailingVLM/results/inviscid_flow.py
@@ -24,7 +24,7 @@ class InviscidFlowResults:
         self.V_induced_length = np.linalg.norm(self.V_induced_at_cp, axis=1)
         self.V_app_fs_at_cp = myvlm.V_app_fs_at_cp#V_app_fs
         self.V_app_fs_length = np.linalg.norm(self.V_app_fs_at_cp, axis=1)
-        self.AWA_app_fs = np.arctan(myvlm.V_app_fs_at_cp[:, 1] / myvlm.V_app_fs_at_cp[:, 0])
+        self.AWA_app_fs = np.arctan2(myvlm.V_app_fs_at_cp[:, 1], myvlm.V_app_fs_at_cp[:, 0])
   
         self.F_xyz = myvlm.force
         self.F_xyz_above_water, self.F_xyz_total = extract_above_water_quantities(self.F_xyz)
-- 
2.43.0


From 6335f43087d10c444644e9639ed0a9cd1d338883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 06/13] fix: rotate about axes parallel to x instead of
 dividing by zero

---
 pySailingVLM/rotations/geometry_calc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/rotations/geometry_calc.py b/pySailingVLM/rotations/geometry_calc.py
index f03d205..02251c6 100644
--- a/pySailingVLM/rotations/geometry_calc.py
+++ b/pySailingVLM/rotations/geometry_calc.py
@@ -56,8 +56,11 @@ def rotate_points_around_arbitrary_axis(ps : np.ndarray, p1 : np.array, p2 : np.
     D = np.array([[1,0,0,-x1],[0,1,0,-y1],[0,0,1,-z1],[0,0,0,1]])
     D_inv = np.array([[1,0,0,x1],[0,1,0,y1],[0,0,1,z1],[0,0,0,1]])
 
-    R_x = np.array([[1,0,0,0],[0,c/v,-b/v,0],[0,b/v,c/v,0],[0,0,0,1]])
-    R_x_inv = np.array([[1,0,0,0],[0,c/v,b/v,0],[0,-b/v,c/v,0],[0,0,0,1]])
+    # an axis parallel to x has no projection on the yz plane and needs no rotation about x
+    cos_x, sin_x = (c/v, b/v) if v > 0 else (1., 0.)
+
+    R_x = np.array([[1,0,0,0],[0,cos_x,-sin_x,0],[0,sin_x,cos_x,0],[0,0,0,1]])
+    R_x_inv = np.array([[1,0,0,0],[0,cos_x,sin_x,0],[0,-sin_x,cos_x,0],[0,0,0,1]])
 
     R_y = np.array([[v/l,0,-a/l,0],[0,1,0,0],[a/l,0,v/l,0],[0,0,0,1]])
     R_y_inv = np.array([[v/l,0,a/l,0],[0,1,0,0],[-a/l,0,v/l,0],[0,0,0,1]])
-- 
2.43.0


From 919698b8f3b9efee53aa3d0ef7edd2be8fdd5d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 07/13] fix: check the exponential wind parameters and refuse
 unknown wind profiles

---
 pySailingVLM/runner/sail.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/sail.py b/pySailingVLM/runner/sail.py
index 28d131c..913b53d 100644
--- a/pySailingVLM/runner/sail.py
+++ b/pySailingVLM/runner/sail.py
@@ -46,10 +46,12 @@ class Wind:
         try: 
             if self.conditions.wind_profile == 'logarithmic' and None in [self.conditions.roughness, self.conditions.wind_reference_measurment_height]:
                 raise ValueError("ERROR in logarithmic mode!: Roughness or wind_reference_measurment_height badly defined!")
-            elif self.conditions.wind_profile == 'expotentional' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
-                raise ValueError("ERROR in expotentional mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
+            elif self.conditions.wind_profile == 'exponential' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
+                raise ValueError("ERROR in exponential mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
             elif self.conditions.wind_profile == 'flat' and None in [self.conditions.wind_exp_coeff, self.conditions.wind_reference_measurment_height]:
                 raise ValueError("ERROR in flat mode!: wind_exp_coeff or wind_reference_measurment_height badly defined!")
+            elif self.conditions.wind_profile not in ('exponential', 'flat', 'logarithmic'):
+                raise ValueError(f"ERROR: unknown wind_profile {self.conditions.wind_profile!r}!")
         except ValueError as err:
             print(err)
             sys.exit()
-- 
2.43.0


From dbb799d175eda437a60621a3036c82212ea586be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 08/13] fix: plot lift data as lift and drag data as drag

---
 pySailingVLM/runner/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index 8cd596d..e555420 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -89,6 +89,6 @@ def main():
     plot_cp(sail_set.zero_mesh, myvlm.p_coeffs, out.name)
     
     mean_cp, cl_data, cd_data = get_data_for_coeff_plot(myvlm, solver)
-    plot_section_coeff(cd_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
-    plot_section_coeff(cl_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
+    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
+    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
     
\ No newline at end of file
-- 
2.43.0


From c62b22356e9b06bf4242e37d670a9a39d9a1d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 09/13] fix: no velocity from a semi-infinite vortex on its own
 axis instead of NaN

---
 pySailingVLM/solver/velocity.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/solver/velocity.py b/pySailingVLM/solver/velocity.py
index 7a058e7..61bc920 100644
--- a/pySailingVLM/solver/velocity.py
+++ b/pySailingVLM/solver/velocity.py
@@ -76,8 +76,11 @@ def vortex_infinite_line(P: np.ndarray, A: np.array, r0: np.ndarray, gamma : flo
     ap = P - A
     norm_ap = np.linalg.norm(ap)
 
-    v_ind = np.cross(u_inf, ap) / (
-                norm_ap * (norm_ap - np.dot(u_inf, ap)))  # todo: consider checking is_in_vortex_core
+    u_cross_ap = np.cross(u_inf, ap)
+    if is_in_vortex_core(numba.typed.List([ap, u_cross_ap])):
+        return np.asarray([0.0, 0.0, 0.0], dtype=np.float64)
+
+    v_ind = u_cross_ap / (norm_ap * (norm_ap - np.dot(u_inf, ap)))
     v_ind *= gamma / (4. * np.pi)
     return v_ind
 
-- 
2.43.0


From 78566d8b3bb06fdce00afea26edfd6cd2cbe198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 10/13] fix: colour panels by circulation when gamma_magnitude
 is asked for

---
 pySailingVLM/solver/panels_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySailingVLM/solver/panels_plotter.py b/pySailingVLM/solver/panels_plotter.py
index ee058b8..da13706 100644
--- a/pySailingVLM/solver/panels_plotter.py
+++ b/pySailingVLM/solver/panels_plotter.py
@@ -86,7 +86,7 @@ def display_panels_xyz(vlm : Vlm, color_panels_by : str) -> Tuple[plt.axes, int]
 
     data = None
     if color_panels_by == 'gamma_magnitude':
-        data = vlm.pressure
+        data = vlm.gamma_magnitude
     elif color_panels_by == 'p_coeffs':
         data = vlm.p_coeffs
     else:
-- 
2.43.0


From 1b9a130ff4abb6acb342f22dcfb05b49c2e7f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 11/13] fix: label the section plots with the sails they show

---
 pySailingVLM/runner/cli.py            | 5 +++--
 pySailingVLM/solver/panels_plotter.py | 3 +--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySailingVLM/runner/cli.py b/pySailingVLM/runner/cli.py
index e555420..0cbe646 100644
--- a/pySailingVLM/runner/cli.py
+++ b/pySailingVLM/runner/cli.py
@@ -88,7 +88,8 @@ def main():
     
     plot_cp(sail_set.zero_mesh, myvlm.p_coeffs, out.name)
     
+    sail_names = [sail.name for sail in sail_set.sails]
     mean_cp, cl_data, cd_data = get_data_for_coeff_plot(myvlm, solver)
-    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'])
-    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'])
+    plot_section_coeff(cl_data, mean_cp,  out.name,  'lift', ['blue', 'green'], sail_names)
+    plot_section_coeff(cd_data, mean_cp, out.name,  'drag',  ['teal', 'purple'], sail_names)
     
\ No newline at end of file
diff --git a/pySailingVLM/solver/panels_plotter.py b/pySailingVLM/solver/panels_plotter.py
index da13706..b8e5f04 100644
--- a/pySailingVLM/solver/panels_plotter.py
+++ b/pySailingVLM/solver/panels_plotter.py
@@ -369,7 +369,7 @@ def plot_cp(mesh : np.ndarray, p_coeffs : np.ndarray, path_to_save : str):
     except NameError:
         hv.save(hvpolys, path_to_save + '/cp_plot.html', backend='bokeh')
         
-def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name: str, colors : list):
+def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name: str, colors : list, lbs : list = ['jib', 'main']):
     
     allowed_names = ('lift', 'drag')
     try:
@@ -384,7 +384,6 @@ def plot_section_coeff(x_data : list, y_data: list, file_name: str, coeff_name:
     ax1 = fig.add_subplot(111)
     
     l = len(y_data)
-    lbs = ['jib', 'main']
     markers = ["o", "^"]
     
     c_name = 'cl'
-- 
2.43.0


From 8beafb310eda8f63536bd9dc0e6bbe087fb65bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:02 +0000
Subject: [PATCH 12/13] fix: take the lift of the wing along y, across its span

---
 pySailingVLM/runner/aircraft.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySailingVLM/runner/aircraft.py b/pySailingVLM/runner/aircraft.py
index 1de797e..0e4745f 100644
--- a/pySailingVLM/runner/aircraft.py
+++ b/pySailingVLM/runner/aircraft.py
@@ -4,7 +4,7 @@ import numpy as np
 
 from pySailingVLM.rotations.geometry_calc import rotation_matrix
 from pySailingVLM.solver.panels import make_panels_from_le_te_points, get_panels_area
-from pySailingVLM.solver.coefs import get_CL_CD_free_wing, get_vlm_CL_CD_free_wing, get_vlm_Cxyz
+from pySailingVLM.solver.coefs import get_CL_CD_free_wing, get_vlm_Cxyz
 from pySailingVLM.solver.coefs import calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points, \
                                 solve_eq, calculate_RHS, calc_velocity_coefs
 
@@ -66,7 +66,8 @@ class Aircraft:
         self.__force, _, _ = calc_force_wrapper(self.__V_app_infw, self.__gamma_magnitude, self.rho, cp, rings, self.n_spanwise, normals, span_vectors, trailing_edge_info, leading_edge_info, 'force_xyz', self.gamma_orientation)
         self.__pressure = calc_pressure(self.__force, normals, areas)
 
-        self.__CL, self.__CD = get_vlm_CL_CD_free_wing(self.__force, self.V, self.rho, self.__S)
+        # the wing spans along z: drag along x, lift along y
+        self.__CD, self.__CL, _ = self.__get_Cxyz()
 
         total_p = np.sum(self.__pressure, axis=0)
         q = 0.5 * rho * (np.linalg.norm(self.V) ** 2) * self.__S
-- 
2.43.0


From c4bc3fea82b51ac5444e7e1744caa108b051a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:02 +0000
Subject: [PATCH 13/13] fix: apparent wind angle for wind from the other side
 of the course

---
 pySailingVLM/inlet/winds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pySailingVLM/inlet/winds.py b/pySailingVLM/inlet/winds.py
index b3ce3f0..9878dde 100644
--- a/pySailingVLM/inlet/winds.py
+++ b/pySailingVLM/inlet/winds.py
@@ -48,6 +48,9 @@ class WindBase:
                                    + 2*self.V_yacht*tws_l*np.cos(self.alpha_true_wind)
                                    + tws_l*tws_l))  # result in [rad]
 
+        if np.sin(self.alpha_true_wind) < 0:  # wind from the other side of the course
+            alfa_yacht = -alfa_yacht
+
         alpha_app_infs = self.alpha_true_wind - alfa_yacht  # result in [rad]
 
         return alpha_app_infs
-- 
2.43.0

