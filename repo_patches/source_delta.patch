From 4b24a668e57fa801e9636ba4348991a61ee69233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 01/27] fix: OldIntegrator with a single node and zero_start
 raised TypeError

---
 openconcept/utilities/math/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/math/integrals.py b/openconcept/utilities/math/integrals.py
index 8b68773..a167796 100644
--- a/openconcept/utilities/math/integrals.py
+++ b/openconcept/utilities/math/integrals.py
@@ -1100,7 +1100,7 @@ class OldIntegrator(ExplicitComponent):
                 input_name = segment_name + "|dt"
                 dts.append(inputs[input_name][0])
         if zero_start:
-            q0 = 0
+            q0 = np.array([0.0])
         else:
             q0 = inputs["q_initial"]
         if not single_point:
-- 
2.43.0


From d3a46d53f4e7539881a4d6719246f039fa841bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 02/27] fix: integrator partials with respect to time bounds or
 segment time steps failed when the integral is zero at some node

---
 openconcept/utilities/math/integrals.py | 46 +++++++++++--------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/openconcept/utilities/math/integrals.py b/openconcept/utilities/math/integrals.py
index a167796..bbd9a5f 100644
--- a/openconcept/utilities/math/integrals.py
+++ b/openconcept/utilities/math/integrals.py
@@ -836,19 +836,13 @@ class Integrator(ExplicitComponent):
                     J[end_name, "duration"] = np.squeeze(dQddtlist[0].getrow(-1).toarray() / (num_nodes - 1))
 
                 elif time_setup == "bounds":
+                    # entries of dQddtlist that happen to be zero are not stored, so use the dense vector
+                    dQddt = np.squeeze(dQddtlist[0].toarray()) / (num_nodes - 1)
                     if not final_only:
-                        if len(dQddtlist[0].data) == 0:
-                            J[qty_name, "t_initial"] = np.zeros(J[qty_name, "t_initial"].shape)
-                            J[qty_name, "t_final"] = np.zeros(J[qty_name, "t_final"].shape)
-                        else:
-                            J[qty_name, "t_initial"] = -dQddtlist[0].data / (num_nodes - 1)
-                            J[qty_name, "t_final"] = dQddtlist[0].data / (num_nodes - 1)
-                    if len(dQddtlist[0].getrow(-1).data) == 0:
-                        J[end_name, "t_initial"] = 0
-                        J[end_name, "t_final"] = 0
-                    else:
-                        J[end_name, "t_initial"] = -dQddtlist[0].getrow(-1).data / (num_nodes - 1)
-                        J[end_name, "t_final"] = dQddtlist[0].getrow(-1).data / (num_nodes - 1)
+                        J[qty_name, "t_initial"] = -dQddt[1:]
+                        J[qty_name, "t_final"] = dQddt[1:]
+                    J[end_name, "t_initial"] = -dQddt[-1]
+                    J[end_name, "t_final"] = dQddt[-1]
 
 
 class OldIntegrator(ExplicitComponent):
@@ -1196,21 +1190,21 @@ class OldIntegrator(ExplicitComponent):
                     J["q_final", "duration"] = np.squeeze(dQddtlist[0].getrow(-1).toarray() / (num_nodes - 1))
 
                 elif time_setup == "bounds":
+                    # entries of dQddtlist that happen to be zero are not stored, so use the dense vector
+                    dQddt = np.squeeze(dQddtlist[0].toarray()) / (num_nodes - 1)
                     if not final_only:
-                        if len(dQddtlist[0].data) == 0:
-                            J["q", "t_initial"] = np.zeros(J["q", "t_initial"].shape)
-                            J["q", "t_final"] = np.zeros(J["q", "t_final"].shape)
-                        else:
-                            J["q", "t_initial"] = -dQddtlist[0].data / (num_nodes - 1)
-                            J["q", "t_final"] = dQddtlist[0].data / (num_nodes - 1)
-                    if len(dQddtlist[0].getrow(-1).data) == 0:
-                        J["q_final", "t_initial"] = 0
-                        J["q_final", "t_final"] = 0
-                    else:
-                        J["q_final", "t_initial"] = -dQddtlist[0].getrow(-1).data / (num_nodes - 1)
-                        J["q_final", "t_final"] = dQddtlist[0].getrow(-1).data / (num_nodes - 1)
+                        J["q", "t_initial"] = -dQddt[1:]
+                        J["q", "t_final"] = dQddt[1:]
+                    J["q_final", "t_initial"] = -dQddt[-1]
+                    J["q_final", "t_final"] = dQddt[-1]
             else:
                 for i_seg, segment_name in enumerate(segment_names):
+                    if segments_to_count is not None and segment_name not in segments_to_count:
+                        # no dependence on this segment's time step
+                        continue
+                    # entries of dQddtlist that happen to be zero are not stored, so use the dense vector
+                    dQddt = np.squeeze(dQddtlist[i_seg].toarray())
                     if not final_only:
-                        J["q", segment_name + "|dt"] = dQddtlist[i_seg].data
-                    J["q_final", segment_name + "|dt"] = dQddtlist[i_seg].getrow(-1).data
+                        # nothing before the second node of this segment depends on its time step
+                        J["q", segment_name + "|dt"] = dQddt[i_seg * num_nodes + 1 :]
+                    J["q_final", segment_name + "|dt"] = dQddt[-1]
-- 
2.43.0


From efa6d13b3e4ac752450233e43abb4f972df6fd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 03/27] fix: AddSubtractComp lost its units when the model was
 set up a second time

---
 openconcept/utilities/math/add_subtract_comp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/add_subtract_comp.py b/openconcept/utilities/math/add_subtract_comp.py
index a699a2b..57aeaaf 100644
--- a/openconcept/utilities/math/add_subtract_comp.py
+++ b/openconcept/utilities/math/add_subtract_comp.py
@@ -209,8 +209,8 @@ class AddSubtractComp(ExplicitComponent):
                 out_shape = (vec_out_size, length)
 
             super(AddSubtractComp, self).add_output(output_name, val, shape=out_shape, **kwargs)
-            units = kwargs.pop("units", None)
-            desc = kwargs.pop("desc", "")
+            units = kwargs.get("units", None)
+            desc = kwargs.get("desc", "")
 
             for i, input_name in enumerate(input_names):
                 if multi_vec_size:
-- 
2.43.0


From 0deeb229b9225fb8648972b221223d37a5f8248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 04/27] fix: ElementMultiplyDivideComp built an invalid unit
 when the first input has none

---
 openconcept/utilities/math/multiply_divide_comp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/multiply_divide_comp.py b/openconcept/utilities/math/multiply_divide_comp.py
index 1e0ed16..8226132 100644
--- a/openconcept/utilities/math/multiply_divide_comp.py
+++ b/openconcept/utilities/math/multiply_divide_comp.py
@@ -267,12 +267,12 @@ class ElementMultiplyDivideComp(ExplicitComponent):
                 # derive the units of the output vector from the inputs
                 if input_units[i] is not None:
                     if divide[i]:
-                        if i == 0:
+                        if len(output_units_assemble) == 0:
                             output_units_assemble.append("(" + input_units[i] + ")**-1 ")
                         else:
                             output_units_assemble.append("/ (" + input_units[i] + ") ")
                     else:
-                        if i == 0:
+                        if len(output_units_assemble) == 0:
                             output_units_assemble.append(input_units[i] + " ")
                         else:
                             output_units_assemble.append("* (" + input_units[i] + ") ")
-- 
2.43.0


From ec0d6ae5cfb627658120ef6a5606258b8fed1542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 05/27] fix: partials of AddSubtractComp and
 ElementMultiplyDivideComp for a single row combined with several rows of
 length > 1

---
 openconcept/utilities/math/add_subtract_comp.py    | 2 +-
 openconcept/utilities/math/multiply_divide_comp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/add_subtract_comp.py b/openconcept/utilities/math/add_subtract_comp.py
index 57aeaaf..51ca9e7 100644
--- a/openconcept/utilities/math/add_subtract_comp.py
+++ b/openconcept/utilities/math/add_subtract_comp.py
@@ -225,7 +225,7 @@ class AddSubtractComp(ExplicitComponent):
 
                 if vec_in_size == 1:
                     # scalar input
-                    col_vals = np.zeros(vec_out_size * length)
+                    col_vals = np.tile(np.arange(length), vec_out_size)
                 else:
                     # vector input
                     col_vals = np.arange(0, vec_out_size * length)
diff --git a/openconcept/utilities/math/multiply_divide_comp.py b/openconcept/utilities/math/multiply_divide_comp.py
index 8226132..d0d4888 100644
--- a/openconcept/utilities/math/multiply_divide_comp.py
+++ b/openconcept/utilities/math/multiply_divide_comp.py
@@ -257,7 +257,7 @@ class ElementMultiplyDivideComp(ExplicitComponent):
 
                 if vec_in_size == 1:
                     # scalar input
-                    col_vals = np.zeros(vec_out_size * length)
+                    col_vals = np.tile(np.arange(length), vec_out_size)
                 else:
                     # vector input
                     col_vals = np.arange(0, vec_out_size * length)
-- 
2.43.0


From a23d1754289f91bf21fb2c8c6e710d314d8b9184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 06/27] fix: plot_OAS_force_contours ignored the width of the
 panels' back edge when computing panel areas

---
 openconcept/utilities/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/visualization.py b/openconcept/utilities/visualization.py
index 448fc47..f67e2c4 100644
--- a/openconcept/utilities/visualization.py
+++ b/openconcept/utilities/visualization.py
@@ -232,7 +232,7 @@ def plot_OAS_force_contours(
 
     # Compute the panel areas
     panel_front_widths = y_mesh[:-1, 1:] - y_mesh[:-1, :-1]
-    panel_back_widths = y_mesh[1:, 1:] - y_mesh[1:, 1:]
+    panel_back_widths = y_mesh[1:, 1:] - y_mesh[1:, :-1]
     panel_avg_widths = 0.5 * (panel_front_widths + panel_back_widths)
     panel_left_side_lengths = x_mesh[1:, :-1] - x_mesh[:-1, :-1]
     panel_right_side_lengths = x_mesh[1:, 1:] - x_mesh[:-1, 1:]
-- 
2.43.0


From aad87abc7ef7ae4bd2a4479939994d6de2481968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 07/27] fix: plot_trajectory_grid failed when no y labels are
 given

---
 openconcept/utilities/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/visualization.py b/openconcept/utilities/visualization.py
index f67e2c4..5c66651 100644
--- a/openconcept/utilities/visualization.py
+++ b/openconcept/utilities/visualization.py
@@ -92,7 +92,7 @@ def plot_trajectory_grid(
             if y_labels[i] is not None:
                 axs[row_no, col_no].set(ylabel=y_labels[i])
         else:
-            axs[row_no, col_no].set(y_var)
+            axs[row_no, col_no].set(ylabel=y_var)
 
         counter_within_file += 1
 
-- 
2.43.0


From 644e58cd688af04ffc9531c173362ef10c67551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 08/27] fix: plot_trajectory_grid failed for a grid layout with
 a single row or column

---
 openconcept/utilities/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/visualization.py b/openconcept/utilities/visualization.py
index 5c66651..d4fb5f9 100644
--- a/openconcept/utilities/visualization.py
+++ b/openconcept/utilities/visualization.py
@@ -71,7 +71,7 @@ def plot_trajectory_grid(
                 # write the file
                 if savefig is not None:
                     plt.savefig(savefig + "_" + str(file_counter) + ".pdf")
-            fig, axs = plt.subplots(grid_layout[0], grid_layout[1], sharex=True, figsize=figsize)
+            fig, axs = plt.subplots(grid_layout[0], grid_layout[1], sharex=True, figsize=figsize, squeeze=False)
             file_counter += 1
             counter_within_file = 0
 
-- 
2.43.0


From 172ab16a8e434812b29e59f6e65b380d7ceb4f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 09/27] fix: DVLabel modified the list of variables handed in
 by the user

---
 openconcept/utilities/dvlabel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openconcept/utilities/dvlabel.py b/openconcept/utilities/dvlabel.py
index 3d803e0..216b9d1 100644
--- a/openconcept/utilities/dvlabel.py
+++ b/openconcept/utilities/dvlabel.py
@@ -27,7 +27,8 @@ class DVLabel(ExplicitComponent):
 
     def __init__(self, vars_list):
         super(DVLabel, self).__init__()
-        self.vars_list = vars_list
+        # copy the lists so that the ones given by the user are left as they are
+        self.vars_list = [list(var_list) for var_list in vars_list]
         for i, var_list in enumerate(self.vars_list):
             val = var_list[2]
             if isinstance(val, (float, int)) or np.isscalar(val):
-- 
2.43.0


From d8ce9013ec8f524a0e443dad49143573c881d87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 10/27] fix: SimplePropeller with three blades always raised
 NotImplementedError

---
 openconcept/propulsion/propeller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/propeller.py b/openconcept/propulsion/propeller.py
index 055f2b9..38ad1e5 100644
--- a/openconcept/propulsion/propeller.py
+++ b/openconcept/propulsion/propeller.py
@@ -61,7 +61,7 @@ class SimplePropeller(Group):
         if n_blades == 3:
             propmap = propeller_map_Raymer(nn)
             staticpropmap = static_propeller_map_Raymer(nn)
-        if n_blades == 4:
+        elif n_blades == 4:
             propmap = propeller_map_highpower(nn)
             staticpropmap = static_propeller_map_highpower(nn)
         else:
-- 
2.43.0


From 1b1795c0735d3aadede025ed38db9d95e974906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 11/27] fix: heat pipe wick resistance ignored the wick
 conductivity

---
 openconcept/thermal/heat_pipe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/thermal/heat_pipe.py b/openconcept/thermal/heat_pipe.py
index d9bc53e..55547a9 100644
--- a/openconcept/thermal/heat_pipe.py
+++ b/openconcept/thermal/heat_pipe.py
@@ -270,14 +270,14 @@ class HeatPipeThermalResistance(ExplicitComponent):
         # Heat enters radially in through end of pipe (evaporator), along length of pipe, and radially out (condenser)
         # Resistance of evaporator
         log_o_i_mesh = np.log(inputs["inner_diam"] / (inputs["inner_diam"] - 2 * self.options["wick_thickness"]))
-        R_mesh_evap = log_o_i_mesh / (2 * np.pi * self.options["length_evap"] * self.options["wall_conduct"])
+        R_mesh_evap = log_o_i_mesh / (2 * np.pi * self.options["length_evap"] * self.options["wick_conduct"])
         log_o_i_pipe = np.log((inputs["inner_diam"] + 2 * inputs["wall_thickness"]) / inputs["inner_diam"])
         R_pipe_evap = log_o_i_pipe / (2 * np.pi * self.options["length_evap"] * self.options["wall_conduct"])
         R_evap = R_mesh_evap + R_pipe_evap
 
         # Resistance of condenser
         log_o_i_mesh = np.log(inputs["inner_diam"] / (inputs["inner_diam"] - 2 * self.options["wick_thickness"]))
-        R_mesh_cond = log_o_i_mesh / (2 * np.pi * self.options["length_cond"] * self.options["wall_conduct"])
+        R_mesh_cond = log_o_i_mesh / (2 * np.pi * self.options["length_cond"] * self.options["wick_conduct"])
         log_o_i_pipe = np.log((inputs["inner_diam"] + 2 * inputs["wall_thickness"]) / inputs["inner_diam"])
         R_pipe_cond = log_o_i_pipe / (2 * np.pi * self.options["length_cond"] * self.options["wall_conduct"])
         R_cond = R_mesh_cond + R_pipe_cond
-- 
2.43.0


From a18924cb30dd7ddc4b2c102424dbfc749a6624ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 12/27] fix: heat exchanger hot side fouling resistance
 replaced the cold side one and was counted twice

---
 openconcept/thermal/heat_exchanger.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/openconcept/thermal/heat_exchanger.py b/openconcept/thermal/heat_exchanger.py
index 9163dbf..1ecd878 100644
--- a/openconcept/thermal/heat_exchanger.py
+++ b/openconcept/thermal/heat_exchanger.py
@@ -907,14 +907,14 @@ class UAOverall(ExplicitComponent):
         Rc = 1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rfc = self.options["fouling_factor_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rh = 1 / inputs["h_conv_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        Rfc = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        outputs["UA_overall"] = 1 / (Rc + Rfc + Rh + Rfc)
+        Rfh = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
+        outputs["UA_overall"] = 1 / (Rc + Rfc + Rh + Rfh)
 
     def compute_partials(self, inputs, J):
         Rc = 1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rfc = self.options["fouling_factor_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rh = 1 / inputs["h_conv_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        Rfc = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
+        Rfh = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
 
         dRcdh = -1 / inputs["h_conv_cold"] ** 2 / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         dRcdA = -1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] ** 2 / inputs["eta_overall_cold"]
@@ -934,12 +934,12 @@ class UAOverall(ExplicitComponent):
             -self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"] ** 2
         )
 
-        J["UA_overall", "h_conv_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdh)
-        J["UA_overall", "heat_transfer_area_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdA + dRfcdA)
-        J["UA_overall", "eta_overall_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdeta + dRfcdeta)
-        J["UA_overall", "h_conv_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdh)
-        J["UA_overall", "heat_transfer_area_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdA + dRfhdA)
-        J["UA_overall", "eta_overall_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdeta + dRfhdeta)
+        J["UA_overall", "h_conv_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdh)
+        J["UA_overall", "heat_transfer_area_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdA + dRfcdA)
+        J["UA_overall", "eta_overall_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdeta + dRfcdeta)
+        J["UA_overall", "h_conv_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdh)
+        J["UA_overall", "heat_transfer_area_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdA + dRfhdA)
+        J["UA_overall", "eta_overall_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdeta + dRfhdeta)
 
 
 class NTUMethod(ExplicitComponent):
-- 
2.43.0


From ae27e21b9de53c4b26fddcad8747403846db343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 13/27] fix: VerticalAcceleration partials ignored that the
 output is clipped

---
 openconcept/mission/phases.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openconcept/mission/phases.py b/openconcept/mission/phases.py
index 057a719..2826cd4 100644
--- a/openconcept/mission/phases.py
+++ b/openconcept/mission/phases.py
@@ -423,6 +423,12 @@ class VerticalAcceleration(ExplicitComponent):
         J["accel_vert", "fltcond|cosgamma"] = inputs["lift"] / m
         J["accel_vert", "weight"] = -(inputs["lift"] * cosg + (inputs["thrust"] - inputs["drag"]) * sing) / m**2
 
+        # The output does not respond to its inputs where it is clipped
+        accel = (inputs["lift"] * cosg + (inputs["thrust"] - inputs["drag"]) * sing - GRAV_CONST * m) / m
+        clipped = np.logical_or(accel < -GRAV_CONST, accel > 2.5 * GRAV_CONST)
+        for name in ["weight", "drag", "lift", "thrust", "fltcond|singamma", "fltcond|cosgamma"]:
+            J["accel_vert", name][clipped] = 0.0
+
 
 class SteadyFlightCL(ExplicitComponent):
     """
-- 
2.43.0


From 44d672cc278f30c9b125efbe7095fd30a4fb1759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 14/27] fix: promote the flight condition inputs of
 SeriesHybridElectricPropulsionSystem

---
 openconcept/propulsion/systems/simple_series_hybrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/systems/simple_series_hybrid.py b/openconcept/propulsion/systems/simple_series_hybrid.py
index 3700417..d7e0bfe 100644
--- a/openconcept/propulsion/systems/simple_series_hybrid.py
+++ b/openconcept/propulsion/systems/simple_series_hybrid.py
@@ -174,7 +174,7 @@ class SeriesHybridElectricPropulsionSystem(Group):
         self.add_subsystem("eng1", SimpleTurboshaft(num_nodes=nn), promotes_outputs=["fuel_flow"])
         self.add_subsystem("batt1", SimpleBattery(num_nodes=nn))
         self.add_subsystem(
-            "prop1", SimplePropeller(num_nodes=nn), promotes_inputs=["fltcond_*"], promotes_outputs=["thrust"]
+            "prop1", SimplePropeller(num_nodes=nn), promotes_inputs=["fltcond|*"], promotes_outputs=["thrust"]
         )
 
         # connect design variables to model component inputs
-- 
2.43.0


From c2f797ed86272b65b332a6648a0abbf6030e4c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 15/27] fix: COPExplicit returned NaN when hot and cold side
 temperatures are equal

---
 openconcept/thermal/chiller.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openconcept/thermal/chiller.py b/openconcept/thermal/chiller.py
index 505cbbc..8dcec24 100644
--- a/openconcept/thermal/chiller.py
+++ b/openconcept/thermal/chiller.py
@@ -331,9 +331,11 @@ class COPExplicit(om.ExplicitComponent):
 
     def compute(self, inputs, outputs):
         delta_T = inputs["T_h"] - inputs["T_c"]
-        COP_raw = inputs["T_c"] / (delta_T)
+        # tanh(delta_T) / delta_T, which is one in the limit of no temperature difference
+        no_diff = delta_T == 0.0
+        tanh_ratio = np.where(no_diff, 1.0, np.tanh(delta_T) / np.where(no_diff, 1.0, delta_T))
         alpha = -1.5
-        a = COP_raw * np.tanh(delta_T) * inputs["eff_factor"] + (1 + np.tanh(-(delta_T + 3))) / 2 * 10
+        a = inputs["T_c"] * tanh_ratio * inputs["eff_factor"] + (1 + np.tanh(-(delta_T + 3))) / 2 * 10
         b = 10.0
         COP_soft = (a * np.exp(alpha * a) + b * np.exp(alpha * b)) / (np.exp(alpha * a) + np.exp(alpha * b))
         outputs["COP"] = COP_soft
-- 
2.43.0


From de5d42f29baf55eafe180196ad92fac1f70b9ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 16/27] fix: let a trajectory with linked phases be set up more
 than once

Links requested in setup() accumulated over repeated Problem.setup() calls, so
the second setup connected every linked state twice and failed.
---
 openconcept/mission/mission_groups.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openconcept/mission/mission_groups.py b/openconcept/mission/mission_groups.py
index b9660e7..cd9c7d9 100644
--- a/openconcept/mission/mission_groups.py
+++ b/openconcept/mission/mission_groups.py
@@ -291,6 +291,13 @@ class TrajectoryGroup(om.Group):
     def __init__(self, **kwargs):
         super(TrajectoryGroup, self).__init__(**kwargs)
         self._oc_phases_to_link = []
+        self._oc_static_phases_to_link = []
+
+    def _setup_procs(self, *args):
+        # Links requested in setup are requested again every time the problem is set up, so only
+        # those made outside of setup are kept
+        self._oc_phases_to_link = list(self._oc_static_phases_to_link)
+        super(TrajectoryGroup, self)._setup_procs(*args)
 
     def _configure(self):
         super(TrajectoryGroup, self)._configure()
@@ -331,4 +338,5 @@ class TrajectoryGroup(om.Group):
         # need to cache this because the data we need isn't ready yet
         if not isinstance(phase1, PhaseGroup) or not isinstance(phase2, PhaseGroup):
             raise ValueError("link_phases phase arguments must be OpenConcept PhaseGroup objects")
-        self._oc_phases_to_link.append((phase1, phase2, states_to_skip))
+        links = self._oc_static_phases_to_link if self._static_mode else self._oc_phases_to_link
+        links.append((phase1, phase2, states_to_skip))
-- 
2.43.0


From 438fe6e65ae340b984f0dcb915b72e6316de6665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:25 +0000
Subject: [PATCH 17/27] fix: start the climb of MissionWithReserve at takeoff|h

takeoff|h is documented as the takeoff and landing altitude, but only
BasicMission connected it to the start of the climb; with reserves the climb
always began at 0 m.
---
 openconcept/mission/profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/mission/profiles.py b/openconcept/mission/profiles.py
index 922dc5c..6251312 100644
--- a/openconcept/mission/profiles.py
+++ b/openconcept/mission/profiles.py
@@ -138,7 +138,7 @@ class FullMissionWithReserve(TrajectoryGroup):
         )
         climb.connect("ode_integ_phase.fltcond|h_final", "climbdt.fltcond|h_final")
         self.connect("cruise|h0", "climb.climbdt.cruise|h0")
-        if not self.include_reserve and not self.include_takeoff:  # BasicMission
+        if not self.include_takeoff:  # BasicMission and MissionWithReserve
             self.connect("takeoff|h", "climb.ode_integ_phase.fltcond|h_initial")
 
         cruise = self.add_subsystem(
-- 
2.43.0


From 03ee8029b7691de141c7a0069bc1fad65284f571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:25 +0000
Subject: [PATCH 18/27] fix: start the reserve climb at the landing altitude
 takeoff|h

The descent before it and the reserve descent after it end at takeoff|h, but
the reserve climb always began at 0 m.
---
 openconcept/mission/profiles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openconcept/mission/profiles.py b/openconcept/mission/profiles.py
index 6251312..a8944ce 100644
--- a/openconcept/mission/profiles.py
+++ b/openconcept/mission/profiles.py
@@ -210,6 +210,7 @@ class FullMissionWithReserve(TrajectoryGroup):
             )
             reserve_climb.connect("ode_integ_phase.fltcond|h_final", "reserve_climbdt.fltcond|h_final")
             self.connect("reserve|h0", "reserve_climb.reserve_climbdt.reserve|h0")
+            self.connect("takeoff|h", "reserve_climb.ode_integ_phase.fltcond|h_initial")
 
             reserve_cruise = self.add_subsystem(
                 "reserve_cruise",
-- 
2.43.0


From a324694a381bc27ccf757f99fc4a36f6d55308de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 19/27] fix: RobustRotationPhase applies its h_obstacle option

The option was declared but never used: the transition and climb always
cleared the default obstacle height.
---
 openconcept/mission/phases.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/openconcept/mission/phases.py b/openconcept/mission/phases.py
index 2826cd4..83bc7e7 100644
--- a/openconcept/mission/phases.py
+++ b/openconcept/mission/phases.py
@@ -1354,7 +1354,8 @@ class RobustRotationPhase(PhaseGroup):
         self.options.declare("aircraft_model", default=None)
         self.options.declare(
             "h_obstacle",
-            default=10.66,
+            default=None,
+            desc="Obstacle clearance height in m, 35 ft if not specified",
         )
 
     def setup(self):
@@ -1375,7 +1376,13 @@ class RobustRotationPhase(PhaseGroup):
         ivcomp.add_output("fltcond|vs", val=np.zeros((nn,)), units="m/s")
         ivcomp.add_output("fltcond|cosgamma", val=np.ones((nn,)), units=None)
 
-        ivcomp.add_output("h_obstacle", val=35, units="ft")
+        h_obstacle = self.options["h_obstacle"]
+        if h_obstacle is None:
+            obstacle_options = {}
+            ivcomp.add_output("h_obstacle", val=35, units="ft")
+        else:
+            obstacle_options = {"h_obstacle": h_obstacle}
+            ivcomp.add_output("h_obstacle", val=h_obstacle, units="m")
 
         self.add_subsystem(
             "altitudes",
@@ -1440,11 +1447,16 @@ class RobustRotationPhase(PhaseGroup):
             promotes_outputs=["gamma"],
         )
         self.add_subsystem(
-            "transition", TakeoffTransition(), promotes_outputs=["h_transition", "s_transition", "t_transition"]
+            "transition",
+            TakeoffTransition(**obstacle_options),
+            promotes_outputs=["h_transition", "s_transition", "t_transition"],
         )
         self.promotes("transition", inputs=["fltcond|Utrue", "gamma"], src_indices=[0], flat_src_indices=True)
         self.add_subsystem(
-            "v2climb", TakeoffClimb(), promotes_inputs=["h_transition"], promotes_outputs=["s_climb", "t_climb"]
+            "v2climb",
+            TakeoffClimb(**obstacle_options),
+            promotes_inputs=["h_transition"],
+            promotes_outputs=["s_climb", "t_climb"],
         )
         self.promotes("v2climb", inputs=["fltcond|Utrue", "gamma"], src_indices=[-1], flat_src_indices=True)
         self.add_subsystem(
-- 
2.43.0


From 33930c3011e983fa9a8a67e71da414cf0ae88b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 20/27] fix: VLMDragPolar interpolates t/c linearly along the
 evenly spaced trapezoidal mesh

ThicknessChordRatioInterp documents cos_spacing=False for meshes from
TrapezoidalPlanformMesh, but VLMDragPolar left the cosine default.
---
 openconcept/aerodynamics/openaerostruct/drag_polar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/aerodynamics/openaerostruct/drag_polar.py b/openconcept/aerodynamics/openaerostruct/drag_polar.py
index 8e5e7b3..e4cf1cf 100644
--- a/openconcept/aerodynamics/openaerostruct/drag_polar.py
+++ b/openconcept/aerodynamics/openaerostruct/drag_polar.py
@@ -303,7 +303,7 @@ class VLMDragPolar(om.Group):
             n_sections = self.options["num_sections"] if geo == "section" else 2
             self.add_subsystem(
                 "t_over_c_interp",
-                ThicknessChordRatioInterp(num_y=ny, num_sections=n_sections),
+                ThicknessChordRatioInterp(num_y=ny, num_sections=n_sections, cos_spacing=geo == "section"),
                 promotes_inputs=[("section_toverc", "ac|geom|wing|toverc")],
             )
 
-- 
2.43.0


From b1cdbb9da5e94eaf53244823bd01e2f06df46fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 21/27] fix: VLM and aerostructural training caches keep their
 inputs only with the data that belongs to them

The cached inputs were overwritten before the training data was computed, so
after a failed analysis the next evaluation at those inputs returned the data
of the previous geometry.
---
 .../openaerostruct/aerostructural.py          | 22 +++++++++----------
 .../aerodynamics/openaerostruct/drag_polar.py | 10 ++++-----
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/openconcept/aerodynamics/openaerostruct/aerostructural.py b/openconcept/aerodynamics/openaerostruct/aerostructural.py
index 195be99..cd5214c 100644
--- a/openconcept/aerodynamics/openaerostruct/aerostructural.py
+++ b/openconcept/aerodynamics/openaerostruct/aerostructural.py
@@ -475,17 +475,6 @@ class OASDataGen(om.ExplicitComponent):
         print(f"S = {S}; AR = {AR}; taper = {taper}; sweep = {sweep}; twist = {twist};")
         print(f"toverc = {toverc}; skin = {skin}; spar = {spar}; temp_incr = {temp_incr}")
 
-        # Copy new values to cached ones
-        OASDataGen.S[:] = S
-        OASDataGen.AR[:] = AR
-        OASDataGen.taper[:] = taper
-        OASDataGen.c4sweep[:] = sweep
-        OASDataGen.twist[:] = twist
-        OASDataGen.toverc[:] = toverc
-        OASDataGen.skin[:] = skin
-        OASDataGen.spar[:] = spar
-        OASDataGen.temp_incr[:] = temp_incr
-
         # Compute new training values
         train_in = {}
         train_in["Mach_number_grid"] = OASDataGen.Mach
@@ -504,6 +493,17 @@ class OASDataGen(om.ExplicitComponent):
         train_in["num_y"] = self.options["num_y"]
 
         data = compute_training_data(train_in, surf_dict=self.options["surf_options"])
+
+        # Copy new values to cached ones (only once the new data has been computed successfully)
+        OASDataGen.S[:] = S
+        OASDataGen.AR[:] = AR
+        OASDataGen.taper[:] = taper
+        OASDataGen.c4sweep[:] = sweep
+        OASDataGen.twist[:] = twist
+        OASDataGen.toverc[:] = toverc
+        OASDataGen.skin[:] = skin
+        OASDataGen.spar[:] = spar
+        OASDataGen.temp_incr[:] = temp_incr
         OASDataGen.CL[:] = data["CL"]
         OASDataGen.CD[:] = data["CD"]
         OASDataGen.failure[:] = data["failure"]
diff --git a/openconcept/aerodynamics/openaerostruct/drag_polar.py b/openconcept/aerodynamics/openaerostruct/drag_polar.py
index e4cf1cf..6d2e0c2 100644
--- a/openconcept/aerodynamics/openaerostruct/drag_polar.py
+++ b/openconcept/aerodynamics/openaerostruct/drag_polar.py
@@ -507,11 +507,6 @@ class VLMDataGen(om.ExplicitComponent):
             outputs["CD_train"] = VLMDataGen.CD
             return
 
-        # Copy new values to cached ones
-        VLMDataGen.mesh[:, :, :] = mesh
-        VLMDataGen.toverc[:] = toverc
-        VLMDataGen.temp_incr[:] = temp_incr
-
         # Compute new training values
         train_in = {}
         train_in["Mach_number_grid"] = VLMDataGen.Mach
@@ -524,6 +519,11 @@ class VLMDataGen(om.ExplicitComponent):
         train_in["num_y"] = self.options["num_y"]
 
         data = compute_training_data(train_in, surf_dict=self.options["surf_options"])
+
+        # Copy new values to cached ones (only once the new data has been computed successfully)
+        VLMDataGen.mesh[:, :, :] = mesh
+        VLMDataGen.toverc[:] = toverc
+        VLMDataGen.temp_incr[:] = temp_incr
         VLMDataGen.CL[:] = data["CL"]
         VLMDataGen.CD[:] = data["CD"]
         VLMDataGen.partials = copy(data["partials"])
-- 
2.43.0


From de7292bf37316d025907ff9b3182176662214905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:27 +0000
Subject: [PATCH 22/27] fix: VLMDragPolar and AerostructDragPolar accept
 training points given as lists

The options are documented and declared as list or ndarray, but setup
used the size attribute, which lists do not have.
---
 .../aerodynamics/openaerostruct/aerostructural.py    | 12 ++++++------
 .../aerodynamics/openaerostruct/drag_polar.py        | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/openconcept/aerodynamics/openaerostruct/aerostructural.py b/openconcept/aerodynamics/openaerostruct/aerostructural.py
index cd5214c..890aa37 100644
--- a/openconcept/aerodynamics/openaerostruct/aerostructural.py
+++ b/openconcept/aerodynamics/openaerostruct/aerostructural.py
@@ -173,9 +173,9 @@ class AerostructDragPolar(om.Group):
 
     def setup(self):
         nn = self.options["num_nodes"]
-        n_alpha = self.options["alpha_train"].size
-        n_Mach = self.options["Mach_train"].size
-        n_alt = self.options["alt_train"].size
+        n_alpha = len(self.options["alpha_train"])
+        n_Mach = len(self.options["Mach_train"])
+        n_alt = len(self.options["alt_train"])
 
         # Training data
         self.add_subsystem(
@@ -391,9 +391,9 @@ class OASDataGen(om.ExplicitComponent):
         self.add_input("ac|aero|CD_nonwing", val=0.0)
         self.add_input("fltcond|TempIncrement", val=0.0, units="degC")
 
-        n_Mach = self.options["Mach_train"].size
-        n_alpha = self.options["alpha_train"].size
-        n_alt = self.options["alt_train"].size
+        n_Mach = len(self.options["Mach_train"])
+        n_alpha = len(self.options["alpha_train"])
+        n_alt = len(self.options["alt_train"])
         self.add_output("CL_train", shape=(n_Mach, n_alpha, n_alt))
         self.add_output("CD_train", shape=(n_Mach, n_alpha, n_alt))
         self.add_output("failure_train", shape=(n_Mach, n_alpha, n_alt))
diff --git a/openconcept/aerodynamics/openaerostruct/drag_polar.py b/openconcept/aerodynamics/openaerostruct/drag_polar.py
index 6d2e0c2..627b50d 100644
--- a/openconcept/aerodynamics/openaerostruct/drag_polar.py
+++ b/openconcept/aerodynamics/openaerostruct/drag_polar.py
@@ -217,9 +217,9 @@ class VLMDragPolar(om.Group):
         ny = self.options["num_y"]
         n_twist = self.options["num_twist"]
         geo = self.options["geometry"]
-        n_alpha = self.options["alpha_train"].size
-        n_Mach = self.options["Mach_train"].size
-        n_alt = self.options["alt_train"].size
+        n_alpha = len(self.options["alpha_train"])
+        n_Mach = len(self.options["Mach_train"])
+        n_alt = len(self.options["alt_train"])
 
         # Get the total number of y coordinates if it's not a scalar
         if geo == "section" and isinstance(ny, int):
@@ -451,9 +451,9 @@ class VLMDataGen(om.ExplicitComponent):
         self.add_input("ac|geom|wing|toverc", shape=(ny,), val=0.12)
         self.add_input("fltcond|TempIncrement", val=0.0, units="degC")
 
-        n_Mach = self.options["Mach_train"].size
-        n_alpha = self.options["alpha_train"].size
-        n_alt = self.options["alt_train"].size
+        n_Mach = len(self.options["Mach_train"])
+        n_alpha = len(self.options["alpha_train"])
+        n_alt = len(self.options["alt_train"])
         self.add_output("CL_train", shape=(n_Mach, n_alpha, n_alt))
         self.add_output("CD_train", shape=(n_Mach, n_alpha, n_alt))
 
-- 
2.43.0


From df27aed484104b9466ce1f32d8193aa34dd3ff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 23/27] fix: aerostructural analysis failed to set up without
 structural weight relief

---
 .../aerodynamics/openaerostruct/aerostructural.py        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openconcept/aerodynamics/openaerostruct/aerostructural.py b/openconcept/aerodynamics/openaerostruct/aerostructural.py
index 890aa37..c8533d4 100644
--- a/openconcept/aerodynamics/openaerostruct/aerostructural.py
+++ b/openconcept/aerodynamics/openaerostruct/aerostructural.py
@@ -1268,6 +1268,11 @@ class Aerostruct(om.Group):
             promotes_outputs=["ac|weights|W_wing"],
         )
 
+        # The coupled analysis only has a load factor if it accounts for weights
+        coupled_load_factor = []
+        if surf_dict["struct_weight_relief"] or surf_dict["distributed_fuel_weight"] or "n_point_masses" in surf_dict:
+            coupled_load_factor = [("coupled.load_factor", "load_factor")]
+
         self.add_subsystem(
             "aerostruct_point",
             AerostructPoint(surfaces=[surf_dict], internally_connect_fuelburn=False),
@@ -1277,9 +1282,9 @@ class Aerostruct(om.Group):
                 "W0",
                 "empty_cg",
                 "load_factor",
-                ("coupled.load_factor", "load_factor"),
                 ("total_perf.wing_structural_mass", "ac|weights|W_wing"),
-            ],
+            ]
+            + coupled_load_factor,
             promotes_outputs=[("CL", "fltcond|CL"), ("CD", "fltcond|CD"), ("wing_perf.failure", "failure")],
         )
         self.connect("airspeed.Utrue", "aerostruct_point.v")
-- 
2.43.0


From dacaf48cf367e6cdcbba9f7c7fb56338a87b54e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:17 +0000
Subject: [PATCH 24/27] fix: derivative of the advance ratio at zero airspeed

---
 openconcept/propulsion/propeller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/propeller.py b/openconcept/propulsion/propeller.py
index 38ad1e5..815c6c9 100644
--- a/openconcept/propulsion/propeller.py
+++ b/openconcept/propulsion/propeller.py
@@ -280,7 +280,7 @@ class PropCoefficients(ExplicitComponent):
         J["cp", "fltcond|rho"] = -cpval / inputs["fltcond|rho"]
         J["cp", "rpm"] = -3.0 * cpval / inputs["rpm"]
         J["cp", "diameter"] = -5.0 * cpval / inputs["diameter"]
-        J["J", "fltcond|Utrue"] = jval / inputs["fltcond|Utrue"]
+        J["J", "fltcond|Utrue"] = 60.0 / inputs["rpm"] / inputs["diameter"]
         J["J", "rpm"] = -jval / inputs["rpm"]
         J["J", "diameter"] = -jval / inputs["diameter"]
         J["prop_Vtip", "rpm"] = 1 / 60 * np.pi * inputs["diameter"] * np.ones(nn)
-- 
2.43.0


From c541ea29d3242805c436d3ef37f3ed11efb506db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:19 +0000
Subject: [PATCH 25/27] fix: propeller thrust derivatives at zero efficiency or
 thrust coefficient ratio

---
 openconcept/propulsion/propeller.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/openconcept/propulsion/propeller.py b/openconcept/propulsion/propeller.py
index 815c6c9..70ab74f 100644
--- a/openconcept/propulsion/propeller.py
+++ b/openconcept/propulsion/propeller.py
@@ -205,16 +205,14 @@ class ThrustCalc(ExplicitComponent):
         J["thrust", "cp"] = dctdcp * inputs["fltcond|rho"] * (inputs["rpm"] / 60.0) ** 2 * inputs["diameter"] ** 4
 
         # if j <= jinterp_min:
-        j_thrust_ct_over_cp[static_idx] = thrust[static_idx] / inputs["ct_over_cp"][static_idx]
+        j_thrust_ct_over_cp[static_idx] = thrust_over_ct[static_idx] * cp[static_idx]
         j_thrust_eta_prop[static_idx] = np.zeros(static_idx[0].shape)
         j_thrust_j[static_idx] = np.zeros(static_idx[0].shape)
 
         # j < jinterp_max:
-        j_thrust_ct_over_cp[interp_idx] = (
-            thrust_over_ct[interp_idx] * interp1[interp_idx] * (ct1[interp_idx] / inputs["ct_over_cp"][interp_idx])
-        )
+        j_thrust_ct_over_cp[interp_idx] = thrust_over_ct[interp_idx] * interp1[interp_idx] * cp[interp_idx]
         j_thrust_eta_prop[interp_idx] = (
-            thrust_over_ct[interp_idx] * interp2[interp_idx] * (ct2[interp_idx] / inputs["eta_prop"][interp_idx])
+            thrust_over_ct[interp_idx] * interp2[interp_idx] * (cp[interp_idx] / j[interp_idx])
         )
         j_thrust_j[interp_idx] = thrust_over_ct[interp_idx] * (
             -ct1[interp_idx] / interv[interp_idx]
@@ -224,7 +222,7 @@ class ThrustCalc(ExplicitComponent):
 
         # else:
         j_thrust_ct_over_cp[dynamic_idx] = np.zeros(dynamic_idx[0].shape)
-        j_thrust_eta_prop[dynamic_idx] = thrust[dynamic_idx] / inputs["eta_prop"][dynamic_idx]
+        j_thrust_eta_prop[dynamic_idx] = thrust_over_ct[dynamic_idx] * cp[dynamic_idx] / j[dynamic_idx]
         j_thrust_j[dynamic_idx] = -thrust[dynamic_idx] / j[dynamic_idx]
 
         J["thrust", "ct_over_cp"] = j_thrust_ct_over_cp
-- 
2.43.0


From ffac0516381855928a17b9c6535de44108dad9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 26/27] fix: declare the unit of the propeller tip speed output

prop_Vtip is computed from the propeller's diameter in meters and its speed in
rad/s, but carried no unit, so it could not be read or connected in another
speed unit and a target that declares one silently received the bare number.
---
 openconcept/propulsion/propeller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/propeller.py b/openconcept/propulsion/propeller.py
index 70ab74f..a091027 100644
--- a/openconcept/propulsion/propeller.py
+++ b/openconcept/propulsion/propeller.py
@@ -249,7 +249,7 @@ class PropCoefficients(ExplicitComponent):
         self.add_output(
             "J", desc="Advance ratio", val=0.2 ** np.ones(nn), lower=1e-4 * np.ones(nn), upper=4.0 * np.ones(nn)
         )
-        self.add_output("prop_Vtip", desc="Propeller tip speed", shape=(nn,))
+        self.add_output("prop_Vtip", units="m/s", desc="Propeller tip speed", shape=(nn,))
 
         self.declare_partials("cp", "diameter")
         self.declare_partials("cp", "shaft_power_in", rows=range(nn), cols=range(nn))
-- 
2.43.0


From e5dddac269c6840f53a815a4f7bfe572b41fd81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:21 +0000
Subject: [PATCH 27/27] fix: polars with different discretizations in one model
 shared training data

VLMDataGen and OASDataGen keep the training grids and the generated data on the
class. With two drag polars of different training points or mesh sizes in a
model, the one set up last replaced the grids of the other, which then trained
its surrogate with data computed at the wrong points. Start over when the cached
data belongs to another discretization.
---
 .../openaerostruct/aerostructural.py          | 18 ++++++++++++++++++
 .../aerodynamics/openaerostruct/drag_polar.py | 19 +++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/openconcept/aerodynamics/openaerostruct/aerostructural.py b/openconcept/aerodynamics/openaerostruct/aerostructural.py
index c8533d4..8b27190 100644
--- a/openconcept/aerodynamics/openaerostruct/aerostructural.py
+++ b/openconcept/aerodynamics/openaerostruct/aerostructural.py
@@ -422,6 +422,20 @@ class OASDataGen(om.ExplicitComponent):
         else:
             OASDataGen.surf_options = deepcopy(self.options["surf_options"])
 
+        self._reset_cache()
+
+    def _discretization(self):
+        # Everything the cached training data depends on besides the inputs and the surf_options
+        opt = self.options
+        sizes = tuple(opt[name] for name in ("num_x", "num_y", "num_twist", "num_toverc", "num_skin", "num_spar"))
+        return sizes + tuple(tuple(opt[name]) for name in ("Mach_train", "alpha_train", "alt_train"))
+
+    def _reset_cache(self):
+        n_Mach = len(self.options["Mach_train"])
+        n_alpha = len(self.options["alpha_train"])
+        n_alt = len(self.options["alt_train"])
+        OASDataGen.discretization = self._discretization()
+
         # Generate grids and default cached values for training inputs and outputs
         OASDataGen.S = -np.ones(1)
         OASDataGen.AR = -np.ones(1)
@@ -453,6 +467,10 @@ class OASDataGen(om.ExplicitComponent):
         CD_nonwing = inputs["ac|aero|CD_nonwing"]
         temp_incr = inputs["fltcond|TempIncrement"]
 
+        # Cached values from an instance with another discretization are of no use here
+        if OASDataGen.discretization != self._discretization():
+            self._reset_cache()
+
         # If the inputs are unchaged, use the previously calculated values
         tol = self.options["regen_tol"]  # floating point comparison tolerance
         if (
diff --git a/openconcept/aerodynamics/openaerostruct/drag_polar.py b/openconcept/aerodynamics/openaerostruct/drag_polar.py
index 627b50d..2bc87a0 100644
--- a/openconcept/aerodynamics/openaerostruct/drag_polar.py
+++ b/openconcept/aerodynamics/openaerostruct/drag_polar.py
@@ -480,6 +480,21 @@ class VLMDataGen(om.ExplicitComponent):
         else:
             VLMDataGen.surf_options = deepcopy(self.options["surf_options"])
 
+        self._reset_cache()
+
+    def _discretization(self):
+        # Everything the cached training data depends on besides the inputs and the surf_options
+        opt = self.options
+        return (opt["num_x"], opt["num_y"]) + tuple(tuple(opt[name]) for name in ("Mach_train", "alpha_train", "alt_train"))
+
+    def _reset_cache(self):
+        nx = self.options["num_x"]
+        ny = self.options["num_y"]
+        n_Mach = len(self.options["Mach_train"])
+        n_alpha = len(self.options["alpha_train"])
+        n_alt = len(self.options["alt_train"])
+        VLMDataGen.discretization = self._discretization()
+
         # Generate grids and default cached values for training inputs and outputs
         VLMDataGen.mesh = -np.ones((nx + 1, ny + 1, 3))
         VLMDataGen.toverc = -np.ones(ny)
@@ -496,6 +511,10 @@ class VLMDataGen(om.ExplicitComponent):
         toverc = inputs["ac|geom|wing|toverc"]
         temp_incr = inputs["fltcond|TempIncrement"]
 
+        # Cached values from an instance with another discretization are of no use here
+        if VLMDataGen.discretization != self._discretization():
+            self._reset_cache()
+
         # If the inputs are unchaged, use the previously calculated values
         tol = 1e-13  # floating point comparison tolerance
         if (
-- 
2.43.0

