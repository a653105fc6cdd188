From 4e97525af5e6142f4679577cc59766facc633b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 01/26] fix: OldIntegrator with zero_start crashes for a
 single-point analysis

---
 openconcept/utilities/math/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/math/integrals.py b/openconcept/utilities/math/integrals.py
index 8b68773..a167796 100644
--- a/openconcept/utilities/math/integrals.py
+++ b/openconcept/utilities/math/integrals.py
@@ -1100,7 +1100,7 @@ class OldIntegrator(ExplicitComponent):
                 input_name = segment_name + "|dt"
                 dts.append(inputs[input_name][0])
         if zero_start:
-            q0 = 0
+            q0 = np.array([0.0])
         else:
             q0 = inputs["q_initial"]
         if not single_point:
-- 
2.43.0


From ea2bc1c077ae91f53044a08e8bc3adf5999af5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 02/26] fix: integrator partials w.r.t. time bounds and segment
 time steps crash when the partial integral is zero at a node

---
 openconcept/utilities/math/integrals.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/openconcept/utilities/math/integrals.py b/openconcept/utilities/math/integrals.py
index a167796..510cb75 100644
--- a/openconcept/utilities/math/integrals.py
+++ b/openconcept/utilities/math/integrals.py
@@ -837,12 +837,8 @@ class Integrator(ExplicitComponent):
 
                 elif time_setup == "bounds":
                     if not final_only:
-                        if len(dQddtlist[0].data) == 0:
-                            J[qty_name, "t_initial"] = np.zeros(J[qty_name, "t_initial"].shape)
-                            J[qty_name, "t_final"] = np.zeros(J[qty_name, "t_final"].shape)
-                        else:
-                            J[qty_name, "t_initial"] = -dQddtlist[0].data / (num_nodes - 1)
-                            J[qty_name, "t_final"] = dQddtlist[0].data / (num_nodes - 1)
+                        J[qty_name, "t_initial"] = -np.squeeze(dQddtlist[0].toarray()[1:]) / (num_nodes - 1)
+                        J[qty_name, "t_final"] = np.squeeze(dQddtlist[0].toarray()[1:]) / (num_nodes - 1)
                     if len(dQddtlist[0].getrow(-1).data) == 0:
                         J[end_name, "t_initial"] = 0
                         J[end_name, "t_final"] = 0
@@ -1046,6 +1042,8 @@ class OldIntegrator(ExplicitComponent):
             else:
                 if time_setup != "dt":
                     raise ValueError("dt is the only time_setup supported for multisegment integrations")
+                # rows of the sparse partials w.r.t. each time step (the rates at run time must not change the pattern)
+                self._dQddt_rows = [dQddt_seg.nonzero()[0] for dQddt_seg in dQddtlist]
                 for i_seg, segment_name in enumerate(segment_names):
                     self.add_input(segment_name + "|dt", units=diff_units, desc="Time step")
                     dQddt_seg = dQddtlist[i_seg]
@@ -1197,12 +1195,8 @@ class OldIntegrator(ExplicitComponent):
 
                 elif time_setup == "bounds":
                     if not final_only:
-                        if len(dQddtlist[0].data) == 0:
-                            J["q", "t_initial"] = np.zeros(J["q", "t_initial"].shape)
-                            J["q", "t_final"] = np.zeros(J["q", "t_final"].shape)
-                        else:
-                            J["q", "t_initial"] = -dQddtlist[0].data / (num_nodes - 1)
-                            J["q", "t_final"] = dQddtlist[0].data / (num_nodes - 1)
+                        J["q", "t_initial"] = -np.squeeze(dQddtlist[0].toarray()[1:]) / (num_nodes - 1)
+                        J["q", "t_final"] = np.squeeze(dQddtlist[0].toarray()[1:]) / (num_nodes - 1)
                     if len(dQddtlist[0].getrow(-1).data) == 0:
                         J["q_final", "t_initial"] = 0
                         J["q_final", "t_final"] = 0
@@ -1211,6 +1205,8 @@ class OldIntegrator(ExplicitComponent):
                         J["q_final", "t_final"] = dQddtlist[0].getrow(-1).data / (num_nodes - 1)
             else:
                 for i_seg, segment_name in enumerate(segment_names):
+                    dQddt_seg = dQddtlist[i_seg].toarray().ravel()
+                    rows = self._dQddt_rows[i_seg]
                     if not final_only:
-                        J["q", segment_name + "|dt"] = dQddtlist[i_seg].data
-                    J["q_final", segment_name + "|dt"] = dQddtlist[i_seg].getrow(-1).data
+                        J["q", segment_name + "|dt"] = dQddt_seg[rows]
+                    J["q_final", segment_name + "|dt"] = dQddt_seg[rows[rows == len(dQddt_seg) - 1]]
-- 
2.43.0


From 7d6f8bb9358670fd0a3e619f0aae5a9fb87ab6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 03/26] fix: SimplePropeller refuses three blades although a
 three-bladed map is provided

---
 openconcept/propulsion/propeller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/propeller.py b/openconcept/propulsion/propeller.py
index 055f2b9..38ad1e5 100644
--- a/openconcept/propulsion/propeller.py
+++ b/openconcept/propulsion/propeller.py
@@ -61,7 +61,7 @@ class SimplePropeller(Group):
         if n_blades == 3:
             propmap = propeller_map_Raymer(nn)
             staticpropmap = static_propeller_map_Raymer(nn)
-        if n_blades == 4:
+        elif n_blades == 4:
             propmap = propeller_map_highpower(nn)
             staticpropmap = static_propeller_map_highpower(nn)
         else:
-- 
2.43.0


From c8d8466c4018376756c298e2f1f33b52f249525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 04/26] fix: AddSubtractComp forgets the units and description
 of its equations when it is set up again

---
 openconcept/utilities/math/add_subtract_comp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/add_subtract_comp.py b/openconcept/utilities/math/add_subtract_comp.py
index a699a2b..57aeaaf 100644
--- a/openconcept/utilities/math/add_subtract_comp.py
+++ b/openconcept/utilities/math/add_subtract_comp.py
@@ -209,8 +209,8 @@ class AddSubtractComp(ExplicitComponent):
                 out_shape = (vec_out_size, length)
 
             super(AddSubtractComp, self).add_output(output_name, val, shape=out_shape, **kwargs)
-            units = kwargs.pop("units", None)
-            desc = kwargs.pop("desc", "")
+            units = kwargs.get("units", None)
+            desc = kwargs.get("desc", "")
 
             for i, input_name in enumerate(input_names):
                 if multi_vec_size:
-- 
2.43.0


From dedcae254275b30a84bda93664ad8e4db8a76996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 05/26] fix: partials of row inputs broadcast over the vector
 length when the equation has more than one column

---
 openconcept/utilities/math/add_subtract_comp.py    | 2 +-
 openconcept/utilities/math/multiply_divide_comp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/add_subtract_comp.py b/openconcept/utilities/math/add_subtract_comp.py
index 57aeaaf..d11e096 100644
--- a/openconcept/utilities/math/add_subtract_comp.py
+++ b/openconcept/utilities/math/add_subtract_comp.py
@@ -225,7 +225,7 @@ class AddSubtractComp(ExplicitComponent):
 
                 if vec_in_size == 1:
                     # scalar input
-                    col_vals = np.zeros(vec_out_size * length)
+                    col_vals = np.tile(np.arange(0, length), vec_out_size)
                 else:
                     # vector input
                     col_vals = np.arange(0, vec_out_size * length)
diff --git a/openconcept/utilities/math/multiply_divide_comp.py b/openconcept/utilities/math/multiply_divide_comp.py
index 1e0ed16..8b7906e 100644
--- a/openconcept/utilities/math/multiply_divide_comp.py
+++ b/openconcept/utilities/math/multiply_divide_comp.py
@@ -257,7 +257,7 @@ class ElementMultiplyDivideComp(ExplicitComponent):
 
                 if vec_in_size == 1:
                     # scalar input
-                    col_vals = np.zeros(vec_out_size * length)
+                    col_vals = np.tile(np.arange(0, length), vec_out_size)
                 else:
                     # vector input
                     col_vals = np.arange(0, vec_out_size * length)
-- 
2.43.0


From cf82e38695032c9565f647b3c6ef6257ea373ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 06/26] fix: ElementMultiplyDivideComp builds an invalid unit
 string when the first input has no units

---
 openconcept/utilities/math/multiply_divide_comp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/multiply_divide_comp.py b/openconcept/utilities/math/multiply_divide_comp.py
index 8b7906e..88e4acc 100644
--- a/openconcept/utilities/math/multiply_divide_comp.py
+++ b/openconcept/utilities/math/multiply_divide_comp.py
@@ -267,12 +267,12 @@ class ElementMultiplyDivideComp(ExplicitComponent):
                 # derive the units of the output vector from the inputs
                 if input_units[i] is not None:
                     if divide[i]:
-                        if i == 0:
+                        if len(output_units_assemble) == 0:
                             output_units_assemble.append("(" + input_units[i] + ")**-1 ")
                         else:
                             output_units_assemble.append("/ (" + input_units[i] + ") ")
                     else:
-                        if i == 0:
+                        if len(output_units_assemble) == 0:
                             output_units_assemble.append(input_units[i] + " ")
                         else:
                             output_units_assemble.append("* (" + input_units[i] + ") ")
-- 
2.43.0


From 314f49653c9aacf3c01dcfea5362026b13e6cd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 07/26] fix: MaxComp and MinComp over-count the derivative when
 several elements tie

---
 openconcept/utilities/math/max_min_comp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/max_min_comp.py b/openconcept/utilities/math/max_min_comp.py
index 3d65d9f..c05823a 100644
--- a/openconcept/utilities/math/max_min_comp.py
+++ b/openconcept/utilities/math/max_min_comp.py
@@ -41,7 +41,8 @@ class MaxComp(om.ExplicitComponent):
         outputs["max"] = np.amax(inputs["array"])
 
     def compute_partials(self, inputs, J):
-        J["max", "array"] = np.where(inputs["array"] == np.amax(inputs["array"]), 1, 0)
+        # If several elements tie for the maximum, the derivative is carried by the first of them
+        J["max", "array"] = np.where(np.arange(self.options["num_nodes"]) == np.argmax(inputs["array"]), 1, 0)
 
 
 class MinComp(om.ExplicitComponent):
@@ -85,4 +86,5 @@ class MinComp(om.ExplicitComponent):
         print(outputs["min"])
 
     def compute_partials(self, inputs, J):
-        J["min", "array"] = np.where(inputs["array"] == np.amin(inputs["array"]), 1, 0)
+        # If several elements tie for the minimum, the derivative is carried by the first of them
+        J["min", "array"] = np.where(np.arange(self.options["num_nodes"]) == np.argmin(inputs["array"]), 1, 0)
-- 
2.43.0


From d281b13d3ad7a00a06a0191ce1fc4558eceeaf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 08/26] Revert "fix: MaxComp and MinComp over-count the
 derivative when several elements tie"

This reverts commit 314f49653c9aacf3c01dcfea5362026b13e6cd7a.
---
 openconcept/utilities/math/max_min_comp.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/openconcept/utilities/math/max_min_comp.py b/openconcept/utilities/math/max_min_comp.py
index c05823a..3d65d9f 100644
--- a/openconcept/utilities/math/max_min_comp.py
+++ b/openconcept/utilities/math/max_min_comp.py
@@ -41,8 +41,7 @@ class MaxComp(om.ExplicitComponent):
         outputs["max"] = np.amax(inputs["array"])
 
     def compute_partials(self, inputs, J):
-        # If several elements tie for the maximum, the derivative is carried by the first of them
-        J["max", "array"] = np.where(np.arange(self.options["num_nodes"]) == np.argmax(inputs["array"]), 1, 0)
+        J["max", "array"] = np.where(inputs["array"] == np.amax(inputs["array"]), 1, 0)
 
 
 class MinComp(om.ExplicitComponent):
@@ -86,5 +85,4 @@ class MinComp(om.ExplicitComponent):
         print(outputs["min"])
 
     def compute_partials(self, inputs, J):
-        # If several elements tie for the minimum, the derivative is carried by the first of them
-        J["min", "array"] = np.where(np.arange(self.options["num_nodes"]) == np.argmin(inputs["array"]), 1, 0)
+        J["min", "array"] = np.where(inputs["array"] == np.amin(inputs["array"]), 1, 0)
-- 
2.43.0


From 29825e642e7b1fa8e6a71483877b8c589544d021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 09/26] fix: IntegratorGroup cannot be set up again when it
 outlives the first setup

---
 openconcept/mission/mission_groups.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openconcept/mission/mission_groups.py b/openconcept/mission/mission_groups.py
index b9660e7..bb50828 100644
--- a/openconcept/mission/mission_groups.py
+++ b/openconcept/mission/mission_groups.py
@@ -212,6 +212,13 @@ class IntegratorGroup(om.Group):
         # (This IntegratorGroup is never added directly to the OM model)
         time_units = self._oc_time_units
         num_nodes = self.options["num_nodes"]
+        if "ode_integ" in self._static_subsystems_allprocs:
+            # This group has been set up before. Replace the integrator with a new one since configure
+            # adds the integrands again. Groups are out of setup until Group._setup_procs is called below.
+            del self._static_subsystems_allprocs["ode_integ"]
+            self._subsystems_allprocs = {}
+            self._problem_meta = None
+            self._setup_procs_finished = False
         self.add_subsystem(
             "ode_integ",
             Integrator(time_setup="duration", method="simpson", diff_units=time_units, num_nodes=num_nodes),
-- 
2.43.0


From 38892eb05354031ffd851c23c3e366cc0b5a7cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 10/26] fix: TrajectoryGroup cannot be set up again because the
 phase links accumulate

---
 openconcept/mission/mission_groups.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/openconcept/mission/mission_groups.py b/openconcept/mission/mission_groups.py
index bb50828..be9cd74 100644
--- a/openconcept/mission/mission_groups.py
+++ b/openconcept/mission/mission_groups.py
@@ -298,6 +298,12 @@ class TrajectoryGroup(om.Group):
     def __init__(self, **kwargs):
         super(TrajectoryGroup, self).__init__(**kwargs)
         self._oc_phases_to_link = []
+        self._oc_static_phases_to_link = []
+
+    def _setup_procs(self, *args):
+        # Forget the links added by a previous setup, since setup adds them again
+        self._oc_phases_to_link = self._oc_static_phases_to_link.copy()
+        super(TrajectoryGroup, self)._setup_procs(*args)
 
     def _configure(self):
         super(TrajectoryGroup, self)._configure()
@@ -338,4 +344,7 @@ class TrajectoryGroup(om.Group):
         # need to cache this because the data we need isn't ready yet
         if not isinstance(phase1, PhaseGroup) or not isinstance(phase2, PhaseGroup):
             raise ValueError("link_phases phase arguments must be OpenConcept PhaseGroup objects")
-        self._oc_phases_to_link.append((phase1, phase2, states_to_skip))
+        if self._static_mode:  # called outside of setup, so it must survive setting up again
+            self._oc_static_phases_to_link.append((phase1, phase2, states_to_skip))
+        else:
+            self._oc_phases_to_link.append((phase1, phase2, states_to_skip))
-- 
2.43.0


From dc99b53a4108297e359daefcacb359389027bf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 11/26] fix: VerticalAcceleration partials are zero where the
 acceleration is clipped

---
 openconcept/mission/phases.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openconcept/mission/phases.py b/openconcept/mission/phases.py
index 057a719..6e2f423 100644
--- a/openconcept/mission/phases.py
+++ b/openconcept/mission/phases.py
@@ -423,6 +423,12 @@ class VerticalAcceleration(ExplicitComponent):
         J["accel_vert", "fltcond|cosgamma"] = inputs["lift"] / m
         J["accel_vert", "weight"] = -(inputs["lift"] * cosg + (inputs["thrust"] - inputs["drag"]) * sing) / m**2
 
+        # no sensitivity where the acceleration is clipped
+        accel = (inputs["lift"] * cosg + (inputs["thrust"] - inputs["drag"]) * sing - GRAV_CONST * m) / m
+        clipped = np.logical_or(accel < -GRAV_CONST, accel > 2.5 * GRAV_CONST)
+        for var in ["thrust", "drag", "lift", "fltcond|singamma", "fltcond|cosgamma", "weight"]:
+            J["accel_vert", var] = np.where(clipped, 0.0, J["accel_vert", var])
+
 
 class SteadyFlightCL(ExplicitComponent):
     """
-- 
2.43.0


From 95d8fbd83e5c1ea3e0335c6036ebbf2e642d8eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 12/26] fix: MissionWithReserve starts its climb from takeoff|h

---
 openconcept/mission/profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/mission/profiles.py b/openconcept/mission/profiles.py
index 922dc5c..6251312 100644
--- a/openconcept/mission/profiles.py
+++ b/openconcept/mission/profiles.py
@@ -138,7 +138,7 @@ class FullMissionWithReserve(TrajectoryGroup):
         )
         climb.connect("ode_integ_phase.fltcond|h_final", "climbdt.fltcond|h_final")
         self.connect("cruise|h0", "climb.climbdt.cruise|h0")
-        if not self.include_reserve and not self.include_takeoff:  # BasicMission
+        if not self.include_takeoff:  # BasicMission and MissionWithReserve
             self.connect("takeoff|h", "climb.ode_integ_phase.fltcond|h_initial")
 
         cruise = self.add_subsystem(
-- 
2.43.0


From aac6409862bb8fc329e9757231347b4962e9c161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 13/26] fix: drag surrogate caches keep their keys until the
 training data is available

---
 .../openaerostruct/aerostructural.py          | 23 ++++++++++---------
 .../aerodynamics/openaerostruct/drag_polar.py | 11 +++++----
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/openconcept/aerodynamics/openaerostruct/aerostructural.py b/openconcept/aerodynamics/openaerostruct/aerostructural.py
index 195be99..fb9a30f 100644
--- a/openconcept/aerodynamics/openaerostruct/aerostructural.py
+++ b/openconcept/aerodynamics/openaerostruct/aerostructural.py
@@ -475,17 +475,6 @@ class OASDataGen(om.ExplicitComponent):
         print(f"S = {S}; AR = {AR}; taper = {taper}; sweep = {sweep}; twist = {twist};")
         print(f"toverc = {toverc}; skin = {skin}; spar = {spar}; temp_incr = {temp_incr}")
 
-        # Copy new values to cached ones
-        OASDataGen.S[:] = S
-        OASDataGen.AR[:] = AR
-        OASDataGen.taper[:] = taper
-        OASDataGen.c4sweep[:] = sweep
-        OASDataGen.twist[:] = twist
-        OASDataGen.toverc[:] = toverc
-        OASDataGen.skin[:] = skin
-        OASDataGen.spar[:] = spar
-        OASDataGen.temp_incr[:] = temp_incr
-
         # Compute new training values
         train_in = {}
         train_in["Mach_number_grid"] = OASDataGen.Mach
@@ -509,6 +498,18 @@ class OASDataGen(om.ExplicitComponent):
         OASDataGen.failure[:] = data["failure"]
         OASDataGen.W_wing = data["W_wing"]
         OASDataGen.partials = copy(data["partials"])
+
+        # Copy new values to cached ones (only now that the training data for them is available)
+        OASDataGen.S[:] = S
+        OASDataGen.AR[:] = AR
+        OASDataGen.taper[:] = taper
+        OASDataGen.c4sweep[:] = sweep
+        OASDataGen.twist[:] = twist
+        OASDataGen.toverc[:] = toverc
+        OASDataGen.skin[:] = skin
+        OASDataGen.spar[:] = spar
+        OASDataGen.temp_incr[:] = temp_incr
+
         outputs["CL_train"] = OASDataGen.CL
         outputs["CD_train"] = OASDataGen.CD + CD_nonwing
         outputs["failure_train"] = OASDataGen.failure
diff --git a/openconcept/aerodynamics/openaerostruct/drag_polar.py b/openconcept/aerodynamics/openaerostruct/drag_polar.py
index 8e5e7b3..a7b5309 100644
--- a/openconcept/aerodynamics/openaerostruct/drag_polar.py
+++ b/openconcept/aerodynamics/openaerostruct/drag_polar.py
@@ -507,11 +507,6 @@ class VLMDataGen(om.ExplicitComponent):
             outputs["CD_train"] = VLMDataGen.CD
             return
 
-        # Copy new values to cached ones
-        VLMDataGen.mesh[:, :, :] = mesh
-        VLMDataGen.toverc[:] = toverc
-        VLMDataGen.temp_incr[:] = temp_incr
-
         # Compute new training values
         train_in = {}
         train_in["Mach_number_grid"] = VLMDataGen.Mach
@@ -527,6 +522,12 @@ class VLMDataGen(om.ExplicitComponent):
         VLMDataGen.CL[:] = data["CL"]
         VLMDataGen.CD[:] = data["CD"]
         VLMDataGen.partials = copy(data["partials"])
+
+        # Copy new values to cached ones (only now that the training data for them is available)
+        VLMDataGen.mesh[:, :, :] = mesh
+        VLMDataGen.toverc[:] = toverc
+        VLMDataGen.temp_incr[:] = temp_incr
+
         outputs["CL_train"] = VLMDataGen.CL
         outputs["CD_train"] = VLMDataGen.CD
 
-- 
2.43.0


From d5aac0855fdac3209ad00c102354e6d245be462d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 14/26] fix: drag surrogate training data is kept per mesh size
 and training points

---
 .../openaerostruct/aerostructural.py          | 114 ++++++++++--------
 .../aerodynamics/openaerostruct/drag_polar.py |  55 +++++----
 2 files changed, 93 insertions(+), 76 deletions(-)

diff --git a/openconcept/aerodynamics/openaerostruct/aerostructural.py b/openconcept/aerodynamics/openaerostruct/aerostructural.py
index fb9a30f..a11caf4 100644
--- a/openconcept/aerodynamics/openaerostruct/aerostructural.py
+++ b/openconcept/aerodynamics/openaerostruct/aerostructural.py
@@ -337,6 +337,9 @@ class OASDataGen(om.ExplicitComponent):
         Difference in input variable above which to regenerate the training data.
     """
 
+    # Training data shared by the instances that have the same mesh size and training points
+    cache = {}
+
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
         self.cite = CITATION
@@ -423,25 +426,31 @@ class OASDataGen(om.ExplicitComponent):
             OASDataGen.surf_options = deepcopy(self.options["surf_options"])
 
         # Generate grids and default cached values for training inputs and outputs
-        OASDataGen.S = -np.ones(1)
-        OASDataGen.AR = -np.ones(1)
-        OASDataGen.taper = -np.ones(1)
-        OASDataGen.c4sweep = -np.ones(1)
-        OASDataGen.twist = -1 * np.ones((self.options["num_twist"],))
-        OASDataGen.toverc = -1 * np.ones((self.options["num_toverc"],))
-        OASDataGen.skin = -1 * np.ones((self.options["num_skin"],))
-        OASDataGen.spar = -1 * np.ones((self.options["num_spar"],))
-        OASDataGen.temp_incr = -42 * np.ones(1)
-        OASDataGen.Mach, OASDataGen.alpha, OASDataGen.alt = np.meshgrid(
+        size_options = ["num_x", "num_y", "num_twist", "num_toverc", "num_skin", "num_spar"]
+        self.cache_key = tuple(self.options[opt] for opt in size_options) + tuple(
+            tuple(self.options[opt]) for opt in ["Mach_train", "alpha_train", "alt_train"]
+        )
+        cache = OASDataGen.cache[self.cache_key] = {}
+        cache["S"] = -np.ones(1)
+        cache["AR"] = -np.ones(1)
+        cache["taper"] = -np.ones(1)
+        cache["c4sweep"] = -np.ones(1)
+        cache["twist"] = -1 * np.ones((self.options["num_twist"],))
+        cache["toverc"] = -1 * np.ones((self.options["num_toverc"],))
+        cache["skin"] = -1 * np.ones((self.options["num_skin"],))
+        cache["spar"] = -1 * np.ones((self.options["num_spar"],))
+        cache["temp_incr"] = -42 * np.ones(1)
+        cache["Mach"], cache["alpha"], cache["alt"] = np.meshgrid(
             self.options["Mach_train"], self.options["alpha_train"], self.options["alt_train"], indexing="ij"
         )
-        OASDataGen.CL = np.zeros((n_Mach, n_alpha, n_alt))
-        OASDataGen.CD = np.zeros((n_Mach, n_alpha, n_alt))
-        OASDataGen.failure = np.zeros((n_Mach, n_alpha, n_alt))
-        OASDataGen.W_wing = 0
-        OASDataGen.partials = None
+        cache["CL"] = np.zeros((n_Mach, n_alpha, n_alt))
+        cache["CD"] = np.zeros((n_Mach, n_alpha, n_alt))
+        cache["failure"] = np.zeros((n_Mach, n_alpha, n_alt))
+        cache["W_wing"] = 0
+        cache["partials"] = None
 
     def compute(self, inputs, outputs):
+        cache = OASDataGen.cache[self.cache_key]
         S = inputs["ac|geom|wing|S_ref"]
         AR = inputs["ac|geom|wing|AR"]
         taper = inputs["ac|geom|wing|taper"]
@@ -456,20 +465,20 @@ class OASDataGen(om.ExplicitComponent):
         # If the inputs are unchaged, use the previously calculated values
         tol = self.options["regen_tol"]  # floating point comparison tolerance
         if (
-            np.abs(S - OASDataGen.S) < tol
-            and np.abs(AR - OASDataGen.AR) < tol
-            and np.abs(taper - OASDataGen.taper) < tol
-            and np.abs(sweep - OASDataGen.c4sweep) < tol
-            and np.all(np.abs(twist - OASDataGen.twist) < tol)
-            and np.all(np.abs(toverc - OASDataGen.toverc) < tol)
-            and np.all(np.abs(skin - OASDataGen.skin) < tol)
-            and np.all(np.abs(spar - OASDataGen.spar) < tol)
-            and np.abs(temp_incr - OASDataGen.temp_incr) < tol
+            np.abs(S - cache["S"]) < tol
+            and np.abs(AR - cache["AR"]) < tol
+            and np.abs(taper - cache["taper"]) < tol
+            and np.abs(sweep - cache["c4sweep"]) < tol
+            and np.all(np.abs(twist - cache["twist"]) < tol)
+            and np.all(np.abs(toverc - cache["toverc"]) < tol)
+            and np.all(np.abs(skin - cache["skin"]) < tol)
+            and np.all(np.abs(spar - cache["spar"]) < tol)
+            and np.abs(temp_incr - cache["temp_incr"]) < tol
         ):
-            outputs["CL_train"] = OASDataGen.CL
-            outputs["CD_train"] = OASDataGen.CD + CD_nonwing
-            outputs["failure_train"] = OASDataGen.failure
-            outputs["W_wing"] = OASDataGen.W_wing
+            outputs["CL_train"] = cache["CL"]
+            outputs["CD_train"] = cache["CD"] + CD_nonwing
+            outputs["failure_train"] = cache["failure"]
+            outputs["W_wing"] = cache["W_wing"]
             return
 
         print(f"S = {S}; AR = {AR}; taper = {taper}; sweep = {sweep}; twist = {twist};")
@@ -477,9 +486,9 @@ class OASDataGen(om.ExplicitComponent):
 
         # Compute new training values
         train_in = {}
-        train_in["Mach_number_grid"] = OASDataGen.Mach
-        train_in["alpha_grid"] = OASDataGen.alpha
-        train_in["alt_grid"] = OASDataGen.alt
+        train_in["Mach_number_grid"] = cache["Mach"]
+        train_in["alpha_grid"] = cache["alpha"]
+        train_in["alt_grid"] = cache["alt"]
         train_in["TempIncrement"] = temp_incr
         train_in["S_ref"] = S
         train_in["AR"] = AR
@@ -493,34 +502,35 @@ class OASDataGen(om.ExplicitComponent):
         train_in["num_y"] = self.options["num_y"]
 
         data = compute_training_data(train_in, surf_dict=self.options["surf_options"])
-        OASDataGen.CL[:] = data["CL"]
-        OASDataGen.CD[:] = data["CD"]
-        OASDataGen.failure[:] = data["failure"]
-        OASDataGen.W_wing = data["W_wing"]
-        OASDataGen.partials = copy(data["partials"])
+        cache["CL"][:] = data["CL"]
+        cache["CD"][:] = data["CD"]
+        cache["failure"][:] = data["failure"]
+        cache["W_wing"] = data["W_wing"]
+        cache["partials"] = copy(data["partials"])
 
         # Copy new values to cached ones (only now that the training data for them is available)
-        OASDataGen.S[:] = S
-        OASDataGen.AR[:] = AR
-        OASDataGen.taper[:] = taper
-        OASDataGen.c4sweep[:] = sweep
-        OASDataGen.twist[:] = twist
-        OASDataGen.toverc[:] = toverc
-        OASDataGen.skin[:] = skin
-        OASDataGen.spar[:] = spar
-        OASDataGen.temp_incr[:] = temp_incr
-
-        outputs["CL_train"] = OASDataGen.CL
-        outputs["CD_train"] = OASDataGen.CD + CD_nonwing
-        outputs["failure_train"] = OASDataGen.failure
-        outputs["W_wing"] = OASDataGen.W_wing
+        cache["S"][:] = S
+        cache["AR"][:] = AR
+        cache["taper"][:] = taper
+        cache["c4sweep"][:] = sweep
+        cache["twist"][:] = twist
+        cache["toverc"][:] = toverc
+        cache["skin"][:] = skin
+        cache["spar"][:] = spar
+        cache["temp_incr"][:] = temp_incr
+
+        outputs["CL_train"] = cache["CL"]
+        outputs["CD_train"] = cache["CD"] + CD_nonwing
+        outputs["failure_train"] = cache["failure"]
+        outputs["W_wing"] = cache["W_wing"]
 
     def compute_partials(self, inputs, partials):
+        cache = OASDataGen.cache[self.cache_key]
         # Compute partials if they haven't been already and return them
         self.compute(inputs, {})
-        for key, value in OASDataGen.partials.items():
+        for key, value in cache["partials"].items():
             partials[key][:] = value
-        partials["CD_train", "ac|aero|CD_nonwing"] = np.ones(OASDataGen.CD.shape)
+        partials["CD_train", "ac|aero|CD_nonwing"] = np.ones(cache["CD"].shape)
 
 
 """
diff --git a/openconcept/aerodynamics/openaerostruct/drag_polar.py b/openconcept/aerodynamics/openaerostruct/drag_polar.py
index a7b5309..f3f2871 100644
--- a/openconcept/aerodynamics/openaerostruct/drag_polar.py
+++ b/openconcept/aerodynamics/openaerostruct/drag_polar.py
@@ -423,6 +423,9 @@ class VLMDataGen(om.ExplicitComponent):
         it is provided instead as an input.
     """
 
+    # Training data shared by the instances that have the same mesh size and training points
+    cache = {}
+
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
         self.cite = CITATION
@@ -481,17 +484,20 @@ class VLMDataGen(om.ExplicitComponent):
             VLMDataGen.surf_options = deepcopy(self.options["surf_options"])
 
         # Generate grids and default cached values for training inputs and outputs
-        VLMDataGen.mesh = -np.ones((nx + 1, ny + 1, 3))
-        VLMDataGen.toverc = -np.ones(ny)
-        VLMDataGen.temp_incr = -42 * np.ones(1)
-        VLMDataGen.Mach, VLMDataGen.alpha, VLMDataGen.alt = np.meshgrid(
+        self.cache_key = (nx, ny) + tuple(tuple(self.options[opt]) for opt in ["Mach_train", "alpha_train", "alt_train"])
+        cache = VLMDataGen.cache[self.cache_key] = {}
+        cache["mesh"] = -np.ones((nx + 1, ny + 1, 3))
+        cache["toverc"] = -np.ones(ny)
+        cache["temp_incr"] = -42 * np.ones(1)
+        cache["Mach"], cache["alpha"], cache["alt"] = np.meshgrid(
             self.options["Mach_train"], self.options["alpha_train"], self.options["alt_train"], indexing="ij"
         )
-        VLMDataGen.CL = np.zeros((n_Mach, n_alpha, n_alt))
-        VLMDataGen.CD = np.zeros((n_Mach, n_alpha, n_alt))
-        VLMDataGen.partials = None
+        cache["CL"] = np.zeros((n_Mach, n_alpha, n_alt))
+        cache["CD"] = np.zeros((n_Mach, n_alpha, n_alt))
+        cache["partials"] = None
 
     def compute(self, inputs, outputs):
+        cache = VLMDataGen.cache[self.cache_key]
         mesh = inputs["ac|geom|wing|OAS_mesh"]
         toverc = inputs["ac|geom|wing|toverc"]
         temp_incr = inputs["fltcond|TempIncrement"]
@@ -499,19 +505,19 @@ class VLMDataGen(om.ExplicitComponent):
         # If the inputs are unchaged, use the previously calculated values
         tol = 1e-13  # floating point comparison tolerance
         if (
-            np.all(np.abs(mesh - VLMDataGen.mesh) < tol)
-            and np.all(np.abs(toverc - VLMDataGen.toverc) < tol)
-            and np.abs(temp_incr - VLMDataGen.temp_incr) < tol
+            np.all(np.abs(mesh - cache["mesh"]) < tol)
+            and np.all(np.abs(toverc - cache["toverc"]) < tol)
+            and np.abs(temp_incr - cache["temp_incr"]) < tol
         ):
-            outputs["CL_train"] = VLMDataGen.CL
-            outputs["CD_train"] = VLMDataGen.CD
+            outputs["CL_train"] = cache["CL"]
+            outputs["CD_train"] = cache["CD"]
             return
 
         # Compute new training values
         train_in = {}
-        train_in["Mach_number_grid"] = VLMDataGen.Mach
-        train_in["alpha_grid"] = VLMDataGen.alpha
-        train_in["alt_grid"] = VLMDataGen.alt
+        train_in["Mach_number_grid"] = cache["Mach"]
+        train_in["alpha_grid"] = cache["alpha"]
+        train_in["alt_grid"] = cache["alt"]
         train_in["TempIncrement"] = temp_incr
         train_in["mesh"] = mesh
         train_in["toverc"] = toverc
@@ -519,22 +525,23 @@ class VLMDataGen(om.ExplicitComponent):
         train_in["num_y"] = self.options["num_y"]
 
         data = compute_training_data(train_in, surf_dict=self.options["surf_options"])
-        VLMDataGen.CL[:] = data["CL"]
-        VLMDataGen.CD[:] = data["CD"]
-        VLMDataGen.partials = copy(data["partials"])
+        cache["CL"][:] = data["CL"]
+        cache["CD"][:] = data["CD"]
+        cache["partials"] = copy(data["partials"])
 
         # Copy new values to cached ones (only now that the training data for them is available)
-        VLMDataGen.mesh[:, :, :] = mesh
-        VLMDataGen.toverc[:] = toverc
-        VLMDataGen.temp_incr[:] = temp_incr
+        cache["mesh"][:, :, :] = mesh
+        cache["toverc"][:] = toverc
+        cache["temp_incr"][:] = temp_incr
 
-        outputs["CL_train"] = VLMDataGen.CL
-        outputs["CD_train"] = VLMDataGen.CD
+        outputs["CL_train"] = cache["CL"]
+        outputs["CD_train"] = cache["CD"]
 
     def compute_partials(self, inputs, partials):
+        cache = VLMDataGen.cache[self.cache_key]
         # Compute partials if they haven't been already and return them
         self.compute(inputs, {})
-        for key, value in VLMDataGen.partials.items():
+        for key, value in cache["partials"].items():
             partials[key][:] = value
 
 
-- 
2.43.0


From 750e3f6765d0018fca63081c0f9dcc2321a1807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 15/26] fix: trapezoidal VLMDragPolar interpolates t/c with the
 spacing of its mesh

---
 openconcept/aerodynamics/openaerostruct/drag_polar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/aerodynamics/openaerostruct/drag_polar.py b/openconcept/aerodynamics/openaerostruct/drag_polar.py
index f3f2871..37019af 100644
--- a/openconcept/aerodynamics/openaerostruct/drag_polar.py
+++ b/openconcept/aerodynamics/openaerostruct/drag_polar.py
@@ -303,7 +303,7 @@ class VLMDragPolar(om.Group):
             n_sections = self.options["num_sections"] if geo == "section" else 2
             self.add_subsystem(
                 "t_over_c_interp",
-                ThicknessChordRatioInterp(num_y=ny, num_sections=n_sections),
+                ThicknessChordRatioInterp(num_y=ny, num_sections=n_sections, cos_spacing=(geo == "section")),
                 promotes_inputs=[("section_toverc", "ac|geom|wing|toverc")],
             )
 
-- 
2.43.0


From 47d4c4145a29525e7e184b3042e5b9e3d01fd6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:40 +0000
Subject: [PATCH 16/26] fix: linking phases crashes when a state has no time
 history or no initial value

---
 openconcept/mission/mission_groups.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openconcept/mission/mission_groups.py b/openconcept/mission/mission_groups.py
index be9cd74..7549a10 100644
--- a/openconcept/mission/mission_groups.py
+++ b/openconcept/mission/mission_groups.py
@@ -330,12 +330,16 @@ class TrajectoryGroup(om.Group):
                     phase2_start_abs_name = self.pathname + "." + phase2_start_abs_name
 
                 phase1_prom_name = get_prom_name(self, phase1_abs_name, "output")
-                if phase1_prom_name.startswith(phase1.name):  # only modify the text if it starts with the prefix
+                if phase1_prom_name is None:  # only the final value of this state is integrated
+                    state_prom_name = state_tuple[0]
+                elif phase1_prom_name.startswith(phase1.name):  # only modify the text if it starts with the prefix
                     state_prom_name = phase1_prom_name.replace(phase1.name + ".", "", 1)
                 else:
                     state_prom_name = phase1_prom_name
                 phase1_end_prom_name = get_prom_name(self, phase1_end_abs_name, "output")
                 phase2_start_prom_name = get_prom_name(self, phase2_start_abs_name, "input")
+                if phase2_start_prom_name is None:  # this state always starts from zero
+                    continue
                 if state_tuple[0] not in states_to_skip:
                     if state_prom_name not in states_to_skip:
                         self.connect(phase1_end_prom_name, phase2_start_prom_name)
-- 
2.43.0


From 679a17c31f975c6cbbe7646eac9ef1027498561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:51 +0000
Subject: [PATCH 17/26] fix: HX overall conductance uses both fouling factors
 (cold side was dropped, hot side counted twice)

---
 openconcept/thermal/heat_exchanger.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/openconcept/thermal/heat_exchanger.py b/openconcept/thermal/heat_exchanger.py
index 9163dbf..1ecd878 100644
--- a/openconcept/thermal/heat_exchanger.py
+++ b/openconcept/thermal/heat_exchanger.py
@@ -907,14 +907,14 @@ class UAOverall(ExplicitComponent):
         Rc = 1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rfc = self.options["fouling_factor_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rh = 1 / inputs["h_conv_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        Rfc = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        outputs["UA_overall"] = 1 / (Rc + Rfc + Rh + Rfc)
+        Rfh = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
+        outputs["UA_overall"] = 1 / (Rc + Rfc + Rh + Rfh)
 
     def compute_partials(self, inputs, J):
         Rc = 1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rfc = self.options["fouling_factor_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rh = 1 / inputs["h_conv_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        Rfc = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
+        Rfh = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
 
         dRcdh = -1 / inputs["h_conv_cold"] ** 2 / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         dRcdA = -1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] ** 2 / inputs["eta_overall_cold"]
@@ -934,12 +934,12 @@ class UAOverall(ExplicitComponent):
             -self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"] ** 2
         )
 
-        J["UA_overall", "h_conv_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdh)
-        J["UA_overall", "heat_transfer_area_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdA + dRfcdA)
-        J["UA_overall", "eta_overall_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdeta + dRfcdeta)
-        J["UA_overall", "h_conv_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdh)
-        J["UA_overall", "heat_transfer_area_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdA + dRfhdA)
-        J["UA_overall", "eta_overall_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdeta + dRfhdeta)
+        J["UA_overall", "h_conv_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdh)
+        J["UA_overall", "heat_transfer_area_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdA + dRfcdA)
+        J["UA_overall", "eta_overall_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdeta + dRfcdeta)
+        J["UA_overall", "h_conv_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdh)
+        J["UA_overall", "heat_transfer_area_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdA + dRfhdA)
+        J["UA_overall", "eta_overall_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdeta + dRfhdeta)
 
 
 class NTUMethod(ExplicitComponent):
-- 
2.43.0


From 93accf4d6b2baf1c3829bfd585725fdd9da0def2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:51 +0000
Subject: [PATCH 18/26] fix: COPExplicit is finite when the hot and cold
 temperatures are equal

---
 openconcept/thermal/chiller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openconcept/thermal/chiller.py b/openconcept/thermal/chiller.py
index 505cbbc..5eee6bc 100644
--- a/openconcept/thermal/chiller.py
+++ b/openconcept/thermal/chiller.py
@@ -331,6 +331,8 @@ class COPExplicit(om.ExplicitComponent):
 
     def compute(self, inputs, outputs):
         delta_T = inputs["T_h"] - inputs["T_c"]
+        # tanh(delta_T) / delta_T tends to one at zero lift; step off the removable singularity to avoid 0 / 0
+        delta_T = np.where(delta_T == 0.0, 1e-10, delta_T)
         COP_raw = inputs["T_c"] / (delta_T)
         alpha = -1.5
         a = COP_raw * np.tanh(delta_T) * inputs["eff_factor"] + (1 + np.tanh(-(delta_T + 3))) / 2 * 10
-- 
2.43.0


From 169952e50d1c1a3012de3d8d097b5a56246efcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:51 +0000
Subject: [PATCH 19/26] fix: heat pipe wick resistance uses the wick
 conductivity

---
 openconcept/thermal/heat_pipe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/thermal/heat_pipe.py b/openconcept/thermal/heat_pipe.py
index d9bc53e..55547a9 100644
--- a/openconcept/thermal/heat_pipe.py
+++ b/openconcept/thermal/heat_pipe.py
@@ -270,14 +270,14 @@ class HeatPipeThermalResistance(ExplicitComponent):
         # Heat enters radially in through end of pipe (evaporator), along length of pipe, and radially out (condenser)
         # Resistance of evaporator
         log_o_i_mesh = np.log(inputs["inner_diam"] / (inputs["inner_diam"] - 2 * self.options["wick_thickness"]))
-        R_mesh_evap = log_o_i_mesh / (2 * np.pi * self.options["length_evap"] * self.options["wall_conduct"])
+        R_mesh_evap = log_o_i_mesh / (2 * np.pi * self.options["length_evap"] * self.options["wick_conduct"])
         log_o_i_pipe = np.log((inputs["inner_diam"] + 2 * inputs["wall_thickness"]) / inputs["inner_diam"])
         R_pipe_evap = log_o_i_pipe / (2 * np.pi * self.options["length_evap"] * self.options["wall_conduct"])
         R_evap = R_mesh_evap + R_pipe_evap
 
         # Resistance of condenser
         log_o_i_mesh = np.log(inputs["inner_diam"] / (inputs["inner_diam"] - 2 * self.options["wick_thickness"]))
-        R_mesh_cond = log_o_i_mesh / (2 * np.pi * self.options["length_cond"] * self.options["wall_conduct"])
+        R_mesh_cond = log_o_i_mesh / (2 * np.pi * self.options["length_cond"] * self.options["wick_conduct"])
         log_o_i_pipe = np.log((inputs["inner_diam"] + 2 * inputs["wall_thickness"]) / inputs["inner_diam"])
         R_pipe_cond = log_o_i_pipe / (2 * np.pi * self.options["length_cond"] * self.options["wall_conduct"])
         R_cond = R_mesh_cond + R_pipe_cond
-- 
2.43.0


From c70cb792ab8a8766449c3e8c8e54477f13d6c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:57 +0000
Subject: [PATCH 20/26] fix: force contours divide by the whole panel area (the
 back width of every panel was taken as zero)

---
 openconcept/utilities/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/visualization.py b/openconcept/utilities/visualization.py
index 448fc47..f67e2c4 100644
--- a/openconcept/utilities/visualization.py
+++ b/openconcept/utilities/visualization.py
@@ -232,7 +232,7 @@ def plot_OAS_force_contours(
 
     # Compute the panel areas
     panel_front_widths = y_mesh[:-1, 1:] - y_mesh[:-1, :-1]
-    panel_back_widths = y_mesh[1:, 1:] - y_mesh[1:, 1:]
+    panel_back_widths = y_mesh[1:, 1:] - y_mesh[1:, :-1]
     panel_avg_widths = 0.5 * (panel_front_widths + panel_back_widths)
     panel_left_side_lengths = x_mesh[1:, :-1] - x_mesh[:-1, :-1]
     panel_right_side_lengths = x_mesh[1:, 1:] - x_mesh[:-1, 1:]
-- 
2.43.0


From 49e0b9f8c37317897266557159e00d7e07ca961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:57 +0000
Subject: [PATCH 21/26] fix: plot_trajectory_grid works without y_labels and
 with a single row or column

---
 openconcept/utilities/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/visualization.py b/openconcept/utilities/visualization.py
index f67e2c4..f9930af 100644
--- a/openconcept/utilities/visualization.py
+++ b/openconcept/utilities/visualization.py
@@ -71,7 +71,7 @@ def plot_trajectory_grid(
                 # write the file
                 if savefig is not None:
                     plt.savefig(savefig + "_" + str(file_counter) + ".pdf")
-            fig, axs = plt.subplots(grid_layout[0], grid_layout[1], sharex=True, figsize=figsize)
+            fig, axs = plt.subplots(grid_layout[0], grid_layout[1], sharex=True, squeeze=False, figsize=figsize)
             file_counter += 1
             counter_within_file = 0
 
@@ -92,7 +92,7 @@ def plot_trajectory_grid(
             if y_labels[i] is not None:
                 axs[row_no, col_no].set(ylabel=y_labels[i])
         else:
-            axs[row_no, col_no].set(y_var)
+            axs[row_no, col_no].set(ylabel=y_var)
 
         counter_within_file += 1
 
-- 
2.43.0


From a751156cdf18c542bd2a1d3113ec5b5d4ddbbcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:20 +0000
Subject: [PATCH 22/26] fix: propeller derivatives are finite at standstill

---
 openconcept/propulsion/propeller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/propeller.py b/openconcept/propulsion/propeller.py
index 38ad1e5..815c6c9 100644
--- a/openconcept/propulsion/propeller.py
+++ b/openconcept/propulsion/propeller.py
@@ -280,7 +280,7 @@ class PropCoefficients(ExplicitComponent):
         J["cp", "fltcond|rho"] = -cpval / inputs["fltcond|rho"]
         J["cp", "rpm"] = -3.0 * cpval / inputs["rpm"]
         J["cp", "diameter"] = -5.0 * cpval / inputs["diameter"]
-        J["J", "fltcond|Utrue"] = jval / inputs["fltcond|Utrue"]
+        J["J", "fltcond|Utrue"] = 60.0 / inputs["rpm"] / inputs["diameter"]
         J["J", "rpm"] = -jval / inputs["rpm"]
         J["J", "diameter"] = -jval / inputs["diameter"]
         J["prop_Vtip", "rpm"] = 1 / 60 * np.pi * inputs["diameter"] * np.ones(nn)
-- 
2.43.0


From 7bc3bbcfba1fa792fa140e915ffc265a42e5d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:13 +0000
Subject: [PATCH 23/26] fix: pass the nozzle area to the duct of the
 refrigerated thermal series hybrid

TwinSeriesHybridElectricThermalPropulsionRefrigerated promotes the nozzle area as area_nozzle but never connected it to the
duct, which silently used its default of 1 m^2 whatever ac|propulsion|thermal|duct|area_nozzle was.
---
 openconcept/propulsion/systems/thermal_series_hybrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openconcept/propulsion/systems/thermal_series_hybrid.py b/openconcept/propulsion/systems/thermal_series_hybrid.py
index ff76f7e..3eaf8d8 100644
--- a/openconcept/propulsion/systems/thermal_series_hybrid.py
+++ b/openconcept/propulsion/systems/thermal_series_hybrid.py
@@ -402,6 +402,7 @@ class TwinSeriesHybridElectricThermalPropulsionRefrigerated(Group):
             promotes_inputs=["ac|*", ("rho_cold", "fltcond|rho"), ("T_in_cold", "fltcond|T")],
         )
         self.connect("duct.mdot", "hx.mdot_cold")
+        self.connect("area_nozzle", "duct.area_nozzle")
         self.connect("hx.delta_p_cold", "duct.delta_p_hex")
 
         self.connect("rho_coolant", "hx.rho_hot")
-- 
2.43.0


From ef7833c58c66ab1b12ea1df6e2dacf2571df0284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:13 +0000
Subject: [PATCH 24/26] fix: promote the flight conditions of
 SeriesHybridElectricPropulsionSystem and run the engine before the generator

The propeller promoted fltcond_*, which matches no variable, so setup always failed. The generator came before the engine that
feeds it, so a run without a nonlinear solver used the engine power of the previous run.
---
 openconcept/propulsion/systems/simple_series_hybrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/propulsion/systems/simple_series_hybrid.py b/openconcept/propulsion/systems/simple_series_hybrid.py
index 3700417..06b7512 100644
--- a/openconcept/propulsion/systems/simple_series_hybrid.py
+++ b/openconcept/propulsion/systems/simple_series_hybrid.py
@@ -170,11 +170,11 @@ class SeriesHybridElectricPropulsionSystem(Group):
         # introduce model components
         self.add_subsystem("motor1", SimpleMotor(efficiency=0.97, num_nodes=nn), promotes_inputs=["throttle"])
         self.add_subsystem("hybrid_split", PowerSplit(rule="fraction", num_nodes=nn))
-        self.add_subsystem("gen1", SimpleGenerator(efficiency=0.97, num_nodes=nn))
         self.add_subsystem("eng1", SimpleTurboshaft(num_nodes=nn), promotes_outputs=["fuel_flow"])
+        self.add_subsystem("gen1", SimpleGenerator(efficiency=0.97, num_nodes=nn))
         self.add_subsystem("batt1", SimpleBattery(num_nodes=nn))
         self.add_subsystem(
-            "prop1", SimplePropeller(num_nodes=nn), promotes_inputs=["fltcond_*"], promotes_outputs=["thrust"]
+            "prop1", SimplePropeller(num_nodes=nn), promotes_inputs=["fltcond|*"], promotes_outputs=["thrust"]
         )
 
         # connect design variables to model component inputs
-- 
2.43.0


From dd42c8a966ecb3be33f95cfb10c3ab96d175904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:13 +0000
Subject: [PATCH 25/26] fix: compute the failed engine throttle before the
 engine that uses it in TwinTurbopropPropulsionSystem

The second engine ran before its throttle was multiplied by propulsor_active, so a run without a nonlinear solver used the flag
of the previous run.
---
 openconcept/propulsion/systems/simple_turboprop.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openconcept/propulsion/systems/simple_turboprop.py b/openconcept/propulsion/systems/simple_turboprop.py
index 04c5a7f..87ace9b 100644
--- a/openconcept/propulsion/systems/simple_turboprop.py
+++ b/openconcept/propulsion/systems/simple_turboprop.py
@@ -131,6 +131,12 @@ class TwinTurbopropPropulsionSystem(Group):
                 ("diameter", "ac|propulsion|propeller|diameter"),
             ],
         )
+        # Propulsion models expect a high-level 'throttle' parameter and a 'propulsor_active' flag to set individual throttles
+        failedengine = ElementMultiplyDivideComp()
+        failedengine.add_equation("eng2throttle", input_names=["throttle", "propulsor_active"], vec_size=nn)
+        self.add_subsystem("failedengine", failedengine, promotes_inputs=["throttle", "propulsor_active"])
+        self.connect("failedengine.eng2throttle", "eng2.throttle")
+
         self.add_subsystem(
             "eng2",
             SimpleTurboshaft(num_nodes=nn, weight_inc=0.14 / 1000, weight_base=104),
@@ -150,12 +156,6 @@ class TwinTurbopropPropulsionSystem(Group):
         self.set_input_defaults("ac|propulsion|engine|rating", 750.0, units="hp")
         self.set_input_defaults("ac|propulsion|propeller|diameter", 2.28, units="m")
 
-        # Propulsion models expect a high-level 'throttle' parameter and a 'propulsor_active' flag to set individual throttles
-        failedengine = ElementMultiplyDivideComp()
-        failedengine.add_equation("eng2throttle", input_names=["throttle", "propulsor_active"], vec_size=nn)
-        self.add_subsystem("failedengine", failedengine, promotes_inputs=["throttle", "propulsor_active"])
-        self.connect("failedengine.eng2throttle", "eng2.throttle")
-
         # Connect components to each other
         self.connect("eng1.shaft_power_out", "prop1.shaft_power_in")
         self.connect("eng2.shaft_power_out", "prop2.shaft_power_in")
-- 
2.43.0


From 4e299c64653f3e414c9b65b9875cd709ea88c5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:21 +0000
Subject: [PATCH 26/26] fix: Aerostruct could not be set up without structural
 weight relief

---
 openconcept/aerodynamics/openaerostruct/aerostructural.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openconcept/aerodynamics/openaerostruct/aerostructural.py b/openconcept/aerodynamics/openaerostruct/aerostructural.py
index a11caf4..f2c9e62 100644
--- a/openconcept/aerodynamics/openaerostruct/aerostructural.py
+++ b/openconcept/aerodynamics/openaerostruct/aerostructural.py
@@ -1288,11 +1288,13 @@ class Aerostruct(om.Group):
                 "W0",
                 "empty_cg",
                 "load_factor",
-                ("coupled.load_factor", "load_factor"),
                 ("total_perf.wing_structural_mass", "ac|weights|W_wing"),
             ],
             promotes_outputs=[("CL", "fltcond|CL"), ("CD", "fltcond|CD"), ("wing_perf.failure", "failure")],
         )
+        if surf_dict["struct_weight_relief"] or surf_dict["distributed_fuel_weight"] or "n_point_masses" in surf_dict:
+            # The coupled group has a load factor only if the wing carries inertial loads
+            self.promotes("aerostruct_point", inputs=[("coupled.load_factor", "load_factor")])
         self.connect("airspeed.Utrue", "aerostruct_point.v")
         self.connect("density.fltcond|rho", "aerostruct_point.rho")
         self.connect("Re_calc.re", "aerostruct_point.re")
-- 
2.43.0

