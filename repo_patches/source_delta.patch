From d90d56144da547ee0680f00d6aec52e4d01c15ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 01/21] fix: keep the physical position when G92 redefines the
 coordinates

The offset was computed with the wrong sign, so every G92 with a non-zero
argument moved the machine by twice that argument.
---
 pyGCodeDecode/state_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index fc370c8..d75bded 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -310,7 +310,7 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             for key in line_dict["G92"]:
                 if key in known_commands["G92"]:
                     virtual_machine["_" + key] = (
-                        virtual_machine[key] + line_dict["G92"][key] + virtual_machine["_" + key]
+                        virtual_machine[key] - line_dict["G92"][key] + virtual_machine["_" + key]
                     )
                     virtual_machine[key] = line_dict["G92"][key]
 
-- 
2.43.0


From cc1ac66e00e6b02564466168653a195346f6e5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 02/21] fix: allow division of 4D vectors by int

The documentation and the error message promise float and int. Segments with
integer times could not be evaluated.
---
 pyGCodeDecode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 5405adb..055ebbb 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -129,7 +129,7 @@ class vector_4D:
         Returns:
             div: (self) scalar division, scaling
         """
-        if type(other) is float or type(other) is np.float64:
+        if type(other) is float or type(other) is np.float64 or type(other) is int:
             x = self.x / other
             y = self.y / other
             z = self.z / other
-- 
2.43.0


From 84f6e7f1116c6ae1ef900eb6aa3852d5917ef052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 03/21] fix: stop at junctions when the classic jerk limit is
 zero

A jerk of zero was treated as an unlimited jerk.
---
 pyGCodeDecode/junction_handling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index ddc7371..57f4e41 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -184,7 +184,9 @@ class junction_handling_marlin_jerk(junction_handling):
         jerk_move = vel_diff.get_norm()
         scale = jerk_move / self.jerk if self.jerk > 0 else 0
 
-        if scale >= 1:
+        if self.jerk == 0 and jerk_move > 0:
+            self.junction_vel = 0  # no instantaneous velocity change is allowed
+        elif scale >= 1:
             self.junction_vel = (vel_0 / scale).get_norm()
         else:
             self.junction_vel = vel_0.get_norm()
-- 
2.43.0


From efcacfeae2a8a657364d070ac6eee408e09d499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 04/21] fix: MKA junction limit is applied once and to the
 shared speed

The limiting factor is already cumulative over the axes, so multiplying it in
for every following axis slowed the junction down several times. The entering
velocity is the one which has to be scaled down to the shared speed, otherwise
slowing down on a straight line was limited by the full speed difference.
---
 pyGCodeDecode/junction_handling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index 57f4e41..dfe4f9e 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -307,7 +307,7 @@ class junction_handling_MKA(junction_handling):
         lim_flag = False
 
         for v_entry, v_exit in zip(vel_0.get_vec(withExtrusion=True), vel_1.get_vec(withExtrusion=True)):
-            v_exit *= small_speed_fac
+            v_entry *= small_speed_fac
 
             if lim_flag:
                 v_entry *= v_factor
@@ -323,10 +323,10 @@ class junction_handling_MKA(junction_handling):
                 v_factor *= self.jerk / jerk
                 lim_flag = True
 
-            if lim_flag:
-                v_max_junc *= v_factor
+        if lim_flag:
+            v_max_junc *= v_factor
 
-            self.junction_vel = v_max_junc
+        self.junction_vel = v_max_junc
 
     def get_junction_vel(self):
         """Return the calculated junction velocity.
-- 
2.43.0


From 3f1a1bc92317e75a39be1dc82fc17bd00db8640e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 05/21] fix: segment search is defined at the end time and
 independent of earlier queries

The search without a start index excluded the end time of the path and the
optimized search returned a different segment at shared time points.
---
 pyGCodeDecode/gcode_interpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 7f91066..b13f1d8 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -135,10 +135,10 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
         if path[-1].t_end < t:
             custom_print("No movement at this time in Path!")
             return None, None
-        elif last_index is None or len(path) - 1 < last_index or path[last_index].t_begin > t:
+        elif last_index is None or len(path) - 1 < last_index or path[last_index].t_begin >= t:
             # custom_print(f"unoptimized Search, last index: {last_index}")
             for last_index, segm in enumerate(path):
-                if t >= segm.t_begin and t < segm.t_end:
+                if t >= segm.t_begin and t <= segm.t_end:
                     return segm, last_index
         else:
             for id, segm in enumerate(path[last_index:]):
-- 
2.43.0


From 41752b098a6bacbb9488d779d5bd2c285ef16a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 06/21] fix: simulating a G-code without any motion does not
 crash in the summary

---
 pyGCodeDecode/gcode_interpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index b13f1d8..794de2a 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -677,9 +677,10 @@ class simulation:
         Args:
             start_time (float): time when the simulation run was started
         """
+        t_end = self.blocklist[-1].get_segments()[-1].t_end if len(self.blocklist) > 0 else 0.0
         custom_print(
             f" >> pyGCodeDecode extracted {len(self.states)} states from {self.filename} and generated {len(self.blocklist)} planner blocks.\n"
-            f"Estimated time to travel all states with provided printer settings is {self.blocklist[-1].get_segments()[-1].t_end:.2f} seconds.\n"
+            f"Estimated time to travel all states with provided printer settings is {t_end:.2f} seconds.\n"
             f"The Simulation took {(time.time()-start_time):.2f} s."
         )
 
-- 
2.43.0


From 4c310ea7007e149e13b4af655357ea189c809c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 07/21] fix: submodel times of a trajectory which never enters
 the control volume

---
 pyGCodeDecode/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index ac79908..337f87b 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -252,7 +252,7 @@ def write_submodel_times(
                 if isec is not None and point_inside(p_eval=point_eval(isec, control_volume.get_plane_lim())):
                     timetable.append([float(block.inverse_time_at_pos(s_len)), sgn])
 
-    timetable = np.asarray(timetable)  # convert list to array for sorting
+    timetable = np.asarray(timetable).reshape(-1, 2)  # convert list to array for sorting
     timetable = timetable[timetable[:, 0].argsort()]  # sort array by first column
 
     time_in = timetable[:, 0][np.asarray(timetable[:, 1], dtype=bool)]  # filter the data for entering the CV
-- 
2.43.0


From 3d85b7d091f97b324b91b785c24ce8f500cf00f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 08/21] fix: layer metrics cover the last block and the last
 layer

The travel of the last block was never added and a layer that consists of the
last block only was dropped.
---
 pyGCodeDecode/tools.py | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index 337f87b..1ad0932 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -46,37 +46,33 @@ def save_layer_metrics(
     last_layer_time = 0
     travel = 0
 
+    def save_layer(duration):
+        """Store the metrics of the current layer."""
+        average_speed = travel / duration if duration != 0 else "NaN"
+
+        layers.append(current_layer)
+        durations.append(duration)
+        travel_distances.append(travel)
+        avg_speeds.append(average_speed)
+
     for block in simulation.blocklist:
-        last_block_of_layer = False
         next_layer = block.state_B.layer
 
-        # calculate the duration of the block
-        if next_layer > current_layer:  # layer switch in this block
-            last_block_of_layer = True
+        if next_layer > current_layer:  # layer switch in this block, the current layer ends with its beginning
             block_begin = block.segments[0].t_begin
-            duration = block_begin - last_layer_time
-        elif block.next_block is None:  # last block of the print
-            last_block_of_layer = True
-            block_end = block.segments[-1].t_end
-            duration = block_end - last_layer_time
-
-        if last_block_of_layer:
-            average_speed = travel / duration if duration != 0 else "NaN"
-
-            layers.append(current_layer)
-            durations.append(duration)
-            travel_distances.append(travel)
-            avg_speeds.append(average_speed)
+            save_layer(duration=block_begin - last_layer_time)
 
             # set variables for next layer
-            if next_layer > current_layer:
-                travel = 0
-                last_layer_time = block_begin
-                current_layer = next_layer
+            travel = 0
+            last_layer_time = block_begin
+            current_layer = next_layer
 
         # add travel distance of current block
         travel += block.get_block_travel()
 
+        if block.next_block is None:  # last block of the print
+            save_layer(duration=block.segments[-1].t_end - last_layer_time)
+
     # write the layer info to a csv if a filepath is given
     if filepath is not None:
         # create directory if necessary
-- 
2.43.0


From c6860604a25c2b2652ce39e92d64a60038e15200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 09/21] fix: map time to space in decelerating segments and at
 standstill

The acceleration was used without its sign, so the time at a position of a
decelerating segment was too early. The beginning of a segment which starts at
rest raised an error.
---
 pyGCodeDecode/utils.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 055ebbb..b2f6f82 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -466,16 +466,15 @@ class segment:
             return slope * t + scalar_begin
 
         def get_time(x):
-            a = (self.vel_end - self.vel_begin).get_norm() / (self.t_end - self.t_begin)
-            if a > 0:
-                v_sq = 2 * a * x + self.vel_begin.get_norm() ** 2
-                t = (np.sqrt(v_sq) - self.vel_begin.get_norm()) / a if v_sq > 0 else 0
-                if v_sq <= 0:
-                    raise ValueError("Could not map time dependant scalar to space.")
-            elif a == 0:
-                t = x / self.vel_begin.get_norm()
-            return t
-
+            v_begin = self.vel_begin.get_norm()
+            a = (self.vel_end.get_norm() - v_begin) / (self.t_end - self.t_begin)  # negative when decelerating
+            v_x = np.sqrt(max(2 * a * x + v_begin**2, 0))  # velocity at x
+            if v_begin + v_x == 0:
+                raise ValueError("Could not map time dependant scalar to space.")
+            return 2 * x / (v_begin + v_x)  # mean velocity up to x is (v_begin + v_x) / 2
+
+        if x == 0:
+            return scalar_begin
         t = get_time(x)
         scalar = lin_scalar(t)
 
-- 
2.43.0


From 0d8f2c4f627357db144ffb46ae34ae72b1520265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 10/21] fix: dwell before the first move and on the same line
 as a move

A dwell before any motion crashed and a dwell sharing its line with a move
replaced the segments of that move.
---
 pyGCodeDecode/planner_block.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 9c43909..52c8ef8 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -310,7 +310,7 @@ class planner_block:
         # planner block calculation
         target_vel = junction.get_target_vel()  # target velocity for this planner block
 
-        v_JD = junction.get_junction_vel()
+        v_JD = junction.get_junction_vel() if self.state_B.pause is None else 0  # a dwell is a full stop
 
         self.direction = target_vel.get_norm_dir(withExtrusion=True)  # direction vector of pb
 
@@ -327,16 +327,22 @@ class planner_block:
         # dwell functionality
         if self.state_B.pause is not None:
             self.JD = [0, 0, 0, 0]
-            self.segments = [
+            if len(self.segments) > 0:  # dwell after the move of the same line
+                previous_segment = self.segments[-1]
+            elif self.prev_block is not None:
+                previous_segment = self.prev_block.segments[-1]
+            else:  # dwell before the first move
+                previous_segment = segment.create_initial(initial_position=self.state_B.state_position)
+            self.segments.append(
                 segment(
-                    t_begin=self.prev_block.segments[-1].t_end,
-                    t_end=self.prev_block.segments[-1].t_end + self.state_B.pause,
-                    pos_begin=self.prev_block.segments[-1].pos_end,
-                    pos_end=self.prev_block.segments[-1].pos_end,
+                    t_begin=previous_segment.t_end,
+                    t_end=previous_segment.t_end + self.state_B.pause,
+                    pos_begin=previous_segment.pos_end,
+                    pos_end=previous_segment.pos_end,
                     vel_begin=velocity(0, 0, 0, 0),
                     vel_end=velocity(0, 0, 0, 0),
                 )
-            ]
+            )
 
     @property
     def prev_block(self):
-- 
2.43.0


From e48c9c24c16555232d471259001787a03a772851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:34 +0000
Subject: [PATCH 11/21] fix: interpret lengths as inches after G20

The unit mode was tracked but never applied, inch G-code was simulated 25.4
times too small.
---
 pyGCodeDecode/state_generator.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index d75bded..f8038b5 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -283,6 +283,9 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
         if "G21" in line_dict:
             virtual_machine["units"] = "SImm"
 
+        # all lengths, velocities and accelerations in the G-code are given in the current unit
+        unit_scaling = 25.4 if virtual_machine["units"] == "inch" else 1.0
+
         # position & velocity
         pos_keys = ["X", "Y", "Z"]
         movement_commands = ["G0", "G1"]
@@ -292,41 +295,40 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
                 for key in pos_keys:
                     if key in line_dict[command]:
                         if virtual_machine["absolute_position"] is True:
-                            virtual_machine[key] = line_dict[command][key]
+                            virtual_machine[key] = unit_scaling * line_dict[command][key]
                         elif virtual_machine["absolute_position"] is False:  # redundant
-                            virtual_machine[key] = virtual_machine[key] + line_dict[command][key]
+                            virtual_machine[key] = virtual_machine[key] + unit_scaling * line_dict[command][key]
 
                 # look for extrusion commands and apply abs/rel
                 if "E" in line_dict[command]:
                     if virtual_machine["absolute_extrusion"] is True:
-                        virtual_machine["E"] = line_dict[command]["E"]
+                        virtual_machine["E"] = unit_scaling * line_dict[command]["E"]
                     if virtual_machine["absolute_extrusion"] is False:  # redundant
-                        virtual_machine["E"] = virtual_machine["E"] + line_dict[command]["E"]
+                        virtual_machine["E"] = virtual_machine["E"] + unit_scaling * line_dict[command]["E"]
                 if "F" in line_dict[command]:
-                    virtual_machine["p_vel"] = line_dict[command]["F"] / 60
+                    virtual_machine["p_vel"] = unit_scaling * line_dict[command]["F"] / 60
 
         # set position
         if "G92" in line_dict:
             for key in line_dict["G92"]:
                 if key in known_commands["G92"]:
-                    virtual_machine["_" + key] = (
-                        virtual_machine[key] - line_dict["G92"][key] + virtual_machine["_" + key]
-                    )
-                    virtual_machine[key] = line_dict["G92"][key]
+                    new_value = unit_scaling * line_dict["G92"][key]
+                    virtual_machine["_" + key] = virtual_machine[key] - new_value + virtual_machine["_" + key]
+                    virtual_machine[key] = new_value
 
         # set acceleration
         if "M204" in line_dict and "P" in line_dict["M204"]:
-            virtual_machine["p_acc"] = line_dict["M204"]["P"]
+            virtual_machine["p_acc"] = unit_scaling * line_dict["M204"]["P"]
 
         # set max feedrate
         if "M203" in line_dict:
             for key in line_dict["M203"]:
                 if key in known_commands["M203"]:
-                    virtual_machine["v" + key] = line_dict["M203"][key]
+                    virtual_machine["v" + key] = unit_scaling * line_dict["M203"][key]
 
         # set advanced settings
         if "M205" in line_dict and "X" in line_dict["M205"]:
-            virtual_machine["jerk"] = line_dict["M205"]["X"]
+            virtual_machine["jerk"] = unit_scaling * line_dict["M205"]["X"]
 
         # dwell
         pause_duration = None
-- 
2.43.0


From 17df609d9a1f35abca392aae542772c04827a3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 12/21] fix: moves of floating-point residual length do not
 abort the planning

---
 pyGCodeDecode/planner_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 52c8ef8..e3e33e7 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -184,7 +184,7 @@ class planner_block:
                 and (v_peak_tri < v_target or np.isclose(v_peak_tri, v_target))
             ):
                 triang(extrusion_only=extrusion_only)
-            elif v_end_sing > v_begin and (v_end_sing < v_target or np.isclose(v_end_sing, v_target)):
+            elif v_end_sing >= v_begin and (v_end_sing < v_target or np.isclose(v_end_sing, v_target)):
                 singl_up()
             elif v_end_sing < v_begin:
                 singl_dwn()
-- 
2.43.0


From 84d4368dc1eb0773fa8752752739f54e41b78813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 13/21] fix: end speed of a move does not exceed its feedrate
 by rounding

---
 pyGCodeDecode/planner_block.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index e3e33e7..38b42cc 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -156,6 +156,7 @@ class planner_block:
         v_target = settings.speed
         v_begin = previous_segment.vel_end.get_norm()
         v_begin = v_begin if v_begin < v_target else v_target
+        v_end = v_end if v_end < v_target else v_target  # the norm of a vector can exceed the target speed by rounding
 
         # calculate min travel for trapezoidal shape, if sum larger than distance, regular movement pattern is possible
         travel_ramp_up = (v_target - v_begin) * (v_begin + v_target) / (2 * acc)
-- 
2.43.0


From f790411826826d4581985aebdc6ddbe1ae8593c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 14/21] fix: floating-point residuals of reset or relative
 coordinates are no moves

---
 pyGCodeDecode/state_generator.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index f8038b5..5f6df48 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -239,11 +239,12 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             virtual_machine[key] = default_virtual_machine[key]
 
     # initial state creation
+    # positions are rounded, as floating-point residuals of relative or reset coordinates are no moves
     state_position = position(
-        virtual_machine["X"] + virtual_machine["_X"],
-        virtual_machine["Y"] + virtual_machine["_Y"],
-        virtual_machine["Z"] + virtual_machine["_Z"],
-        virtual_machine["E"] + virtual_machine["_E"],
+        round(virtual_machine["X"] + virtual_machine["_X"], 10),
+        round(virtual_machine["Y"] + virtual_machine["_Y"], 10),
+        round(virtual_machine["Z"] + virtual_machine["_Z"], 10),
+        round(virtual_machine["E"] + virtual_machine["_E"], 10),
     )
 
     p_settings = state.p_settings(
@@ -339,10 +340,10 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
                 pause_duration = line_dict["G4"]["S"]
 
         state_position = position(
-            virtual_machine["X"] + virtual_machine["_X"],
-            virtual_machine["Y"] + virtual_machine["_Y"],
-            virtual_machine["Z"] + virtual_machine["_Z"],
-            virtual_machine["E"] + virtual_machine["_E"],
+            round(virtual_machine["X"] + virtual_machine["_X"], 10),
+            round(virtual_machine["Y"] + virtual_machine["_Y"], 10),
+            round(virtual_machine["Z"] + virtual_machine["_Z"], 10),
+            round(virtual_machine["E"] + virtual_machine["_E"], 10),
         )
 
         p_settings = state.p_settings(
-- 
2.43.0


From 2d9cec16ca1ac9fe7dacae70744ef0b4f212a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:03 +0000
Subject: [PATCH 15/21] fix: klipper centripetal limit respects the length of
 the incoming move

---
 pyGCodeDecode/junction_handling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index dfe4f9e..97f0086 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -258,10 +258,11 @@ class junction_handling_klipper(junction_handling):
 
         j_R = self.j_delta * j_sin_theta_d2 / (1.0 - j_sin_theta_d2)
 
-        # [from klipper]: Approximated circle must contact moves no further away than mid-move
+        # [from klipper]: Approximated circle must contact moves no further away than mid-move (of both moves)
+        t_distance = min(self.t_distance, self.state_A.state_position.get_t_distance(self.state_B.state_position))
         j_tan_theta_d2 = j_sin_theta_d2 / math.sqrt(0.5 * (1.0 + j_cos_theta))
 
-        move_centripetal_v2 = 0.5 * self.t_distance * j_tan_theta_d2 * self.state_B.state_p_settings.p_acc
+        move_centripetal_v2 = 0.5 * t_distance * j_tan_theta_d2 * self.state_B.state_p_settings.p_acc
 
         self.junction_vel = math.sqrt(
             min(self.state_B.state_p_settings.p_acc * j_R, move_centripetal_v2, self.state_B.state_p_settings.speed**2)
-- 
2.43.0


From 71f0d4a96a4d629adb84ec6ece1984d314f8af42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 16/21] fix: commands are found next to another one they are a
 prefix of

---
 pyGCodeDecode/state_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index 5f6df48..3c35dc3 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -120,7 +120,8 @@ def arg_extract(string: str, key_dict: dict) -> dict:
     matches: List[Match] = list()  # list to store matching keywords
 
     for key in key_dict.keys():  # look for each key in the dictionary
-        match = re.search(key, string)  # regex search for key in string
+        # regex search for key in string, a command number ends with its last digit
+        match = re.search(key + r"(?!\d)" if key[-1].isdigit() else key, string)
         if match is not None:
             matches.append(match)  # append found matches
 
-- 
2.43.0


From 148797aa5953487f65c7da295a6f22bd3dda0c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 17/21] fix: submodel crossings are not lost by rounding of the
 intersection point

---
 pyGCodeDecode/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index 1ad0932..35c1e52 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -218,7 +218,8 @@ def write_submodel_times(
             fac = -np.dot(p_no, w) / dot
             u = u * fac
             if fac >= 0 and fac <= 1:
-                return p0 + u, np.linalg.norm(u), True if dot < 0 else False
+                isec = np.where(p_no != 0, p_co, p0 + u)  # exactly on the (axis aligned) plane in spite of rounding
+                return isec, np.linalg.norm(u), True if dot < 0 else False
 
         # The segment is parallel to plane.
         return None, None, None
-- 
2.43.0


From cd38c50d66149efa5eeb0ed474bdcd51f7f7c7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:13 +0000
Subject: [PATCH 18/21] fix: correction of long braking distances exceeded the
 recursion limit

---
 pyGCodeDecode/planner_block.py | 36 ++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 38b42cc..30eb011 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -204,6 +204,30 @@ class planner_block:
 
     def self_correction(self, tolerance=float("1e-12")):
         """Check for interfacing vel and self correct."""
+        flag_correct = self._correct_velocity(tolerance=tolerance)
+
+        # a corrected single phase block may begin slower, so its predecessors need correction as well
+        corrected_blocks = [self]
+        block, block_corrected = self, flag_correct
+        while block_corrected and block.blocktype == "single":
+            block = block.prev_block
+            block_corrected = block._correct_velocity(tolerance=tolerance)
+            corrected_blocks.append(block)
+
+        for block in reversed(corrected_blocks):
+            block._align_next_block(tolerance=tolerance)
+
+        return flag_correct
+
+    def _correct_velocity(self, tolerance: float) -> bool:
+        """Recalculate the block if its end velocity is not the begin velocity of the next block.
+
+        Args:
+            tolerance: (float) accepted velocity difference
+
+        Returns:
+            flag_correct: (bool) true if the block was recalculated
+        """
         flag_correct = False
         if self.next_block is not None:
             same_vel = (
@@ -220,9 +244,15 @@ class planner_block:
         if self.next_block is not None and flag_correct:
             vel_end = self.next_block.get_segments()[0].vel_begin.get_norm()
             self.move_maker2(v_end=vel_end)
-            if self.blocktype == "single":
-                self.prev_block.self_correction()  # forward correction?
 
+        return flag_correct
+
+    def _align_next_block(self, tolerance: float):
+        """Shift the next block in time to the end of this block and check the transition.
+
+        Args:
+            tolerance: (float) accepted position difference
+        """
         # Timeshift the corrected blocks
         if self.next_block is not None:
             delta_t = self.get_segments()[-1].t_end - self.next_block.get_segments()[0].t_begin
@@ -244,8 +274,6 @@ class planner_block:
         except ValueError as ve:
             custom_print(f"Segment for {self.state_B} does not adhere to machine limits: {ve}")
 
-        return flag_correct
-
     def timeshift(self, delta_t: float):
         """Shift planner block in time.
 
-- 
2.43.0


From dffa296e822d09d36c9b4e8436e5496bf8be9fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:06 +0000
Subject: [PATCH 19/21] fix: submodel crossings of moves almost parallel to a
 boundary face are not lost

---
 pyGCodeDecode/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index 35c1e52..fd41b33 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -190,7 +190,7 @@ def write_submodel_times(
 
         return possible
 
-    def isect_line_plane(p0, p1, p_co, p_no, epsilon=1e-6):
+    def isect_line_plane(p0, p1, p_co, p_no):
         """Return a Vector or None (when the intersection can't be found).
 
         p0, p1: Define the line.
@@ -207,7 +207,7 @@ def write_submodel_times(
         u = p1 - p0
         dot = p_no.dot(u)
 
-        if abs(dot) > epsilon:
+        if dot != 0:
             # The factor of the point between p0 -> p1 (0 - 1)
             # if 'fac' is between (0 - 1) the point intersects with the segment.
             # Otherwise:
-- 
2.43.0


From 956cbf1d922b107798d9976d86b184cbf53e3276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:07 +0000
Subject: [PATCH 20/21] fix: text of a comment is not parsed as a command with
 arguments

---
 pyGCodeDecode/state_generator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index 3c35dc3..83cc53c 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -149,6 +149,9 @@ def arg_extract(string: str, key_dict: dict) -> dict:
         key = match.group()  # get key from match
         arg = None
 
+        if match_end > comment_begin and key != ";":  # part of a comment, no command
+            continue
+
         match_next_start = next_larger(match_start_list, match_end)  # find arg end by using beginning of next arg
         if key != ";":
             arg = string[match_end:match_next_start]  # slice string
@@ -165,9 +168,7 @@ def arg_extract(string: str, key_dict: dict) -> dict:
         if key_dict[key] is not None:  # check for nested commands
             arg = arg_extract(arg, key_dict[key])  # call arg_extract through recursion
 
-        # save matches found outside of comments, not applying for comments
-        if match.end() <= comment_begin or key == ";":
-            arg_dict[key] = arg  # save argument values in dict
+        arg_dict[key] = arg  # save argument values in dict
 
     return arg_dict
 
-- 
2.43.0


From 8e94e89c2d731cdd08ebcb78d07a3bdc6dd461b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:48 +0000
Subject: [PATCH 21/21] fix: searching a segment with keep_position missed the
 end time and depended on the last index

---
 pyGCodeDecode/gcode_interpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 794de2a..a657335 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -97,10 +97,10 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
     """
     if keep_position:
         # use this if eval for times where no planner blocks are created
-        if last_index is None or len(path) - 1 < last_index or path[last_index].t_begin > t:
+        if last_index is None or len(path) - 1 < last_index or path[last_index].t_begin >= t:
             # unoptimized search, still returns index
             for last_index, segm in enumerate(path):
-                if t >= segm.t_begin and t < segm.t_end:
+                if t >= segm.t_begin and t <= segm.t_end:
                     return segm, last_index
                 elif t >= segm.t_end and t < path[last_index + 1].t_begin:
                     # if no segment exists, create one that interpolates the previous segment as static
-- 
2.43.0

