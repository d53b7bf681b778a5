From a2ed71964c305b64784e7dc8c5859e9631f66033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 01/89] fix: compare option strings by value, not by identity

Options such as syslimit, plot_type, vel_limit and frame_type were compared
with 'is', so a string built at run time (read from a file, formatted) was
taken for an unknown value.
---
 omgtools/problems/schedulerproblem.py | 8 ++++----
 omgtools/vehicles/agv.py              | 4 ++--
 omgtools/vehicles/bicycle.py          | 4 ++--
 omgtools/vehicles/holonomic.py        | 8 ++++----
 omgtools/vehicles/holonomic3d.py      | 4 ++--
 omgtools/vehicles/holonomicorient.py  | 4 ++--
 omgtools/vehicles/tool.py             | 4 ++--
 7 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 0225a76..6fae4f4 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -81,12 +81,12 @@ class SchedulerProblem(Problem):
         self._n_frames = self.n_frames  # save original value
         self.frame_type = options['frame_type'] if 'frame_type' in options else 'shift'
         # set frame size for frame_type shift
-        if self.frame_type is 'shift':
+        if self.frame_type == 'shift':
             # by default frame size is set to 1/5 of total environment width
             self.frame_size = options['frame_size'] if 'frame_size' in options else environment.room[0]['shape'].width*0.2
             # by default move limit is set to 1/4 of frame size
             self.move_limit = options['move_limit'] if 'move_limit' in options else self.frame_size*0.25
-        if self.frame_type is 'corridor':
+        if self.frame_type == 'corridor':
             # scale up frame with small steps or not
             self.scale_up_fine = options['scale_up_fine'] if 'scale_up_fine' in options else True
             self.l_shape = options['l_shape'] if 'l_shape' in options else False
@@ -391,10 +391,10 @@ class SchedulerProblem(Problem):
         if not frame.endpoint == self.goal_state[:2]:  # remove orientation info
             start = time.time()
             start_position = frame.endpoint  # start at end of current frame
-            if frame.type is 'shift':
+            if frame.type == 'shift':
                 next_frame = ShiftFrame(self.environment, start_position, self.frame_size, self.move_limit,
                                    self.global_path, self.options)
-            elif frame.type is 'corridor':
+            elif frame.type == 'corridor':
                 next_frame = CorridorFrame(self.environment, start_position, self.global_path,
                                    self.veh_size, self.margin, self.options)
 
diff --git a/omgtools/vehicles/agv.py b/omgtools/vehicles/agv.py
index 4c2efa5..c9aa0e2 100644
--- a/omgtools/vehicles/agv.py
+++ b/omgtools/vehicles/agv.py
@@ -305,7 +305,7 @@ class AGV(Vehicle):
 
     def draw(self, t=-1):
         surfaces = []
-        if self.options['plot_type'] is 'car':
+        if self.options['plot_type'] == 'car':
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(width=self.length/8., height=self.length/10.)
             surfaces += car.draw(self.signals['pose'][:3, t])[0]  # vehicle
@@ -324,7 +324,7 @@ class AGV(Vehicle):
             surfaces += wheel.draw(np.r_[pos_back_l, orient_back])[0]  # back wheel left
             surfaces += wheel.draw(np.r_[pos_back_r, orient_back])[0]  # back wheel right
 
-        if self.options['plot_type'] is 'agv':
+        if self.options['plot_type'] == 'agv':
             # plot approximation of vehicle
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(width=self.length/10., height=self.length/14.)
diff --git a/omgtools/vehicles/bicycle.py b/omgtools/vehicles/bicycle.py
index cec332b..009430d 100644
--- a/omgtools/vehicles/bicycle.py
+++ b/omgtools/vehicles/bicycle.py
@@ -376,7 +376,7 @@ class Bicycle(Vehicle):
 
     def draw(self, t=-1):
         surfaces = []
-        if self.options['plot_type'] is 'car':
+        if self.options['plot_type'] == 'car':
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(self.length/8., self.length/10.)
             surfaces += car.draw(self.signals['pose'][:3, t])[0]  # vehicle
@@ -395,7 +395,7 @@ class Bicycle(Vehicle):
             surfaces += wheel.draw(np.r_[pos_back_l, orient_back])[0]  # back wheel left
             surfaces += wheel.draw(np.r_[pos_back_r, orient_back])[0]  # back wheel right
 
-        if self.options['plot_type'] is 'bicycle':
+        if self.options['plot_type'] == 'bicycle':
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(self.length/2., self.length/6.)
             surfaces += car.draw(self.signals['pose'][:3, t])[0]  # vehicle
diff --git a/omgtools/vehicles/holonomic.py b/omgtools/vehicles/holonomic.py
index aef5c59..d84bfa1 100644
--- a/omgtools/vehicles/holonomic.py
+++ b/omgtools/vehicles/holonomic.py
@@ -32,7 +32,7 @@ class Holonomic(Vehicle):
             self, n_spl=2, degree=3, shapes=shapes, options=options)
 
         if ((not 'syslimit' in self.options) or  # default choose norm_inf
-                (self.options['syslimit'] is 'norm_inf')):
+                (self.options['syslimit'] == 'norm_inf')):
             # user specified separate velocities for x and y
             self.vxmin = bounds['vxmin'] if 'vxmin' in bounds else -0.5
             self.vymin = bounds['vymin'] if 'vymin' in bounds else -0.5
@@ -51,7 +51,7 @@ class Holonomic(Vehicle):
                 self.axmin = self.aymin = bounds['amin']
             if 'amax' in bounds:
                 self.axmax = self.aymax = bounds['amax']
-        elif self.options['syslimit'] is 'norm_2':
+        elif self.options['syslimit'] == 'norm_2':
             self.vmax = bounds['vmax'] if 'vmax' in bounds else 0.5
             self.amax = bounds['amax'] if 'amax' in bounds else 1.
 
@@ -64,13 +64,13 @@ class Holonomic(Vehicle):
         dx, dy = x.derivative(), y.derivative()
         ddx, ddy = x.derivative(2), y.derivative(2)
         # constrain total velocity
-        if self.options['syslimit'] is 'norm_2':
+        if self.options['syslimit'] == 'norm_2':
             self.define_constraint(
                 (dx**2+dy**2) - (horizon_time**2)*self.vmax**2, -inf, 0.)
             self.define_constraint(
                 (ddx**2+ddy**2) - (horizon_time**4)*self.amax**2, -inf, 0.)
         # constrain local velocity
-        elif self.options['syslimit'] is 'norm_inf':
+        elif self.options['syslimit'] == 'norm_inf':
             self.define_constraint(-dx + horizon_time*self.vxmin, -inf, 0.)
             self.define_constraint(-dy + horizon_time*self.vymin, -inf, 0.)
             self.define_constraint(dx - horizon_time*self.vxmax, -inf, 0.)
diff --git a/omgtools/vehicles/holonomic3d.py b/omgtools/vehicles/holonomic3d.py
index 7ced526..3c76411 100644
--- a/omgtools/vehicles/holonomic3d.py
+++ b/omgtools/vehicles/holonomic3d.py
@@ -47,12 +47,12 @@ class Holonomic3D(Vehicle):
         x, y, z = splines
         dx, dy, dz = x.derivative(), y.derivative(), z.derivative()
         ddx, ddy, ddz = x.derivative(2), y.derivative(2), z.derivative(2)
-        if self.options['syslimit'] is 'norm_2':
+        if self.options['syslimit'] == 'norm_2':
             self.define_constraint(
                 (dx**2+dy**2+dz**2) - (horizon_time**2)*self.vmax**2, -inf, 0.)
             self.define_constraint(
                 (ddx**2+ddy**2+ddz**2) - (horizon_time**4)*self.amax**2, -inf, 0.)
-        elif self.options['syslimit'] is 'norm_inf':
+        elif self.options['syslimit'] == 'norm_inf':
             self.define_constraint(-dx + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(-dy + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(-dz + horizon_time*self.vmin, -inf, 0.)
diff --git a/omgtools/vehicles/holonomicorient.py b/omgtools/vehicles/holonomicorient.py
index 90c7ff1..9a8bc0f 100644
--- a/omgtools/vehicles/holonomicorient.py
+++ b/omgtools/vehicles/holonomicorient.py
@@ -52,12 +52,12 @@ class HolonomicOrient(Vehicle):
         x, y, tg_ha = splines
         dx, dy, dtg_ha = x.derivative(), y.derivative(), tg_ha.derivative()
         ddx, ddy = x.derivative(2), y.derivative(2)
-        if self.options['syslimit'] is 'norm_2':
+        if self.options['syslimit'] == 'norm_2':
             self.define_constraint(
                 (dx**2+dy**2) - (horizon_time**2)*self.vmax**2, -inf, 0.)
             self.define_constraint(
                 (ddx**2+ddy**2) - (horizon_time**4)*self.amax**2, -inf, 0.)
-        elif self.options['syslimit'] is 'norm_inf':
+        elif self.options['syslimit'] == 'norm_inf':
             self.define_constraint(-dx + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(-dy + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(dx - horizon_time*self.vmax, -inf, 0.)
diff --git a/omgtools/vehicles/tool.py b/omgtools/vehicles/tool.py
index 89da6a3..a7760a0 100644
--- a/omgtools/vehicles/tool.py
+++ b/omgtools/vehicles/tool.py
@@ -87,7 +87,7 @@ class Tool(Vehicle):
         dddx, dddy, dddz = x.derivative(3), y.derivative(3), z.derivative(3)  # jerk
 
         # constrain local velocity
-        if self.options['vel_limit'] is 'machining':
+        if self.options['vel_limit'] == 'machining':
             # the machining process is the limiting factor, so limit the total velocity
             # in x- and y-axis combined
             if self.vxmax != 0.:
@@ -99,7 +99,7 @@ class Tool(Vehicle):
                 self.define_constraint(
                     (dz**2) - (horizon_time**2)*self.vzmax**2, -inf, 0., skip=skip)
 
-        elif self.options['vel_limit'] is 'axes':
+        elif self.options['vel_limit'] == 'axes':
             # the axes themselves are the limiting factor, so limit the x- and y- axis separately
             self.define_constraint(-dx + horizon_time*self.vxmin, -inf, 0., skip=skip)
             self.define_constraint(-dy + horizon_time*self.vymin, -inf, 0., skip=skip)
-- 
2.43.0


From 58162a03cae86da956419126a3f3ee562d4dbcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 02/89] fix: do not lose a sample when a duration is a whole
 number of samples

int(0.29/0.01) is 28: the number of samples was truncated here while the rest
of the code rounds it first, so that predictions and stored trajectories came
out one sample short or late (or raised an IndexError).
---
 omgtools/execution/deployer.py        | 2 +-
 omgtools/problems/schedulerproblem.py | 2 +-
 omgtools/vehicles/vehicle.py          | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/omgtools/execution/deployer.py b/omgtools/execution/deployer.py
index 4d8fd64..8f2ea9a 100644
--- a/omgtools/execution/deployer.py
+++ b/omgtools/execution/deployer.py
@@ -58,7 +58,7 @@ class Deployer:
             self.problem.initialize(current_time)
             delay = 0
         else:
-            delay = int((current_time - self.current_time - update_time)/self.sample_time)
+            delay = int(np.round((current_time - self.current_time - update_time)/self.sample_time, 6))
 
         # if the update time + delay is more than the time which is left, leave out the delay
         if hasattr(self.problem.vehicles[0], 'trajectories'):
diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 6fae4f4..37edcf5 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -225,7 +225,7 @@ class SchedulerProblem(Problem):
         if simulation_time == np.inf:
             # using simulator.run_once()
             simulation_time = sum(self.motion_times)
-        repeat = int(simulation_time/sample_time)
+        repeat = int(np.round(simulation_time/sample_time, 6))
         # copy frames, to avoid problems when removing elements from self.frames
         frames_to_save = self.frames[:]
         for k in range(repeat):
diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 56333cc..98fd1f8 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -393,7 +393,7 @@ class Vehicle(OptiChild, PlotLayer):
             self.traj_storage = {}
             self.traj_storage_kn = {}
             self.pred_storage = {}
-        repeat = int(simulation_time/sample_time)
+        repeat = int(np.round(simulation_time/sample_time, 6))
         self._add_to_memory(self.traj_storage, self.trajectories, repeat)
         self._add_to_memory(self.traj_storage_kn, self.trajectories_kn, repeat)
         self._add_to_memory(self.pred_storage, self.prediction, repeat)
@@ -412,7 +412,7 @@ class Vehicle(OptiChild, PlotLayer):
     def integrate_ode(self, state0, input, integration_time, sample_time, ode=None):
         if ode is None:
             ode = self._ode
-        n_samp = int(integration_time/sample_time)+1
+        n_samp = int(np.round(integration_time/sample_time, 6))+1
         time_axis = np.linspace(0., (n_samp-1)*sample_time, n_samp)
         # make interpolation function which returns the input at a certain time
         time_interp = np.linspace(
-- 
2.43.0


From 505d3ab34f0216eeec31bb6ffa0e3e5d0c631676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 03/89] fix: pass delay, inputs and enforce flags on to the
 agents' predictions

DistributedProblem.predict handed the delay to the agents in the place of the
inputs and dropped everything else, so a late update of a fleet predicted
each agent's state as if it were on time.
---
 omgtools/problems/distributedproblem.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/distributedproblem.py b/omgtools/problems/distributedproblem.py
index 88b52e6..4c1b055 100644
--- a/omgtools/problems/distributedproblem.py
+++ b/omgtools/problems/distributedproblem.py
@@ -196,8 +196,13 @@ class DistributedProblem(Problem):
     def predict(self, current_time, predict_time, sample_time, states=None, inputs=None, dinputs=None, delay=0, enforce_states=False, enforce_inputs=False):
         if states is None:
             states = [None for k in range(len(self.problems))]
-        for problem, state in zip(self.problems, states):
-            problem.predict(current_time, predict_time, sample_time, state, delay)
+        if inputs is None:
+            inputs = [None for k in range(len(self.problems))]
+        if dinputs is None:
+            dinputs = [None for k in range(len(self.problems))]
+        for problem, state, input, dinput in zip(self.problems, states, inputs, dinputs):
+            problem.predict(current_time, predict_time, sample_time, state, input, dinput,
+                            delay, enforce_states, enforce_inputs)
 
     # ========================================================================
     # Simulation related functions
-- 
2.43.0


From 1c69753ca6ace930f066b3c303e003a012c5fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 04/89] fix: advance the clock by nothing when the update takes
 no time

update_timing(0.) fell back to the default update time, so clock and recorded
time axis ran ahead of the recorded signals.
---
 omgtools/execution/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/execution/simulator.py b/omgtools/execution/simulator.py
index 565daa3..361197d 100644
--- a/omgtools/execution/simulator.py
+++ b/omgtools/execution/simulator.py
@@ -103,7 +103,7 @@ class Simulator:
         self.time = np.r_[0.]
 
     def update_timing(self, update_time=None):
-        update_time = self.update_time if not update_time else update_time
+        update_time = self.update_time if update_time is None else update_time
         self.current_time += update_time
         n_samp = int(np.round(update_time/self.sample_time, 6))
         # n_samp = max(0, int(np.round(update_time/self.sample_time, 6)))
-- 
2.43.0


From 32190e87a2e999adc729b68d3b07ffa4b424999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 05/89] fix: start a plan at the predicted state when there is
 no simulated signal

Used through the Deployer alone (no Simulator), Dubins, Bicycle and AGV
integrated every new plan from the very first pose instead of from the state
the plan was computed for, so that after the first update the trajectories
handed to the caller started somewhere else than the vehicle.
---
 omgtools/vehicles/agv.py     | 4 ++--
 omgtools/vehicles/bicycle.py | 8 ++++----
 omgtools/vehicles/dubins.py  | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/omgtools/vehicles/agv.py b/omgtools/vehicles/agv.py
index c9aa0e2..a449a62 100644
--- a/omgtools/vehicles/agv.py
+++ b/omgtools/vehicles/agv.py
@@ -250,8 +250,8 @@ class AGV(Vehicle):
         dy = v_til*(2*tg_ha)
         if not hasattr(self, 'signals'):  # first iteration
             dx_int, dy_int = running_integral(dx), running_integral(dy)
-            x = dx_int - dx_int(time[0]) + self.pose0[0]
-            y = dy_int - dy_int(time[0]) + self.pose0[1]
+            x = dx_int - dx_int(time[0]) + self.prediction['state'][0]
+            y = dy_int - dy_int(time[0]) + self.prediction['state'][1]
         else:
             dx_int, dy_int = running_integral(dx), running_integral(dy)  # current state
             x = dx_int - dx_int(time[0]) + self.signals['state'][0, -1]
diff --git a/omgtools/vehicles/bicycle.py b/omgtools/vehicles/bicycle.py
index 009430d..4d2503b 100644
--- a/omgtools/vehicles/bicycle.py
+++ b/omgtools/vehicles/bicycle.py
@@ -295,8 +295,8 @@ class Bicycle(Vehicle):
         dx = v_til*(1-tg_ha**2)
         dy = v_til*(2*tg_ha)
         if not hasattr(self, 'signals'):  # first iteration
-            x = self.integrate_once(dx, self.pose0[0], time[0])
-            y = self.integrate_once(dy, self.pose0[1], time[0])
+            x = self.integrate_once(dx, self.prediction['state'][0], time[0])
+            y = self.integrate_once(dy, self.prediction['state'][1], time[0])
             # dx_int, dy_int = running_integral(dx), running_integral(dy)
             # x = dx_int - dx_int(time[0]) + self.pose0[0]
             # y = dy_int - dy_int(time[0]) + self.pose0[1]
@@ -351,8 +351,8 @@ class Bicycle(Vehicle):
             dx2 = concat_splines([dx2], [horizon_time])[0]
             dy2 = concat_splines([dy2], [horizon_time])[0]
             if not hasattr(self, 'signals'): # first iteration
-                x2 = self.integrate_once(dx2, self.pose0[0], time[0])
-                y2 = self.integrate_once(dy2, self.pose0[1], time[0])
+                x2 = self.integrate_once(dx2, self.prediction['state'][0], time[0])
+                y2 = self.integrate_once(dy2, self.prediction['state'][1], time[0])
             else:
                 x2 = self.integrate_once(dx2, self.signals['state'][0, -1], time[0])
                 y2 = self.integrate_once(dy2, self.signals['state'][1, -1], time[0])
diff --git a/omgtools/vehicles/dubins.py b/omgtools/vehicles/dubins.py
index f7aaacc..83bbcb6 100644
--- a/omgtools/vehicles/dubins.py
+++ b/omgtools/vehicles/dubins.py
@@ -276,8 +276,8 @@ class Dubins(Vehicle):
         dx = v_til*(1-tg_ha**2)
         dy = v_til*(2*tg_ha)
         if not hasattr(self, 'signals'):  # first iteration
-            x = self.integrate_once(dx, self.pose0[0], time[0])
-            y = self.integrate_once(dy, self.pose0[1], time[0])
+            x = self.integrate_once(dx, self.prediction['state'][0], time[0])
+            y = self.integrate_once(dy, self.prediction['state'][1], time[0])
         else:
             x = self.integrate_once(dx, self.signals['state'][0, -1], time[0])
             y = self.integrate_once(dy, self.signals['state'][1, -1], time[0])
@@ -308,8 +308,8 @@ class Dubins(Vehicle):
             dx2 = concat_splines([dx2], [horizon_time])[0]
             dy2 = concat_splines([dy2], [horizon_time])[0]
             if not hasattr(self, 'signals'): # first iteration
-                x2 = self.integrate_once(dx2, self.pose0[0], time[0])
-                y2 = self.integrate_once(dy2, self.pose0[1], time[0])
+                x2 = self.integrate_once(dx2, self.prediction['state'][0], time[0])
+                y2 = self.integrate_once(dy2, self.prediction['state'][1], time[0])
             else:
                 x2 = self.integrate_once(dx2, self.signals['state'][0, -1], time[0])
                 y2 = self.integrate_once(dy2, self.signals['state'][1, -1], time[0])
-- 
2.43.0


From b63a1ba8533fb72fee35633709c3987fd41da378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 06/89] fix: let a trailer run without being drawn

The leading vehicle got its signals only as a side effect of Trailer.draw, so
checking the terminal conditions without a scene plot raised AttributeError.
---
 omgtools/vehicles/trailer.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/omgtools/vehicles/trailer.py b/omgtools/vehicles/trailer.py
index fc0648b..e05273e 100644
--- a/omgtools/vehicles/trailer.py
+++ b/omgtools/vehicles/trailer.py
@@ -206,6 +206,19 @@ class Trailer(Vehicle):
         pose_tr = state[:3]
         return np.r_[pose_tr , pose_veh]
 
+    def simulate(self, simulation_time, sample_time):
+        Vehicle.simulate(self, simulation_time, sample_time)
+        self.update_lead_signals()
+
+    def update_lead_signals(self):
+        # signals are required for drawing and for checking the terminal conditions
+        # since this vehicle is not simulated separately it doesn't get a self.signals attribute
+        signals_veh = {}
+        signals_veh['pose'] = self.signals['pose'][3:, ]
+        signals_veh['state'] = self.signals['state'][3:, ]
+        signals_veh['input'] = self.signals['input']
+        self.lead_veh.update_signals(signals_veh)
+
     def draw(self, t=-1):
         surfaces, lines = [], []
         for shape in self.shapes:
@@ -226,12 +239,6 @@ class Trailer(Vehicle):
             pt2 = self.signals['pose'][:2, t] + (self.l_hitch)*np.array([np.cos(self.signals['pose'][2, t]),
                                                                          np.sin(self.signals['pose'][2, t])])
             lines += [np.array([pt1, pt2]).T]
-        # signals are required for drawing
-        # since this vehicle is not simulated separately it doesn't get a self.signals attribute
-        signals_veh = {}
-        signals_veh['pose'] = self.signals['pose'][3:, ]
-        signals_veh['state'] = self.signals['state'][3:, ]
-        signals_veh['input'] = self.signals['input']
-        self.lead_veh.update_signals(signals_veh)
+        self.update_lead_signals()
         surfaces += self.lead_veh.draw(t)[0]
         return surfaces, lines
-- 
2.43.0


From 02b3283ba91bd48efcccced12bbfc293473d0d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 07/89] fix: disturb a motion of which only a few samples are
 left

filtfilt() pads its input with 12 samples and raises when there are fewer.
---
 omgtools/vehicles/vehicle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 98fd1f8..39c5169 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -442,9 +442,12 @@ class Vehicle(OptiChild, PlotLayer):
             n_samp = input.shape[1]
             disturbance = np.zeros((n_sign, n_samp))
             filt = butter(3, fc, 'low')
+            # near the end of a motion only a few samples are left
+            padlen = min(3*len(filt[0]), n_samp-1)
             for k in range(n_sign):
                 disturbance[k, :] = filtfilt(filt[0], filt[1],
-                                             normal(mean[k], stdev[k], n_samp))
+                                             normal(mean[k], stdev[k], n_samp),
+                                             padlen=padlen)
             return input + disturbance
         else:
             return input
-- 
2.43.0


From 6e84b22d06f8a15d175aaab337cb721b51c2d578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 08/89] fix: do not crash on a solver time-out when resetting
 the initial guess

get_init_spline_value() already returns a list with one guess per segment;
wrapping it in another list per vehicle made reset_init_guess() raise.
---
 omgtools/problems/problem.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/omgtools/problems/problem.py b/omgtools/problems/problem.py
index 9f530a8..3ae4c96 100644
--- a/omgtools/problems/problem.py
+++ b/omgtools/problems/problem.py
@@ -163,22 +163,23 @@ class Problem(OptiChild, PlotLayer):
             vehicle.predict(current_time, predict_time, sample_time, states[k], inputs[k], dinputs[k], delay, enforce_states, enforce_inputs)
 
     def reset_init_guess(self, init_guess=None):
-            if init_guess is None:  # no user provided initial guess
-                init_guess = []
-                for k, vehicle in enumerate(self.vehicles):  # build list
-                    init_guess.append(vehicle.get_init_spline_value())
-            elif not isinstance(init_guess, list):  # guesses must be in a list
+            if init_guess is not None and not isinstance(init_guess, list):  # guesses must be in a list
                 init_guess = [init_guess]
 
             for k, vehicle in enumerate(self.vehicles):
-                if len(init_guess) != vehicle.n_seg:
+                # a list with a guess per spline segment
+                if init_guess is None:  # no user provided initial guess
+                    guess = vehicle.get_init_spline_value()
+                else:
+                    guess = init_guess
+                if len(guess) != vehicle.n_seg:
                     raise ValueError('Each spline segment of the vehicle should receive an initial guess.')
                 else:
                     for l in range(vehicle.n_seg):
-                        if init_guess[l].shape[1] != vehicle.n_spl:
+                        if guess[l].shape[1] != vehicle.n_spl:
                             raise ValueError('Each vehicle spline should receive an initial guess.')
                         else:
-                            self.father.set_variables(init_guess[l].tolist(),child=vehicle, name='splines_seg'+str(l))
+                            self.father.set_variables(guess[l].tolist(),child=vehicle, name='splines_seg'+str(l))
 
     # ========================================================================
     # Simulation related functions
-- 
2.43.0


From f3a15535bcfeb956a9ed4837da02b99d8ed79247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 09/89] fix: give the 1D vehicle's initial guess one column per
 spline

reset_init_guess() looks at its second dimension after a solver time-out.
---
 omgtools/vehicles/holonomic1d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/vehicles/holonomic1d.py b/omgtools/vehicles/holonomic1d.py
index 66414df..2920d8b 100644
--- a/omgtools/vehicles/holonomic1d.py
+++ b/omgtools/vehicles/holonomic1d.py
@@ -78,7 +78,8 @@ class Holonomic1D(Vehicle):
         pos0 = self.prediction['state'][0]
         posT = self.poseT[0]
         # init_value = np.r_[pos0[0]*np.ones(self.degree), np.linspace(pos0[0], posT[0], len(self.basis) - 2*self.degree), posT[0]*np.ones(self.degree)]
-        init_value = np.linspace(pos0, posT, len(self.basis))
+        init_value = np.zeros((len(self.basis), 1))
+        init_value[:, 0] = np.linspace(pos0, posT, len(self.basis))
         init_value = [init_value]
         return init_value
 
-- 
2.43.0


From eedd123e794e21a57c2d0cc65b03ccca6cb02a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 10/89] fix: plan a quadrotor from its predicted velocity and
 tilt

The plan continued the previous plan's velocity and acceleration, whatever
the measured state said: velocity errors were never corrected and the
vehicle drifted away from its target.
---
 omgtools/vehicles/quadrotor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/omgtools/vehicles/quadrotor.py b/omgtools/vehicles/quadrotor.py
index 8033357..fff0eaf 100644
--- a/omgtools/vehicles/quadrotor.py
+++ b/omgtools/vehicles/quadrotor.py
@@ -84,9 +84,10 @@ class Quadrotor(Vehicle):
         return [term_con, term_con_der]
 
     def set_initial_conditions(self, state, input=None):
+        if input is None:
+            input = np.array([self.g, 0.])
         self.prediction['state'] = np.r_[state[:2], np.zeros(3)].T
-        self.prediction['dspl'] = np.zeros(2)
-        self.prediction['ddspl'] = np.zeros(2)
+        self.prediction['input'] = input
 
     def set_terminal_conditions(self, position):
         self.poseT = position
@@ -112,8 +113,9 @@ class Quadrotor(Vehicle):
     def set_parameters(self, current_time):
         parameters = Vehicle.set_parameters(self, current_time)
         parameters[self]['spl0'] = self.prediction['state'][:2]
-        parameters[self]['dspl0'] = self.prediction['dspl']
-        parameters[self]['ddspl0'] = self.prediction['ddspl']
+        parameters[self]['dspl0'] = self.prediction['state'][2:4]
+        u1, theta = self.prediction['input'][0], self.prediction['state'][4]
+        parameters[self]['ddspl0'] = [u1*np.sin(theta), u1*np.cos(theta)-self.g]
         parameters[self]['poseT'] = self.poseT
         return parameters
 
-- 
2.43.0


From 69664d5a7e1c0efa7500936ad23f64fb96395449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 11/89] fix: check the position on arrival when the tolerance
 is 1 or more

The closing bracket was in the wrong place, so that 'too far away' was the
truth value True, compared with the tolerance as the number 1.
---
 omgtools/vehicles/agv.py                | 2 +-
 omgtools/vehicles/bicycle.py            | 2 +-
 omgtools/vehicles/dubins.py             | 2 +-
 omgtools/vehicles/holonomic.py          | 2 +-
 omgtools/vehicles/holonomic1d.py        | 2 +-
 omgtools/vehicles/holonomic3d.py        | 2 +-
 omgtools/vehicles/holonomicorient.py    | 2 +-
 omgtools/vehicles/quadrotor.py          | 2 +-
 omgtools/vehicles/quadrotor3d_simple.py | 2 +-
 omgtools/vehicles/tool.py               | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/omgtools/vehicles/agv.py b/omgtools/vehicles/agv.py
index a449a62..83b42fa 100644
--- a/omgtools/vehicles/agv.py
+++ b/omgtools/vehicles/agv.py
@@ -193,7 +193,7 @@ class AGV(Vehicle):
         # todo: kicked out state[3] since you cannot impose a steerT for now
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:3, -1] - self.poseT) > tol or
-            np.linalg.norm(self.signals['input'][:, -1])) > tol:
+            np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/bicycle.py b/omgtools/vehicles/bicycle.py
index 4d2503b..cda6e13 100644
--- a/omgtools/vehicles/bicycle.py
+++ b/omgtools/vehicles/bicycle.py
@@ -226,7 +226,7 @@ class Bicycle(Vehicle):
         # todo: kicked out state[3] since you cannot impose a steerT for now
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:3, -1] - self.poseT) > tol or
-            np.linalg.norm(self.signals['input'][:, -1])) > tol:
+            np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/dubins.py b/omgtools/vehicles/dubins.py
index 83bbcb6..3a71650 100644
--- a/omgtools/vehicles/dubins.py
+++ b/omgtools/vehicles/dubins.py
@@ -220,7 +220,7 @@ class Dubins(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/holonomic.py b/omgtools/vehicles/holonomic.py
index d84bfa1..5929d0b 100644
--- a/omgtools/vehicles/holonomic.py
+++ b/omgtools/vehicles/holonomic.py
@@ -145,7 +145,7 @@ class Holonomic(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/holonomic1d.py b/omgtools/vehicles/holonomic1d.py
index 2920d8b..9f9f517 100644
--- a/omgtools/vehicles/holonomic1d.py
+++ b/omgtools/vehicles/holonomic1d.py
@@ -86,7 +86,7 @@ class Holonomic1D(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/holonomic3d.py b/omgtools/vehicles/holonomic3d.py
index 3c76411..8844b84 100644
--- a/omgtools/vehicles/holonomic3d.py
+++ b/omgtools/vehicles/holonomic3d.py
@@ -116,7 +116,7 @@ class Holonomic3D(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/holonomicorient.py b/omgtools/vehicles/holonomicorient.py
index 9a8bc0f..6822e9b 100644
--- a/omgtools/vehicles/holonomicorient.py
+++ b/omgtools/vehicles/holonomicorient.py
@@ -138,7 +138,7 @@ class HolonomicOrient(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/quadrotor.py b/omgtools/vehicles/quadrotor.py
index fff0eaf..5d5c81c 100644
--- a/omgtools/vehicles/quadrotor.py
+++ b/omgtools/vehicles/quadrotor.py
@@ -105,7 +105,7 @@ class Quadrotor(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['pose'][:2, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['dspl'][:, -1])) > tol:
+                np.linalg.norm(self.signals['dspl'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/quadrotor3d_simple.py b/omgtools/vehicles/quadrotor3d_simple.py
index 22e9214..c13e7ad 100644
--- a/omgtools/vehicles/quadrotor3d_simple.py
+++ b/omgtools/vehicles/quadrotor3d_simple.py
@@ -139,7 +139,7 @@ class SimpleQuadrotor3D(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['pose'][:3, -1] - self.positionT) > tol or
-                np.linalg.norm(self.signals['dspl'][:, -1])) > tol:
+                np.linalg.norm(self.signals['dspl'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/tool.py b/omgtools/vehicles/tool.py
index a7760a0..5d83809 100644
--- a/omgtools/vehicles/tool.py
+++ b/omgtools/vehicles/tool.py
@@ -163,7 +163,7 @@ class Tool(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
-- 
2.43.0


From 4c38c4d891b2cfa536b9134e273adeb1928bf010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 12/89] fix: a quadrotor has arrived only when it really is at
 rest

The velocity of the plan was checked instead of the vehicle's, or, for the
3D quadrotor, no velocity at all.
---
 omgtools/vehicles/quadrotor.py          | 2 +-
 omgtools/vehicles/quadrotor3d.py        | 1 +
 omgtools/vehicles/quadrotor3d_simple.py | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/omgtools/vehicles/quadrotor.py b/omgtools/vehicles/quadrotor.py
index 5d5c81c..22b0946 100644
--- a/omgtools/vehicles/quadrotor.py
+++ b/omgtools/vehicles/quadrotor.py
@@ -105,7 +105,7 @@ class Quadrotor(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['pose'][:2, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['dspl'][:, -1]) > tol):
+                np.linalg.norm(self.signals['state'][2:4, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/quadrotor3d.py b/omgtools/vehicles/quadrotor3d.py
index 9d87896..219ce49 100755
--- a/omgtools/vehicles/quadrotor3d.py
+++ b/omgtools/vehicles/quadrotor3d.py
@@ -200,6 +200,7 @@ class Quadrotor3D(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['pose'][:3, -1] - self.poseT[:3]) > tol or
+                np.linalg.norm(self.signals['state'][3:6, -1]) > tol or
                 np.linalg.norm(self.signals['input'][:, -1]) - self.g > tol):
             return False
         else:
diff --git a/omgtools/vehicles/quadrotor3d_simple.py b/omgtools/vehicles/quadrotor3d_simple.py
index c13e7ad..51ccd7b 100644
--- a/omgtools/vehicles/quadrotor3d_simple.py
+++ b/omgtools/vehicles/quadrotor3d_simple.py
@@ -139,7 +139,7 @@ class SimpleQuadrotor3D(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['pose'][:3, -1] - self.positionT) > tol or
-                np.linalg.norm(self.signals['dspl'][:, -1]) > tol):
+                np.linalg.norm(self.signals['state'][3:6, -1]) > tol):
             return False
         else:
             return True
-- 
2.43.0


From 2e66ca2962f6f731dd1bc21ddafea83adb1b452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 13/89] fix: advance the clock by what was simulated when a
 step is cut short

---
 omgtools/execution/simulator.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/omgtools/execution/simulator.py b/omgtools/execution/simulator.py
index 361197d..b45c7bc 100644
--- a/omgtools/execution/simulator.py
+++ b/omgtools/execution/simulator.py
@@ -41,12 +41,10 @@ class Simulator:
         stop = False
         while not stop:
             stop = self.update()
-            ### adapted ###
-            if (stop or self.update_time - float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)) > self.sample_time:
-                update_time = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
-                 # correcting for first time
-                 # avoid negative update times
-                self.update_timing(max(0,update_time-self.sample_time))
+            # the step is cut short when the plan is exhausted
+            elapsed = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
+            if stop or self.update_time - elapsed > 0.5*self.sample_time:
+                self.update_timing(max(0, elapsed))
             else:
                 self.update_timing()
 
-- 
2.43.0


From 92ca14ef23656939d952547f9f7efed11ed6ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:51 +0000
Subject: [PATCH 14/89] fix: shift the plan and the agents' variables over
 every knot that was passed

The time within a knot interval is no longer computed with float modulo (2.4 %% 0.8
is nearly 0.8), a late update shifts over all knots that went by, the knot interval
is not truncated to a millisecond, and ADMM and dual decomposition variables are
shifted together with the plan, once.
---
 omgtools/problems/admm.py              | 11 +++++-----
 omgtools/problems/dualdecomposition.py |  9 ++++----
 omgtools/problems/point2point.py       | 30 ++++++++++++++++++--------
 3 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/omgtools/problems/admm.py b/omgtools/problems/admm.py
index 20b2c3f..f46b7f1 100644
--- a/omgtools/problems/admm.py
+++ b/omgtools/problems/admm.py
@@ -409,7 +409,7 @@ class ADMM(DualUpdater):
         t0 = time.time()
         self.var_admm['z_i_p'] = self.var_admm['z_i']
         self.var_admm['z_ij_p'] = self.var_admm['z_ij']
-        current_time = np.round(current_time, 6) % self.problem.knot_time
+        current_time = self.problem.get_time_since_knot(current_time)
         horizon_time = self.problem.options['horizon_time']
         rho = self.options['rho']
         if self._lineq_updz:
@@ -456,7 +456,7 @@ class ADMM(DualUpdater):
         l_i = self.var_admm['l_i']
         l_ij = self.var_admm['l_ij']
         x_j = self.var_admm['x_j']
-        t = np.round(current_time, 6) % self.problem.knot_time
+        t = self.problem.get_time_since_knot(current_time)
         T = self.problem.options['horizon_time']
         rho = self.options['rho']
         out = self.problem_upd_l(x_i, z_i, z_ij, l_i, l_ij, x_j, rho)
@@ -475,10 +475,9 @@ class ADMM(DualUpdater):
             self.var_admm['x_j'][str(nghb)] = x_j
 
     def init_step(self, current_time, update_time):
-        self.problem.init_step(current_time, update_time)
+        n_knots = self.problem.init_step(current_time, update_time)
         # transform spline variables
-        if ((current_time > 0. and
-             np.round(current_time, 6) % self.problem.knot_time == 0)):
+        for _ in range(n_knots):
             tf = shift_over_knot
             for key in ['x_i', 'z_i', 'z_i_p', 'l_i', 'l_i_p']:
                 self.var_admm[key] = self._transform_spline(
@@ -499,7 +498,7 @@ class ADMM(DualUpdater):
         z_ij = self.var_admm['z_ij']
         z_ij_p = self.var_admm['z_ij_p']
         x_j = self.var_admm['x_j']
-        t = np.round(current_time, 6) % self.problem.knot_time
+        t = self.problem.get_time_since_knot(current_time)
         T = self.problem.options['horizon_time']
         rho = self.options['rho']
         out = self.problem_upd_res(x_i, z_i, z_i_p, z_ij, z_ij_p, x_j, t, T, rho)
diff --git a/omgtools/problems/dualdecomposition.py b/omgtools/problems/dualdecomposition.py
index 0dd2ac7..b413981 100644
--- a/omgtools/problems/dualdecomposition.py
+++ b/omgtools/problems/dualdecomposition.py
@@ -214,7 +214,7 @@ class DDUpdater(DualUpdater):
         x_j = self.var_dd['x_j']
         z_ij = self.var_dd['z_ij']
         l_ij = self.var_dd['l_ij']
-        t = np.round(current_time, 6) % self.problem.knot_time
+        t = self.problem.get_time_since_knot(current_time)
         T = self.problem.options['horizon_time']
         rho = self.options['rho']
         out = self.problem_upd_l(x_j, z_ij, l_ij, t, T, rho)
@@ -230,10 +230,9 @@ class DDUpdater(DualUpdater):
             self.var_dd['x_j'][str(nghb)] = x_j
 
     def init_step(self, current_time, update_time):
-        self.problem.init_step(current_time, update_time)
+        n_knots = self.problem.init_step(current_time, update_time)
         # transform spline variables
-        if ((current_time > 0. and
-             np.round(current_time, 6) % self.problem.knot_time == 0)):
+        for _ in range(n_knots):
             tf = shift_over_knot
             for key in ['x_i']:
                 self.var_dd[key] = self._transform_spline(
@@ -247,7 +246,7 @@ class DDUpdater(DualUpdater):
 
     def get_residuals(self, current_time):
         t0 = time.time()
-        current_time = np.round(current_time, 6) % self.problem.knot_time
+        current_time = self.problem.get_time_since_knot(current_time)
         horizon_time = self.problem.options['horizon_time']
         tf = lambda cfs, basis: shift_knot1_fwd(
             cfs, basis, current_time/horizon_time)
diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 2381500..43d6a12 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -131,8 +131,8 @@ class FixedTPoint2point(Point2pointProblem):
         if self.vehicles[0].knot_intervals is None:
             raise ValueError('A constant knot interval should be used for ' +
                              'a fixed T point2point problem.')
-        self.knot_time = (int(self.options['horizon_time']*1000.) /
-                          self.vehicles[0].knot_intervals) / 1000.
+        self.knot_time = (float(self.options['horizon_time']) /
+                          self.vehicles[0].knot_intervals)
 
     def set_default_options(self):
         Point2pointProblem.set_default_options(self)
@@ -174,7 +174,7 @@ class FixedTPoint2point(Point2pointProblem):
     def set_parameters(self, current_time):
         parameters = Point2pointProblem.set_parameters(self, current_time)
         if self.init_time is None:
-            parameters[self]['t'] = np.round(current_time, 6) % self.knot_time
+            parameters[self]['t'] = self.get_time_since_knot(current_time)
         else:
             parameters[self]['t'] = self.init_time
         parameters[self]['T'] = self.options['horizon_time']
@@ -188,14 +188,26 @@ class FixedTPoint2point(Point2pointProblem):
         # transform spline variables
         if not hasattr(self, 'current_time_prev'):
             self.current_time_prev = 0
-        interval_prev = int(np.round(self.current_time_prev/self.knot_time, 6))
-        interval_now = int(np.round(current_time/self.knot_time, 6))
-        if (interval_prev < interval_now): # passed a knot
+        interval_prev = self.get_knot_interval(self.current_time_prev)
+        interval_now = self.get_knot_interval(current_time)
+        # a late update can pass more than one knot
+        n_knots = min(max(0, interval_now - interval_prev), self.vehicles[0].knot_intervals)
+        for _ in range(n_knots):
             self.father.transform_primal_splines(lambda coeffs, basis, T:
                                                  T.dot(coeffs))
             # self.father.transform_dual_splines(lambda coeffs, basis, T:
             #                                    T.dot(coeffs))
         self.current_time_prev = current_time
+        return n_knots
+
+    def get_knot_interval(self, current_time):
+        return int(np.round(current_time/self.knot_time, 6))
+
+    def get_time_since_knot(self, current_time):
+        # consistent with get_knot_interval: not computed with %, which for
+        # example lets 2.4 % 0.8 be (nearly) 0.8
+        interval = self.get_knot_interval(current_time)
+        return max(0., np.round(current_time - interval*self.knot_time, 6))
 
     def init_primal_transform(self, basis):
         return shiftoverknot_T(basis)
@@ -217,7 +229,7 @@ class FixedTPoint2point(Point2pointProblem):
             # its time horizon lies in the past. Therefore, we need to pass the
             # current time relatively to the begin of this time horizon. In this
             # way, only the future, relevant, part will be saved/plotted.
-            rel_current_time = np.round(current_time-self.start_time, 6) % self.knot_time
+            rel_current_time = self.get_time_since_knot(current_time-self.start_time)
         else:
             rel_current_time = self.init_time
         # store trajectories in vehicles
@@ -235,7 +247,7 @@ class FixedTPoint2point(Point2pointProblem):
     def simulate(self, current_time, simulation_time, sample_time):
         horizon_time = self.options['horizon_time']
         if self.init_time is None:
-            rel_current_time = np.round(current_time-self.start_time, 6) % self.knot_time
+            rel_current_time = self.get_time_since_knot(current_time-self.start_time)
         else:
             rel_current_time = self.init_time
         if horizon_time - rel_current_time < simulation_time:
@@ -244,7 +256,7 @@ class FixedTPoint2point(Point2pointProblem):
         Problem.simulate(self, current_time, simulation_time, sample_time)
 
     def compute_partial_objective(self, current_time, update_time):
-        rel_current_time = np.round(current_time-self.start_time, 6) % self.knot_time
+        rel_current_time = self.get_time_since_knot(current_time-self.start_time)
         horizon_time = self.options['horizon_time']
         t0 = rel_current_time/horizon_time
         t1 = t0 + update_time/horizon_time
-- 
2.43.0


From 9aefcc71b82c69dd1802b58e55995c3d6bba87f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:51 +0000
Subject: [PATCH 15/89] fix: start a free-time problem from what is left of its
 plan

The guess began at update_time/(T - update_time) instead of update_time/T of the
plan, and was not made at all until start_time had passed twice.
---
 omgtools/problems/point2point.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 43d6a12..7b13b42 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -364,7 +364,8 @@ class FreeTPoint2point(Point2pointProblem):
         return Point2pointProblem.stop_criterium(self, current_time, update_time)
 
     def init_step(self, current_time, update_time):
-        if (current_time - self.start_time) > 0:
+        # current_time is relative to start_time
+        if current_time > 0:
             T = self.father.get_variables(self, 'T')[0][0]
             # check if almost arrived, if so lower the update time
             if T < 2*update_time:
@@ -376,7 +377,7 @@ class FreeTPoint2point(Point2pointProblem):
             # to goal position at target_time. Approximate/Represent this spline in
             # a new basis with new equidistant knots.
             self.father.transform_primal_splines(
-                lambda coeffs, basis: shift_spline(coeffs, update_time/target_time, basis))
+                lambda coeffs, basis: shift_spline(coeffs, update_time/T, basis))
             self.father.set_variables(target_time, self, 'T')
 
     def compute_partial_objective(self, current_time):
-- 
2.43.0


From 19ac8b645e2eed6158659bae8b2c872e95b7e690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 16/89] fix: do not change the dictionary an obstacle is
 created from

---
 omgtools/environment/obstacle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omgtools/environment/obstacle.py b/omgtools/environment/obstacle.py
index c34a5de..2ae1c44 100644
--- a/omgtools/environment/obstacle.py
+++ b/omgtools/environment/obstacle.py
@@ -47,12 +47,14 @@ class ObstaclexD(OptiChild):
     def __init__(self, initial, shape, simulation, options):
         OptiChild.__init__(self, 'obstacle')
         self.simulation = simulation
+        initial = dict(initial)  # the user can use his dictionary for other obstacles
         if 'trajectories' in simulation:
             for key in simulation['trajectories']:
                 # user specified a value at time 0
-                if 0 in simulation['trajectories'][key]['time']:
+                time = list(simulation['trajectories'][key]['time'])
+                if 0 in time:
                     # this value should be added to initial
-                    initial[key] = simulation['trajectories'][key]['values'][0]
+                    initial[key] = simulation['trajectories'][key]['values'][time.index(0)]
         self.set_default_options()
         self.set_options(options)
         self.shape = shape
-- 
2.43.0


From 5910f5219b3289cc909ec1223771edf41d5ebfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:24 +0000
Subject: [PATCH 17/89] fix: do not let the integrator step over a short change
 of an obstacle's motion

---
 omgtools/environment/obstacle.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/omgtools/environment/obstacle.py b/omgtools/environment/obstacle.py
index 2ae1c44..0092d86 100644
--- a/omgtools/environment/obstacle.py
+++ b/omgtools/environment/obstacle.py
@@ -225,6 +225,9 @@ class ObstaclexD(OptiChild):
         self.state_incr_interp = interp1d(time_state, state_incr, kind='zero',
                                           bounds_error=False,
                                           fill_value=state_incr[:, -1])
+        # shortest time between two changes of the motion
+        event_times = np.unique(np.r_[time_state, trajectories['input']['time']])
+        self.event_interval = np.min(np.diff(event_times))
         # initialize signals
         self.signals = {}
         self.signals['time'] = np.array([0.])
@@ -254,7 +257,9 @@ class ObstaclexD(OptiChild):
                        self.signals['acceleration'][:, -1]].T
         if time0 != 0.0:
             state0 -= self.state_incr_interp(time0)
-        state = odeint(self._ode, state0, time_axis).T
+        # do not step over a change of the motion
+        state = odeint(self._ode, state0, time_axis,
+                       hmax=min(sample_time, self.event_interval)).T
         state += self.state_incr_interp(time_axis)
         self.signals['position'] = np.c_[self.signals['position'],
                                          state[:self.n_dim, 1:n_samp+1]]
-- 
2.43.0


From 7df20571f5c5bff5f6a61cb08bfec27b6dad0641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:24 +0000
Subject: [PATCH 18/89] fix: copy obstacles where they are, not where they once
 started

---
 omgtools/environment/environment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omgtools/environment/environment.py b/omgtools/environment/environment.py
index dd6d9fd..398d433 100644
--- a/omgtools/environment/environment.py
+++ b/omgtools/environment/environment.py
@@ -67,6 +67,9 @@ class Environment(OptiChild, PlotLayer):
     def copy(self):
         obstacles = [Obstacle(o.initial, o.shape, o.simulation, o.options)
                      for o in self.obstacles]
+        # the copied obstacles are where the original ones are
+        for obstacle, o in zip(obstacles, self.obstacles):
+            obstacle.signals = {key: np.copy(signal) for key, signal in o.signals.items()}
         return Environment(self.room, obstacles)
 
     # ========================================================================
-- 
2.43.0


From 7e1aca26ef1e5ab1bb4f5a19681c5ee405480bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:24 +0000
Subject: [PATCH 19/89] fix: let the environment of a distributed problem stop
 when the agents stop

---
 omgtools/problems/distributedproblem.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/omgtools/problems/distributedproblem.py b/omgtools/problems/distributedproblem.py
index 4c1b055..aa00f5a 100644
--- a/omgtools/problems/distributedproblem.py
+++ b/omgtools/problems/distributedproblem.py
@@ -209,11 +209,16 @@ class DistributedProblem(Problem):
     # ========================================================================
 
     def simulate(self, current_time, simulation_time, sample_time):
+        if hasattr(self.vehicles[0], 'signals'):
+            time0 = float(self.vehicles[0].signals['time'][:, -1])
+        else:
+            time0 = current_time
         for problem in self.problems:
             problem.simulate(current_time, simulation_time, sample_time)
-        horizon_time = self.problems[0].options['horizon_time']
-        if horizon_time < simulation_time:
-            simulation_time = horizon_time
+        # the agents stop at the end of their plans
+        elapsed = float(self.vehicles[0].signals['time'][:, -1]) - time0
+        if elapsed < simulation_time:
+            simulation_time = elapsed
         self.environment.simulate(simulation_time, sample_time)
         self.fleet.update_plots()
         self.update_plots()
-- 
2.43.0


From 1208394e475bdb31bb5b616c40103352c779753f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:24 +0000
Subject: [PATCH 20/89] fix: let a bouncing obstacle return into the room after
 a late check

---
 omgtools/environment/environment.py | 70 +++++------------------------
 1 file changed, 10 insertions(+), 60 deletions(-)

diff --git a/omgtools/environment/environment.py b/omgtools/environment/environment.py
index 398d433..28d7ab6 100644
--- a/omgtools/environment/environment.py
+++ b/omgtools/environment/environment.py
@@ -268,66 +268,16 @@ class Environment(OptiChild, PlotLayer):
                 # check if the obstacle doesn't hit the borders
                 # Todo: supposed that self.room[0] is the total room, containing outer border
                 if obstacle.is_outside_of(self.room[0]):
-                    # bounce straight off border
-                    if any(v == 0 for v in vel):
-                        vel_new = -vel
-                    # bounce diagonally off border
-                    else:
-                        old_pos = np.copy(obstacle.signals['position'][:,-1])
-                        if (vel[0] > 0 and vel[1] > 0):
-                            # direction = up_right
-                            # new direction may be down_right or up_left
-                            # test new direction down_right by shifting obstacle
-                            obstacle.signals['position'][:,-1] += [0.15,-0.15]
-                            if not obstacle.is_outside_of(self.room[0]):
-                                # no overlap so move down_right
-                                # new_direction = down_right
-                                vel_new = [vel[0], -vel[1]]
-                            else:
-                                # there was overlap so move up_left
-                                # new_direction = up_left
-                                vel_new = [-vel[0],vel[1]]
-                        elif vel[0] < 0 and vel[1] > 0:
-                            # direction = up_left
-                            # new direction may be down_left or up_right
-                            # test new direction down_left by shifting obstacle
-                            obstacle.signals['position'][:,-1] += [-0.15,-0.15]
-                            if not obstacle.is_outside_of(self.room[0]):
-                                # no overlap so move down_left
-                                # new_direction = down_left
-                                vel_new = [vel[0], -vel[1]]
-                            else:
-                                # there was overlap so move up_right
-                                # new_direction = up_right
-                                vel_new = [-vel[0],vel[1]]
-                        elif vel[0] > 0 and vel[1] < 0:
-                            # direction = down_right
-                            # new direction may be down_left or up_right
-                            # test new direction down_left by shifting obstacle
-                            obstacle.signals['position'][:,-1] += [-0.15,-0.15]
-                            if not obstacle.is_outside_of(self.room[0]):
-                                # no overlap so move down_left
-                                # new_direction = down_left
-                                vel_new = [-vel[0], vel[1]]
-                            else:
-                                # there was overlap so move up_right
-                                # new_direction = up_right
-                                vel_new = [vel[0],-vel[1]]
-                        elif vel[0] < 0 and vel[1] < 0:
-                            # direction = down_left
-                            # new direction may be down_right or up_left
-                            # test new direction down_right by shifting obstacle
-                            obstacle.signals['position'][:,-1] += [0.15,-0.15]
-                            if not obstacle.is_outside_of(self.room[0]):
-                                # no overlap so move down_right
-                                # new_direction = down_right
-                                vel_new = [-vel[0], vel[1]]
-                            else:
-                                # there was overlap so move up_left
-                                # new_direction = up_left
-                                vel_new = [vel[0],-vel[1]]
-                        # reset position
-                        obstacle.signals['position'][:,-1] = old_pos
+                    # reflect the velocity on each border through which the obstacle is leaving,
+                    # when it is returning but not inside again yet it just continues
+                    vel_new = np.copy(vel)
+                    room_limits = self.room[0]['shape'].get_canvas_limits()
+                    obs_limits = obstacle.shape.get_canvas_limits()
+                    for k in range(self.n_dim):
+                        pos = obstacle.signals['position'][k, -1] - self.room[0]['position'][k]
+                        if ((vel[k] > 0 and pos + obs_limits[k][1] > room_limits[k][1]) or
+                            (vel[k] < 0 and pos + obs_limits[k][0] < room_limits[k][0])):
+                            vel_new[k] = -vel[k]
                     print('setting new velocity')
                     obstacle.signals['velocity'][:,-1] = vel_new
             obstacle.simulate(simulation_time, sample_time)
-- 
2.43.0


From 5d22667bd25cd050a45d218290b365377a0912f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:13 +0000
Subject: [PATCH 21/89] fix: forget the agents' multipliers when a problem is
 reset

---
 omgtools/problems/admm.py              | 21 ++++++++++++++-------
 omgtools/problems/dualdecomposition.py | 18 +++++++++++-------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/omgtools/problems/admm.py b/omgtools/problems/admm.py
index f46b7f1..c1a3f2b 100644
--- a/omgtools/problems/admm.py
+++ b/omgtools/problems/admm.py
@@ -44,13 +44,7 @@ class ADMM(DualUpdater):
             problems = {'upd_x': None, 'upd_z': None, 'lineq_updz': True,
                         'upd_l': None, 'upd_res': None}
         DualUpdater.init(self)
-        self.var_admm = {}
-        for key in ['x_i', 'z_i', 'z_i_p', 'l_i', 'l_i_p']:
-            self.var_admm[key] = self.q_i_struct(0)
-        for key in ['x_j', 'z_ij', 'z_ij_p', 'l_ij', 'l_ij_p']:
-            self.var_admm[key] = self.q_ij_struct(0)
-        for key in ['z_ji', 'l_ji']:
-            self.var_admm[key] = self.q_ji_struct(0)
+        self.reset_var_admm()
         time_buildx = self.construct_upd_x(problems['upd_x'])
         time_buildz = self.construct_upd_z(problems['upd_z'], problems['lineq_updz'])
         time_buildl = self.construct_upd_l(problems['upd_l'])
@@ -357,6 +351,18 @@ class ADMM(DualUpdater):
     # Methods related to solving the problem
     # ========================================================================
 
+    def reset_var_admm(self):
+        self.var_admm = {}
+        for key in ['x_i', 'z_i', 'z_i_p', 'l_i', 'l_i_p']:
+            self.var_admm[key] = self.q_i_struct(0)
+        for key in ['x_j', 'z_ij', 'z_ij_p', 'l_ij', 'l_ij_p']:
+            self.var_admm[key] = self.q_ij_struct(0)
+        for key in ['z_ji', 'l_ji']:
+            self.var_admm[key] = self.q_ji_struct(0)
+        # state of the acceleration
+        for key in ['c_res_p', 'alpha']:
+            self.__dict__.pop(key, None)
+
     def init_var_admm(self):
         for nghb, q_ji in self.q_ji.items():
             for child, q in q_ji.items():
@@ -572,6 +578,7 @@ class ADMMProblem(DualProblem):
     def reinitialize(self):
         for updater in self.updaters:
             updater.problem.reinitialize(father=updater.father_updx)
+            updater.reset_var_admm()
             updater.init_var_admm()
 
     def get_stacked_x_var_it(self):
diff --git a/omgtools/problems/dualdecomposition.py b/omgtools/problems/dualdecomposition.py
index b413981..7d89d9f 100644
--- a/omgtools/problems/dualdecomposition.py
+++ b/omgtools/problems/dualdecomposition.py
@@ -43,13 +43,7 @@ class DDUpdater(DualUpdater):
         if problems is None:
             problems = {'upd_xz': None, 'upd_l': None}
         DualUpdater.init(self)
-        self.var_dd = {}
-        for key in ['x_i']:
-            self.var_dd[key] = self.q_i_struct(0)
-        for key in ['x_j', 'z_ij', 'z_ij_p', 'l_ij', 'l_ij_p']:
-            self.var_dd[key] = self.q_ij_struct(0)
-        for key in ['l_ji']:
-            self.var_dd[key] = self.q_ji_struct(0)
+        self.reset_var_dd()
         time_buildxz = self.construct_upd_xz(problems['upd_xz'])
         time_buildl = self.construct_upd_l(problems['upd_l'])
         buildtime = time_buildxz + time_buildl
@@ -170,6 +164,15 @@ class DDUpdater(DualUpdater):
     # Methods related to solving the problem
     # ========================================================================
 
+    def reset_var_dd(self):
+        self.var_dd = {}
+        for key in ['x_i']:
+            self.var_dd[key] = self.q_i_struct(0)
+        for key in ['x_j', 'z_ij', 'z_ij_p', 'l_ij', 'l_ij_p']:
+            self.var_dd[key] = self.q_ij_struct(0)
+        for key in ['l_ji']:
+            self.var_dd[key] = self.q_ji_struct(0)
+
     def init_var_dd(self):
         for child, q in self.q_i.items():
             for name, ind in q.items():
@@ -267,6 +270,7 @@ class DDProblem(DualProblem):
     def reinitialize(self):
         for updater in self.updaters:
             updater.problem.reinitialize(father=updater.father_updx)
+            updater.reset_var_dd()
             updater.init_var_dd()
 
     def get_stacked_x_var_it(self):
-- 
2.43.0


From 03233b1ef992b7d7e662f958656e2456e783bee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:14 +0000
Subject: [PATCH 22/89] fix: keep the transformations of two problems with the
 same vehicle apart

---
 omgtools/basics/optilayer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/omgtools/basics/optilayer.py b/omgtools/basics/optilayer.py
index 75a23aa..3fe6f42 100644
--- a/omgtools/basics/optilayer.py
+++ b/omgtools/basics/optilayer.py
@@ -449,6 +449,9 @@ class OptiFather(object):
     # ========================================================================
 
     def init_transformations(self, init_primal_transform, init_dual_transform):
+        # children can belong to more than one father, these transformations
+        # are particular for this one
+        self._primal_init, self._dual_init = {}, {}
         # primal
         _init_tf = {}
         for child in self.children.values():
@@ -458,6 +461,7 @@ class OptiFather(object):
                     if basis not in _init_tf:
                         _init_tf[basis] = init_primal_transform(basis)
                     child._splines_prim[name]['init'] = _init_tf[basis]
+                    self._primal_init[child.label, name] = _init_tf[basis]
         # dual
         _init_tf = {}
         for child in self.children.values():
@@ -466,6 +470,7 @@ class OptiFather(object):
                 if basis not in _init_tf:
                     _init_tf[basis] = init_dual_transform(basis)
                 child._splines_dual[name]['init'] = _init_tf[basis]
+                self._dual_init[child.label, name] = _init_tf[basis]
 
     def transform_primal_splines(self, transform_fun, seg_shift=None):
         # seg_shift: index list of the segments of which the variables must be shifted
@@ -481,7 +486,7 @@ class OptiFather(object):
                     # check if n in 'segn' is in the index list of segments to shift
                     if ('seg' in name and int(name[name.index('seg')+3]) in seg_shift):
                         basis = spl['basis']
-                        init = spl['init']
+                        init = self._primal_init[label, name]
                         if init is not None:
                             self._var_result[label, name] = transform_fun(
                                 self._var_result[label, name], basis, init)
@@ -493,9 +498,8 @@ class OptiFather(object):
         for label, child in self.children.items():
             for name, spl in child._splines_dual.items():
                 basis = spl['basis']
-                init = spl['init']
+                init = self._dual_init[label, name]
                 if init is not None:
-                    init = spl['init']
                     self._dual_var_result[label, name] = transform_fun(
                         self._dual_var_result[label, name], basis, init)
                 else:
-- 
2.43.0


From b5efae6b8cccd2fdf0da26c22b98bb10b3b0049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 23/89] fix: simulate a single step for the time that was asked

step(update_time=x) simulated the update time of the simulator, but
advanced the clock by x; with a distributed problem it failed after the
step was done.
---
 omgtools/execution/simulator.py | 40 ++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/omgtools/execution/simulator.py b/omgtools/execution/simulator.py
index b45c7bc..c2c389c 100644
--- a/omgtools/execution/simulator.py
+++ b/omgtools/execution/simulator.py
@@ -41,12 +41,7 @@ class Simulator:
         stop = False
         while not stop:
             stop = self.update()
-            # the step is cut short when the plan is exhausted
-            elapsed = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
-            if stop or self.update_time - elapsed > 0.5*self.sample_time:
-                self.update_timing(max(0, elapsed))
-            else:
-                self.update_timing()
+            self.advance(stop, self.update_time)
 
         self.problem.final()
         # return trajectories and signals
@@ -60,23 +55,23 @@ class Simulator:
         return trajectories, signals
 
     def step(self, update_time=0.1):
-        stop = self.update()
+        stop = self.update(update_time)
+        self.advance(stop, update_time)
         if stop:
-            update_time = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
-            self.update_timing(update_time)
             self.problem.final()
-        else:
-            self.update_timing(update_time)
         # return trajectories and signals
         trajectories, signals, curr_state = {}, {}, {}
         # determine remaining motion time
         # depends on problem type, for fixedT motion_time is always = horizon_time
         # local import required to avoid circular dependency
         from ..problems.point2point import FixedTPoint2point, FreeTPoint2point
-        if isinstance(self.problem, FixedTPoint2point):
-            motion_time = self.problem.options['horizon_time']
-        elif isinstance(self.problem, FreeTPoint2point):
-            motion_time = self.problem.father.get_variables(self.problem, 'T')[0][0]
+        # the agents of a distributed problem share their horizon
+        problem = self.problem.problems[0] if hasattr(self.problem, 'problems') else self.problem
+        motion_time = None
+        if isinstance(problem, FixedTPoint2point):
+            motion_time = problem.options['horizon_time']
+        elif isinstance(problem, FreeTPoint2point):
+            motion_time = problem.father.get_variables(problem, 'T')[0][0]
 
         if len(self.problem.vehicles) == 1:
             return self.problem.vehicles[0].signals['state'][:,-1], self.current_time, motion_time, stop, self.problem.vehicles[0].traj_storage, self.problem.vehicles[0].signals
@@ -87,15 +82,24 @@ class Simulator:
                 curr_state[str(vehicle)] = vehicle.signals['state'][:,-1]
         return curr_state, self.current_time, motion_time, stop, trajectories, signals
 
-    def update(self):
+    def update(self, update_time=None):
+        update_time = self.update_time if update_time is None else update_time
         # update deployer
         self.deployer.update(self.current_time)
         # simulate problem
-        self.problem.simulate(self.current_time, self.update_time, self.sample_time)
+        self.problem.simulate(self.current_time, update_time, self.sample_time)
         # check stop condition
-        stop = self.problem.stop_criterium(self.current_time, self.update_time)
+        stop = self.problem.stop_criterium(self.current_time, update_time)
         return stop
 
+    def advance(self, stop, update_time):
+        # the step is cut short when the plan is exhausted
+        elapsed = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
+        if stop or update_time - elapsed > 0.5*self.sample_time:
+            self.update_timing(max(0, elapsed))
+        else:
+            self.update_timing(update_time)
+
     def reset_timing(self):
         self.current_time = 0.
         self.time = np.r_[0.]
-- 
2.43.0


From a6f565d621bfa8a13357e553b2732adb87c2d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 24/89] fix: let the agents see where the obstacles are when
 they start a task

The environments of the agents are copies, which stand still while
another problem with the same environment is simulated.
---
 omgtools/problems/distributedproblem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omgtools/problems/distributedproblem.py b/omgtools/problems/distributedproblem.py
index aa00f5a..2aad911 100644
--- a/omgtools/problems/distributedproblem.py
+++ b/omgtools/problems/distributedproblem.py
@@ -187,6 +187,10 @@ class DistributedProblem(Problem):
 
     def initialize(self, current_time):
         for problem in self.problems:
+            # the agents' environments stood still while another problem was solved
+            for obstacle, obst in zip(problem.environment.obstacles, self.environment.obstacles):
+                if obstacle.signals['time'][-1] < obst.signals['time'][-1]:
+                    obstacle.signals = {key: np.copy(signal) for key, signal in obst.signals.items()}
             problem.initialize(current_time)
 
     def store(self, current_time, update_time, sample_time):
-- 
2.43.0


From 1e1b6eed7a2617bd6010c0282e719b9486c767c1 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:17:56 +0000
Subject: [PATCH 25/89] fix: return the result of an update in the exported
 controllers

---
 omgtools/export/point2point/Point2Point.cpp                 | 2 +-
 omgtools/export/point2point/admm/ADMMPoint2Point.cpp        | 5 ++++-
 .../point2point/admm/formation/FormationPoint2Point.cpp     | 6 +++---
 omgtools/export/point2point/admm/rendezvous/RendezVous.cpp  | 6 +++---
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/omgtools/export/point2point/Point2Point.cpp b/omgtools/export/point2point/Point2Point.cpp
index 3f39a42..d448c62 100755
--- a/omgtools/export/point2point/Point2Point.cpp
+++ b/omgtools/export/point2point/Point2Point.cpp
@@ -118,7 +118,7 @@ void Point2Point::recover(){
 
 bool Point2Point::update(vector<double>& condition0, vector<double>& conditionT,
     vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory, vector<obstacle_t>& obstacles){
-    update(condition0, conditionT, state_trajectory, input_trajectory, obstacles, 0);
+    return update(condition0, conditionT, state_trajectory, input_trajectory, obstacles, 0);
 }
 
 bool Point2Point::update(vector<double>& condition0, vector<double>& conditionT,
diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index dd5e03f..72f65be 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -108,7 +108,7 @@ bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& condit
     vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory,
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles){
-    update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, 0);
+    return update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, 0);
 }
 
 bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& conditionT,
@@ -303,6 +303,7 @@ bool ADMMPoint2Point::solveUpdz(){
         {horizon_time}, {rho}, {}}, res);
     variables_admm["z_i"] = res.at(0);
     variables_admm["z_ij"] = res.at(1);
+    return true;
 }
 
 bool ADMMPoint2Point::solveUpdl(){
@@ -314,6 +315,7 @@ bool ADMMPoint2Point::solveUpdl(){
         variables_admm["x_j"], {rho}}, res);
     variables_admm["l_i"] = res.at(0);
     variables_admm["l_ij"] = res.at(1);
+    return true;
 }
 
 bool ADMMPoint2Point::computeResiduals(){
@@ -326,6 +328,7 @@ bool ADMMPoint2Point::computeResiduals(){
     residuals[0] = res.at(0).at(0);
     residuals[1] = res.at(1).at(0);
     residuals[2] = res.at(2).at(0);
+    return true;
 }
 
 void ADMMPoint2Point::initVariablesADMM(){
diff --git a/omgtools/export/point2point/admm/formation/FormationPoint2Point.cpp b/omgtools/export/point2point/admm/formation/FormationPoint2Point.cpp
index 11f5b69..2e36aba 100755
--- a/omgtools/export/point2point/admm/formation/FormationPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/formation/FormationPoint2Point.cpp
@@ -52,7 +52,7 @@ bool FormationPoint2Point::update1(vector<double>& condition0, vector<double>& c
     vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory,
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles, vector<double>& rel_pos_c){
-    update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, rel_pos_c, 0);
+    return update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, rel_pos_c, 0);
 }
 
 bool FormationPoint2Point::update1(vector<double>& condition0, vector<double>& conditionT,
@@ -60,14 +60,14 @@ bool FormationPoint2Point::update1(vector<double>& condition0, vector<double>& c
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles, vector<double>& rel_pos_c, int predict_shift){
     this->rel_pos_c = rel_pos_c;
-    ADMMPoint2Point::update1(condition0, conditionT, state_trajectory, input_trajectory,
+    return ADMMPoint2Point::update1(condition0, conditionT, state_trajectory, input_trajectory,
         x_var, z_ji_var, l_ji_var, obstacles, predict_shift);
 }
 
 bool FormationPoint2Point::update2(vector<vector<double>>& x_j_var,
     vector<vector<double>>& z_ij_var, vector<vector<double>>& l_ij_var,
     vector<double>& residuals){
-    ADMMPoint2Point::update2(x_j_var, z_ij_var, l_ij_var, residuals);
+    return ADMMPoint2Point::update2(x_j_var, z_ij_var, l_ij_var, residuals);
 }
 
 void FormationPoint2Point::fillParameterDict(vector<obstacle_t>& obstacles, map<string, map<string, vector<double>>>& par_dict){
diff --git a/omgtools/export/point2point/admm/rendezvous/RendezVous.cpp b/omgtools/export/point2point/admm/rendezvous/RendezVous.cpp
index 5393a6a..89af092 100755
--- a/omgtools/export/point2point/admm/rendezvous/RendezVous.cpp
+++ b/omgtools/export/point2point/admm/rendezvous/RendezVous.cpp
@@ -52,7 +52,7 @@ bool RendezVous::update1(vector<double>& condition0, vector<double>& conditionT,
     vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory,
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles, vector<double>& rel_pos_c){
-    update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, rel_pos_c, 0);
+    return update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, rel_pos_c, 0);
 }
 
 bool RendezVous::update1(vector<double>& condition0, vector<double>& conditionT,
@@ -60,14 +60,14 @@ bool RendezVous::update1(vector<double>& condition0, vector<double>& conditionT,
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles, vector<double>& rel_pos_c, int predict_shift){
     this->rel_pos_c = rel_pos_c;
-    ADMMPoint2Point::update1(condition0, conditionT, state_trajectory, input_trajectory,
+    return ADMMPoint2Point::update1(condition0, conditionT, state_trajectory, input_trajectory,
         x_var, z_ji_var, l_ji_var, obstacles, predict_shift);
 }
 
 bool RendezVous::update2(vector<vector<double>>& x_j_var,
     vector<vector<double>>& z_ij_var, vector<vector<double>>& l_ij_var,
     vector<double>& residuals){
-    ADMMPoint2Point::update2(x_j_var, z_ij_var, l_ij_var, residuals);
+    return ADMMPoint2Point::update2(x_j_var, z_ij_var, l_ij_var, residuals);
 }
 
 void RendezVous::fillParameterDict(vector<obstacle_t>& obstacles, map<string, map<string, vector<double>>>& par_dict){
-- 
2.43.0


From bf04fce6a8ba150dedefb0d35099ce493fda067d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:17:57 +0000
Subject: [PATCH 26/89] fix: count the samples of the exported controllers
 without truncation

---
 omgtools/export/point2point/Point2Point.cpp         | 13 +++++++------
 .../export/point2point/admm/ADMMPoint2Point.cpp     |  2 +-
 omgtools/export/vehicles/Vehicle.cpp                | 13 +++++++++----
 omgtools/export/vehicles/Vehicle.hpp                |  1 +
 4 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/omgtools/export/point2point/Point2Point.cpp b/omgtools/export/point2point/Point2Point.cpp
index d448c62..e2bbd93 100755
--- a/omgtools/export/point2point/Point2Point.cpp
+++ b/omgtools/export/point2point/Point2Point.cpp
@@ -31,18 +31,19 @@ namespace omg{
 Point2Point::Point2Point(Vehicle* vehicle,
     double update_time, double sample_time, double horizon_time, int trajectory_length, bool initialize):
 parameters(N_PAR), variables(N_VAR), lbg(LBG_DEF), ubg(UBG_DEF), _recover(false) {
-    if (trajectory_length > int(horizon_time/sample_time)){
+    int update_samples = Vehicle::countSamples(update_time, sample_time);
+    if (trajectory_length > Vehicle::countSamples(horizon_time, sample_time)){
         cerr << "trajectory_length > (horizon_time/sample_time)!" << endl;
     }
-    if (trajectory_length > int(update_time/sample_time)){
+    if (trajectory_length > update_samples){
         time.resize(trajectory_length+1);
         state_trajectory.resize(trajectory_length+1, vector<double>(vehicle->getNState()));
         input_trajectory.resize(trajectory_length+1, vector<double>(vehicle->getNInput()));
     }
     else {
-        time.resize(int(update_time/sample_time)+1);
-        state_trajectory.resize(int(update_time/sample_time)+1, vector<double>(vehicle->getNState()));
-        input_trajectory.resize(int(update_time/sample_time)+1, vector<double>(vehicle->getNInput()));
+        time.resize(update_samples+1);
+        state_trajectory.resize(update_samples+1, vector<double>(vehicle->getNState()));
+        input_trajectory.resize(update_samples+1, vector<double>(vehicle->getNInput()));
     }
     this->vehicle = vehicle;
     this->update_time = update_time;
@@ -59,7 +60,7 @@ parameters(N_PAR), variables(N_VAR), lbg(LBG_DEF), ubg(UBG_DEF), _recover(false)
 
 Point2Point::Point2Point(Vehicle* vehicle,
     double update_time, double sample_time, double horizon_time):
-Point2Point(vehicle, update_time, sample_time, horizon_time, int(update_time/sample_time), true){
+Point2Point(vehicle, update_time, sample_time, horizon_time, Vehicle::countSamples(update_time, sample_time), true){
 }
 
 Point2Point::Point2Point(Vehicle* vehicle,
diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index 72f65be..f72ad35 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -50,7 +50,7 @@ residuals(3) {
 
 ADMMPoint2Point::ADMMPoint2Point(Vehicle* vehicle,
     double update_time, double sample_time, double horizon_time):
-ADMMPoint2Point(vehicle, update_time, sample_time, horizon_time, int(update_time/sample_time), INITITER, RHO){
+ADMMPoint2Point(vehicle, update_time, sample_time, horizon_time, Vehicle::countSamples(update_time, sample_time), INITITER, RHO){
 }
 
 ADMMPoint2Point::ADMMPoint2Point(Vehicle* vehicle,
diff --git a/omgtools/export/vehicles/Vehicle.cpp b/omgtools/export/vehicles/Vehicle.cpp
index 65b7226..d356b6b 100755
--- a/omgtools/export/vehicles/Vehicle.cpp
+++ b/omgtools/export/vehicles/Vehicle.cpp
@@ -48,6 +48,11 @@ Vehicle::Vehicle(int n_st, int n_in, int n_spl, int degree):Vehicle(n_st, n_in,
 
 }
 
+int Vehicle::countSamples(double time, double sample_time){
+    // time/sample_time can be just below the intended integer (eg. 0.3/0.1)
+    return int(floor(time/sample_time + 1.e-6));
+}
+
 void Vehicle::getPrediction(vector<double>& state, vector<double>& input){
     state = this->predicted_state;
     input = this->predicted_input;
@@ -61,14 +66,14 @@ void Vehicle::setPrediction(vector<double>& state, vector<double>& input){
 void Vehicle::predict(vector<double>& state0, vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory, double predict_time, double sample_time, int predict_shift)
 {
     if (ideal_prediction){
-        vector<double> stateT = state_trajectory[int(predict_time/sample_time)+predict_shift];
-        vector<double> inputT = input_trajectory[int(predict_time/sample_time)+predict_shift];
+        vector<double> stateT = state_trajectory[countSamples(predict_time, sample_time)+predict_shift];
+        vector<double> inputT = input_trajectory[countSamples(predict_time, sample_time)+predict_shift];
         setPrediction(stateT, inputT);
     } else if (provide_prediction){
-        vector<double> inputT = input_trajectory[int(predict_time/sample_time)+predict_shift];
+        vector<double> inputT = input_trajectory[countSamples(predict_time, sample_time)+predict_shift];
         setPrediction(state0, inputT);
     } else {
-        int steps = int(predict_time/sample_time);
+        int steps = countSamples(predict_time, sample_time);
         vector<vector<double>> input(steps+1, vector<double>(input_trajectory[0].size()));
         for (int k=0; k<steps+1; k++){
             input[k] = input_trajectory[k+predict_shift];
diff --git a/omgtools/export/vehicles/Vehicle.hpp b/omgtools/export/vehicles/Vehicle.hpp
index 1ae3497..b68f6ea 100755
--- a/omgtools/export/vehicles/Vehicle.hpp
+++ b/omgtools/export/vehicles/Vehicle.hpp
@@ -70,6 +70,7 @@ class Vehicle{
         void setKnotHorizon(double horizon_time);
         void setIdealPrediction(bool ideal_prediction);
         void setProvidePrediction(bool provide_prediction);
+        static int countSamples(double time, double sample_time);
         int getNSplines();
         int getNState();
         int getNInput();
-- 
2.43.0


From 07bb2f0016c1dd07b48fdb8fa0593ea31d5c3731 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:17:57 +0000
Subject: [PATCH 27/89] fix: integrate the exported prediction from one sample
 to the next

---
 omgtools/export/vehicles/Vehicle.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/omgtools/export/vehicles/Vehicle.cpp b/omgtools/export/vehicles/Vehicle.cpp
index d356b6b..2d14ed1 100755
--- a/omgtools/export/vehicles/Vehicle.cpp
+++ b/omgtools/export/vehicles/Vehicle.cpp
@@ -91,21 +91,25 @@ void Vehicle::integrate(vector<double>& state0, vector<vector<double>>& input, v
     vector<double> k3(n_st);
     vector<double> k4(n_st);
     vector<double> st(n_st);
+    vector<double> input_mid(n_in);
     for (int j=0; j<n_st; j++){
         stateT[j] = state0[j];
     }
     for (int i=0; i<steps; i++){
-        this->ode(state0, input[i], k1);
+        for (int j=0; j<n_in; j++){
+            input_mid[j] = 0.5*(input[i][j] + input[i+1][j]);
+        }
+        this->ode(stateT, input[i], k1);
         for (int j=0; j<n_st; j++){
-            st[j] = state0[j] + 0.5*sample_time*k1[j];
+            st[j] = stateT[j] + 0.5*sample_time*k1[j];
         }
-        this->ode(st, input[i], k2);
+        this->ode(st, input_mid, k2);
         for (int j=0; j<n_st; j++){
-            st[j] = state0[j] + 0.5*sample_time*k2[j];
+            st[j] = stateT[j] + 0.5*sample_time*k2[j];
         }
-        this->ode(st, input[i], k3);
+        this->ode(st, input_mid, k3);
         for (int j=0; j<n_st; j++){
-            st[j] = state0[j] + sample_time*k3[j];
+            st[j] = stateT[j] + sample_time*k3[j];
         }
         this->ode(st, input[i+1], k4);
         for (int j=0; j<n_st; j++){
-- 
2.43.0


From 2cafc1164496c2c4b81cda67f8e2739280546c33 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:17:57 +0000
Subject: [PATCH 28/89] fix: shift the exported plan over every knot that was
 passed

---
 omgtools/export/export.py                         |  6 +++---
 omgtools/export/export_admm.py                    |  6 +++---
 omgtools/export/point2point/Point2Point.cpp       | 15 +++++++++++++--
 omgtools/export/point2point/Point2Point.hpp       |  2 ++
 .../export/point2point/admm/ADMMPoint2Point.cpp   |  4 ++--
 5 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index 3968452..85be7e6 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -407,9 +407,9 @@ class Export(object):
         code, cnt = '', 0
         tf_len = len(problem.vehicles[0].basis)
         if point2point.__class__.__name__ == 'FixedTPoint2point':
-            code += '\tint interval_prev = (int)(round((current_time_prev*(vehicle->getKnotIntervals())/horizon_time)*1.e6)/1.e6);\n'
-            code += '\tint interval_now = (int)(round((current_time*(vehicle->getKnotIntervals())/horizon_time)*1.e6)/1.e6);\n'
-            code += '\tif(interval_now > interval_prev){\n'
+            code += '\tint interval_prev = getKnotInterval(current_time_prev);\n'
+            code += '\tint interval_now = getKnotInterval(current_time);\n'
+            code += '\tfor(; interval_prev < interval_now; interval_prev++){\n'
             code += ('\t\tvector<double> spline_tf(' + str(len(problem.vehicles[0].basis)) + ');\n')
             for label, child in father.children.items():
                 for name, var in child._variables.items():
diff --git a/omgtools/export/export_admm.py b/omgtools/export/export_admm.py
index 6a5f78e..4ad8b22 100755
--- a/omgtools/export/export_admm.py
+++ b/omgtools/export/export_admm.py
@@ -159,9 +159,9 @@ class ExportADMM(Export):
 
     def _create_transformSharedSplines(self, father, problem, point2point):
         code = ''
-        code += '\tint interval_prev = (int)(round((current_time_prev*(vehicle->getKnotIntervals())/horizon_time)*1.e6)/1.e6);\n'
-        code += '\tint interval_now = (int)(round((current_time*(vehicle->getKnotIntervals())/horizon_time)*1.e6)/1.e6);\n'
-        code += '\tif(interval_now > interval_prev){\n'
+        code += '\tint interval_prev = getKnotInterval(current_time_prev);\n'
+        code += '\tint interval_now = getKnotInterval(current_time);\n'
+        code += '\tfor(; interval_prev < interval_now; interval_prev++){\n'
         for var in ['x_i', 'z_i', 'l_i', 'z_ji', 'l_ji', 'z_ij', 'l_ij']:
             code += '\t\tvector<double> ' + var + '_tf(variables_admm["' + var + '"]);\n'
         cnt = 0
diff --git a/omgtools/export/point2point/Point2Point.cpp b/omgtools/export/point2point/Point2Point.cpp
index e2bbd93..30923c9 100755
--- a/omgtools/export/point2point/Point2Point.cpp
+++ b/omgtools/export/point2point/Point2Point.cpp
@@ -266,7 +266,7 @@ void Point2Point::fillParameterDict(vector<obstacle_t>& obstacles, map<string, m
     vehicle->setParameters(par_dict_veh);
     par_dict[VEHICLELBL] = par_dict_veh;
     if (!freeT){
-        par_dict[P2PLBL]["t"] = {fmod(round(current_time*1000.)/1000., horizon_time/(vehicle->getKnotIntervals()))};
+        par_dict[P2PLBL]["t"] = {getTimeSinceKnot(current_time)};
         par_dict[P2PLBL]["T"] = {horizon_time};
     } else{
         par_dict[P2PLBL]["t"] = {0.0};
@@ -298,7 +298,7 @@ void Point2Point::retrieveTrajectories(vector<vector<double>>& spline_coeffs){
     vector<double> time(this->time);
     if (!freeT){
         for (int k=0; k<time.size(); k++){
-            time[k] += fmod(round(current_time*1000.)/1000., horizon_time/vehicle->getKnotIntervals());
+            time[k] += getTimeSinceKnot(current_time);
         }
     }
     vehicle->splines2State(spline_coeffs, time, state_trajectory);
@@ -321,6 +321,17 @@ void Point2Point::updateBounds(double current_time, vector<obstacle_t>& obstacle
 @updateBounds@
 }
 
+int Point2Point::getKnotInterval(double time){
+    return (int)(round((time*(vehicle->getKnotIntervals())/horizon_time)*1.e6)/1.e6);
+}
+
+double Point2Point::getTimeSinceKnot(double time){
+    // consistent with getKnotInterval: not computed with fmod, which for
+    // example lets 2.4 mod 0.8 be (nearly) 0.8
+    double time_since_knot = time - getKnotInterval(time)*horizon_time/vehicle->getKnotIntervals();
+    return max(0., round(time_since_knot*1.e6)/1.e6);
+}
+
 void Point2Point::transformSplines(double current_time, double current_time_prev){
 @transformSplines@
 }
diff --git a/omgtools/export/point2point/Point2Point.hpp b/omgtools/export/point2point/Point2Point.hpp
index 9140c6d..fe43289 100755
--- a/omgtools/export/point2point/Point2Point.hpp
+++ b/omgtools/export/point2point/Point2Point.hpp
@@ -85,6 +85,8 @@ class Point2Point{
         void getVariableVector(std::vector<double>&, std::map<std::string, std::map<std::string, std::vector<double>>>&);
         void getVariableDict(std::vector<double>&, std::map<std::string, std::map<std::string, std::vector<double>>>&);
         void transformSplines(double, double);
+        int getKnotInterval(double);
+        double getTimeSinceKnot(double);
 
         virtual void generateProblem();
         virtual void fillParameterDict(std::vector<obstacle_t>&, std::map<std::string, std::map<std::string, std::vector<double>>>&);
diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index f72ad35..518c514 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -299,7 +299,7 @@ bool ADMMPoint2Point::solveUpdz(){
     vector<vector<double>> res;
     updz_problem({variables_admm["x_i"], variables_admm["l_i"],
         variables_admm["l_ij"], variables_admm["x_j"],
-        {fmod(round(current_time*1000.)/1000., horizon_time/(vehicle->getKnotIntervals()))},
+        {getTimeSinceKnot(current_time)},
         {horizon_time}, {rho}, {}}, res);
     variables_admm["z_i"] = res.at(0);
     variables_admm["z_ij"] = res.at(1);
@@ -323,7 +323,7 @@ bool ADMMPoint2Point::computeResiduals(){
     get_residuals({variables_admm["x_i"], variables_admm["z_i"],
         variables_admm["z_i_p"], variables_admm["z_ij"], variables_admm["z_ij_p"],
         variables_admm["x_j"],
-        {fmod(round(current_time*1000.)/1000., horizon_time/(vehicle->getKnotIntervals()))},
+        {getTimeSinceKnot(current_time)},
         {horizon_time}, {rho}}, res);
     residuals[0] = res.at(0).at(0);
     residuals[1] = res.at(1).at(0);
-- 
2.43.0


From 77d05564783bd41da157f026a3ab23d6db289107 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:18:34 +0000
Subject: [PATCH 29/89] fix: let the exported agents update z at the time of
 their plans

---
 omgtools/export/point2point/admm/ADMMPoint2Point.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index 518c514..0731a2f 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -299,7 +299,7 @@ bool ADMMPoint2Point::solveUpdz(){
     vector<vector<double>> res;
     updz_problem({variables_admm["x_i"], variables_admm["l_i"],
         variables_admm["l_ij"], variables_admm["x_j"],
-        {getTimeSinceKnot(current_time)},
+        {getTimeSinceKnot(current_time_prev)}, // update1 already advanced current_time
         {horizon_time}, {rho}, {}}, res);
     variables_admm["z_i"] = res.at(0);
     variables_admm["z_ij"] = res.at(1);
@@ -308,7 +308,7 @@ bool ADMMPoint2Point::solveUpdz(){
 
 bool ADMMPoint2Point::solveUpdl(){
     variables_admm["l_i_p"] = variables_admm["l_i"];
-    variables_admm["l_ij_p"] = variables_admm["l_ij_p"];
+    variables_admm["l_ij_p"] = variables_admm["l_ij"];
     vector<vector<double>> res;
     updl_problem({variables_admm["x_i"], variables_admm["z_i"],
         variables_admm["z_ij"], variables_admm["l_i"], variables_admm["l_ij"],
@@ -323,7 +323,7 @@ bool ADMMPoint2Point::computeResiduals(){
     get_residuals({variables_admm["x_i"], variables_admm["z_i"],
         variables_admm["z_i_p"], variables_admm["z_ij"], variables_admm["z_ij_p"],
         variables_admm["x_j"],
-        {getTimeSinceKnot(current_time)},
+        {getTimeSinceKnot(current_time_prev)}, // update1 already advanced current_time
         {horizon_time}, {rho}}, res);
     residuals[0] = res.at(0).at(0);
     residuals[1] = res.at(1).at(0);
-- 
2.43.0


From ac04ecba3b9d41dd465403793d181602fd5e298c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:18:34 +0000
Subject: [PATCH 30/89] fix: write no more samples than asked for in the
 exported agents

---
 omgtools/export/point2point/admm/ADMMPoint2Point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index 0731a2f..0e5b8f6 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -190,8 +190,8 @@ bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& condit
     tmeas = double(end-begin)/CLOCKS_PER_SEC;
     cout << "time in extractData: " << tmeas << "s" << endl;
     #endif
-    // ref state and input for system are one sample shorter!!
-    for (int k=0; k<time.size()-1; k++){
+    // write output state and input trajectory
+    for (int k=0; k<trajectory_length; k++){
         for (int j=0; j<state_trajectory[0].size(); j++){
             state_trajectory[k][j] = this->state_trajectory[k][j];
         }
-- 
2.43.0


From 02a8b60738deb4108854fd0f0c865755dc0279de Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:18:34 +0000
Subject: [PATCH 31/89] fix: hold the end of the exported plan instead of
 jumping to zero

---
 omgtools/export/vehicles/Vehicle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/export/vehicles/Vehicle.cpp b/omgtools/export/vehicles/Vehicle.cpp
index 2d14ed1..98a0e67 100755
--- a/omgtools/export/vehicles/Vehicle.cpp
+++ b/omgtools/export/vehicles/Vehicle.cpp
@@ -128,7 +128,8 @@ void Vehicle::sampleSplines(vector<vector<double>>& spline_coeffs, vector<double
                     coeffs[l] += (1.0/pow(horizon_time, derivative))*this->derivative_T[derivative][l][m]*spline_coeffs[i][m];
                 }
             }
-            spline_sampled[k][i] = evalSpline(time[k]/horizon_time, knots, coeffs, this->degree - derivative);
+            // the splines are defined up to the horizon: stay at their end afterwards
+            spline_sampled[k][i] = evalSpline(fmin(time[k]/horizon_time, 1.0), knots, coeffs, this->degree - derivative);
         }
     }
 }
-- 
2.43.0


From 5cbf572dce2f8d60d677cb4725d0762950749d7b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 32/89] fix: let a retried update of the exported controllers
 know how late it is

---
 omgtools/export/point2point/Point2Point.cpp          |  6 +++++-
 omgtools/export/point2point/Point2Point.hpp          |  1 +
 omgtools/export/point2point/admm/ADMMPoint2Point.cpp |  5 ++++-
 omgtools/export/vehicles/Vehicle.cpp                 | 12 +++++++-----
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/omgtools/export/point2point/Point2Point.cpp b/omgtools/export/point2point/Point2Point.cpp
index 30923c9..7c708ae 100755
--- a/omgtools/export/point2point/Point2Point.cpp
+++ b/omgtools/export/point2point/Point2Point.cpp
@@ -110,6 +110,7 @@ void Point2Point::reset(){
 void Point2Point::resetTime(){
     current_time = 0.0;
     current_time_prev = 0.0;
+    plan_shift = 0;
 }
 
 void Point2Point::recover(){
@@ -132,6 +133,8 @@ bool Point2Point::update(vector<double>& condition0, vector<double>& conditionT,
     #endif
     // correct current_time with predict_shift:
     current_time += predict_shift*sample_time;
+    // failed updates moved the current time further away from the start of the plan
+    plan_shift += predict_shift;
     // transform splines: good init guess for this update
     #ifdef DEBUG
     begin = clock();
@@ -159,7 +162,7 @@ bool Point2Point::update(vector<double>& condition0, vector<double>& conditionT,
     if (fabs(current_time)<=1.e-6){
         vehicle->setInitialConditions(condition0);
     } else{
-        vehicle->predict(condition0, this->state_trajectory, this->input_trajectory, update_time, sample_time, predict_shift);
+        vehicle->predict(condition0, this->state_trajectory, this->input_trajectory, update_time, sample_time, plan_shift);
     }
     #ifdef DEBUG
     end = clock();
@@ -202,6 +205,7 @@ bool Point2Point::update(vector<double>& condition0, vector<double>& conditionT,
     // update current time
     current_time_prev = current_time;
     current_time += update_time;
+    plan_shift = 0;
     return true;
 }
 
diff --git a/omgtools/export/point2point/Point2Point.hpp b/omgtools/export/point2point/Point2Point.hpp
index fe43289..62c4ca7 100755
--- a/omgtools/export/point2point/Point2Point.hpp
+++ b/omgtools/export/point2point/Point2Point.hpp
@@ -59,6 +59,7 @@ class Point2Point{
         double update_time;
         double sample_time;
         int trajectory_length;
+        int plan_shift=0;
         std::map<std::string, casadi::Function> substitutes;
         std::map<std::string, casadi::DM> args, sol;
         std::vector<double> parameters;
diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index 0e5b8f6..defa72f 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -131,6 +131,8 @@ bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& condit
     #endif
     // correct current_time with predict_shift:
     current_time += predict_shift*sample_time;
+    // failed updates moved the current time further away from the start of the plan
+    plan_shift += predict_shift;
     // transform splines: good init guess for this update + required transformation for ADMM updates
     #ifdef DEBUG
     begin = clock();
@@ -159,7 +161,7 @@ bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& condit
     if (fabs(current_time)<=1.e-6){
         vehicle->setInitialConditions(condition0);
     } else{
-        vehicle->predict(condition0, this->state_trajectory, this->input_trajectory, update_time, sample_time, predict_shift);
+        vehicle->predict(condition0, this->state_trajectory, this->input_trajectory, update_time, sample_time, plan_shift);
     }
     #ifdef DEBUG
     end = clock();
@@ -206,6 +208,7 @@ bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& condit
         current_time_prev = current_time;
         current_time += update_time;
     }
+    plan_shift = 0;
     iteration++;
     return true;
 }
diff --git a/omgtools/export/vehicles/Vehicle.cpp b/omgtools/export/vehicles/Vehicle.cpp
index 98a0e67..a254101 100755
--- a/omgtools/export/vehicles/Vehicle.cpp
+++ b/omgtools/export/vehicles/Vehicle.cpp
@@ -18,6 +18,7 @@
 // Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA
 
 #include "Vehicle.hpp"
+#include <algorithm>
 
 using namespace std;
 
@@ -65,18 +66,19 @@ void Vehicle::setPrediction(vector<double>& state, vector<double>& input){
 
 void Vehicle::predict(vector<double>& state0, vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory, double predict_time, double sample_time, int predict_shift)
 {
+    int steps = countSamples(predict_time, sample_time);
+    int last = input_trajectory.size()-1;
     if (ideal_prediction){
-        vector<double> stateT = state_trajectory[countSamples(predict_time, sample_time)+predict_shift];
-        vector<double> inputT = input_trajectory[countSamples(predict_time, sample_time)+predict_shift];
+        vector<double> stateT = state_trajectory[min(steps+predict_shift, last)];
+        vector<double> inputT = input_trajectory[min(steps+predict_shift, last)];
         setPrediction(stateT, inputT);
     } else if (provide_prediction){
-        vector<double> inputT = input_trajectory[countSamples(predict_time, sample_time)+predict_shift];
+        vector<double> inputT = input_trajectory[min(steps+predict_shift, last)];
         setPrediction(state0, inputT);
     } else {
-        int steps = countSamples(predict_time, sample_time);
         vector<vector<double>> input(steps+1, vector<double>(input_trajectory[0].size()));
         for (int k=0; k<steps+1; k++){
-            input[k] = input_trajectory[k+predict_shift];
+            input[k] = input_trajectory[min(k+predict_shift, last)];
         }
         vector<double> stateT(state0.size());
         integrate(state0, input, stateT, sample_time, steps);
-- 
2.43.0


From 2e9af3c26c9a09fec0a180e617444f3bbbfe634f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:18:54 +0000
Subject: [PATCH 33/89] fix: export to any directory and for any namespace

---
 omgtools/export/export.py      | 15 ++++++++-------
 omgtools/export/export_admm.py | 10 +++++-----
 omgtools/export/export_p2p.py  |  2 +-
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index 85be7e6..2baf929 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -88,17 +88,18 @@ class Export(object):
         if isinstance(file, list):
             return [self.add_label(f) for f in file]
         else:
-            split = file.split('.')
-            file_new = split[-2]+'_'+self.options['namespace']+'.'+split[-1]
-            return file_new
+            root, ext = os.path.splitext(file)
+            return root+'_'+self.options['namespace']+ext
 
     def rmv_label(self, file):
         if isinstance(file, list):
             return [self.rmv_label(f) for f in file]
         else:
-            split = file.split('.')
-            file_new = split[0].split('_')[-2] + '.' + split[-1]
-            return file_new
+            root, ext = os.path.splitext(file)
+            label = '_'+self.options['namespace']
+            if root.endswith(label):
+                root = root[:-len(label)]
+            return root+ext
 
     def change_includes(self, directory):
         src_dir = os.path.join(directory, 'src')
@@ -204,7 +205,7 @@ class Export(object):
             for name, fun in subst.items():
                 filenames.append('subst_'+name+'.c')
                 fun.generate(filenames[-1])
-                shutil.move(cwd+'/'+filenames[-1], destination+'src/'+filenames[-1])
+                shutil.move(os.path.join(cwd, filenames[-1]), os.path.join(destination, 'src', filenames[-1]))
         return filenames
 
     def get_make_options(self, src_files, probsrc):
diff --git a/omgtools/export/export_admm.py b/omgtools/export/export_admm.py
index 4ad8b22..0bd76cb 100755
--- a/omgtools/export/export_admm.py
+++ b/omgtools/export/export_admm.py
@@ -57,7 +57,7 @@ class ExportADMM(Export):
             for name, fun in subst.items():
                 filenames.append('subst_'+name+'.c')
                 fun.generate(filenames[-1])
-                shutil.move(cwd+'/'+filenames[-1], destination+'src/'+filenames[-1])
+                shutil.move(os.path.join(cwd, filenames[-1]), os.path.join(destination, 'src', filenames[-1]))
         # updx
         obj = father.problem_description['obj']
         con = father.problem_description['con']
@@ -77,10 +77,10 @@ class ExportADMM(Export):
         problem.problem_upd_res.generate('updres.c')
         filenames.extend(['updx.c', 'updz.c', 'updl.c', 'updres.c'])
         # move files
-        shutil.move(cwd+'/updx.c', destination+'src/updx.c')
-        shutil.move(cwd+'/updz.c', destination+'src/updz.c')
-        shutil.move(cwd+'/updl.c', destination+'src/updl.c')
-        shutil.move(cwd+'/updres.c', destination+'src/updres.c')
+        shutil.move(os.path.join(cwd, 'updx.c'), os.path.join(destination, 'src', 'updx.c'))
+        shutil.move(os.path.join(cwd, 'updz.c'), os.path.join(destination, 'src', 'updz.c'))
+        shutil.move(os.path.join(cwd, 'updl.c'), os.path.join(destination, 'src', 'updl.c'))
+        shutil.move(os.path.join(cwd, 'updres.c'), os.path.join(destination, 'src', 'updres.c'))
         return filenames
 
     def create_constants(self, father, problem, point2point):
diff --git a/omgtools/export/export_p2p.py b/omgtools/export/export_p2p.py
index 4dd07a9..1fc0a24 100755
--- a/omgtools/export/export_p2p.py
+++ b/omgtools/export/export_p2p.py
@@ -55,6 +55,6 @@ class ExportP2P(Export):
         solver = nlpsol('solver', 'ipopt', nlp, options)
         solver.generate_dependencies('nlp.c')
         cwd = os.getcwd()
-        shutil.move(cwd+'/nlp.c', destination+'src/nlp.c')
+        shutil.move(os.path.join(cwd, 'nlp.c'), os.path.join(destination, 'src', 'nlp.c'))
         filenames.append('nlp.c')
         return filenames
-- 
2.43.0


From 1645cbb214b100487dc3c693645e111c626067c5 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:19:14 +0000
Subject: [PATCH 34/89] fix: export the agents of every vehicle type and number
 of neighbours

---
 omgtools/export/export_admm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omgtools/export/export_admm.py b/omgtools/export/export_admm.py
index 0bd76cb..7b92927 100755
--- a/omgtools/export/export_admm.py
+++ b/omgtools/export/export_admm.py
@@ -41,8 +41,9 @@ class ExportADMM(Export):
                 self.export(source_dirs, self.options['directory'], src_files, updater.father_updx, updater, updater.problem)
             else:
                 for veh_type, nghb_nr in updaters.items():
-                    for nr, upd in nghb_nr.items():
-                        dest_dir = os.path.join(self.options['directory'], veh_type+'_'+nr+'nghb')
+                    for nr, upds in nghb_nr.items():
+                        upd = upds[0]
+                        dest_dir = os.path.join(self.options['directory'], str(veh_type)+'_'+str(nr)+'nghb')
                         self.export(source_dirs, dest_dir, src_files, upd.father_updx, upd, upd.problem)
 
     def set_default_options(self):
-- 
2.43.0


From 44384731f880a084d496bc96d1130474ede65c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:57 +0000
Subject: [PATCH 35/89] fix: shift every variable of the exported plan by
 itself

---
 omgtools/export/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index 2baf929..6671e8b 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -437,7 +437,7 @@ class Export(object):
                                  str(var.shape[0])+'+i] = spline_tf[i];\n')
                         code += '\t\t\t}\n'
                         code += '\t\t}\n'
-                    cnt += var.size(1)
+                    cnt += var.size(1)*var.size(2)
             code += '\t}\n'
         elif point2point.__class__.__name__ == 'FreeTPoint2point':
             raise Warning('Initialization for free time problem ' +
-- 
2.43.0


From 9cdf03162fe98683b71873291ddcf3ee51e39c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:05 +0000
Subject: [PATCH 36/89] fix: shift the exported plan of a rendezvous

---
 omgtools/export/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index 6671e8b..8ce8905 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -407,7 +407,7 @@ class Export(object):
     def _create_transformSplines(self, father, problem, point2point):
         code, cnt = '', 0
         tf_len = len(problem.vehicles[0].basis)
-        if point2point.__class__.__name__ == 'FixedTPoint2point':
+        if point2point.__class__.__name__ in ('FixedTPoint2point', 'FreeEndPoint2point'):
             code += '\tint interval_prev = getKnotInterval(current_time_prev);\n'
             code += '\tint interval_now = getKnotInterval(current_time);\n'
             code += '\tfor(; interval_prev < interval_now; interval_prev++){\n'
-- 
2.43.0


From 0b979d515117dcd64e774f219d0bee1a3c2a1d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:05 +0000
Subject: [PATCH 37/89] fix: forget the multipliers of the exported agents when
 they start a new task

---
 omgtools/export/point2point/admm/ADMMPoint2Point.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index defa72f..3e8d2b0 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -348,6 +348,11 @@ void ADMMPoint2Point::initVariablesADMM(){
         }
     }
     variables_admm["z_ji"] = z_ji;
+    // forget what is left of a previous task
+    variables_admm["l_i"] = vector<double>(n_shared);
+    for (const char* name : {"l_ij", "l_ji", "z_ij"}){
+        variables_admm[name] = vector<double>(n_nghb*n_shared);
+    }
 }
 
 void ADMMPoint2Point::fillParameterDict(vector<obstacle_t>& obstacles, map<string, map<string, vector<double>>>& par_dict){
-- 
2.43.0


From edd70c15a5742070a88e3b6e4ae4af79d1ddadd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 38/89] fix: shift what the neighbours sent when an exported
 agent retries an update

---
 omgtools/export/point2point/admm/ADMMPoint2Point.cpp | 6 +++++-
 omgtools/export/point2point/admm/ADMMPoint2Point.hpp | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index 3e8d2b0..240e2da 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -88,6 +88,7 @@ void ADMMPoint2Point::reset(){
 void ADMMPoint2Point::resetTime(){
     Point2Point::resetTime();
     iteration = 0;
+    retry = false;
 }
 
 void ADMMPoint2Point::stepBack(){
@@ -116,7 +117,8 @@ bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& condit
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles, int predict_shift){
     // start with own initial guess
-    if (iteration > 0){
+    // when retrying, these variables are already transformed: they are not copied again
+    if (iteration > 0 && !retry){
         for (int i=0; i<n_nghb; i++){
             for (int j=0; j<n_shared; j++){
                 variables_admm["z_ji"][i*n_shared+j] = z_ji_var[i][j];
@@ -180,6 +182,7 @@ bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& condit
     #endif
     if (!check){
         current_time_prev = current_time; // prevent to transform again after infeasible!
+        retry = true;
         return false; // user should retry
     }
     // extra data
@@ -209,6 +212,7 @@ bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& condit
         current_time += update_time;
     }
     plan_shift = 0;
+    retry = false;
     iteration++;
     return true;
 }
diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.hpp b/omgtools/export/point2point/admm/ADMMPoint2Point.hpp
index eb2ab4b..8538221 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.hpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.hpp
@@ -28,6 +28,7 @@ class ADMMPoint2Point: public Point2Point{
     private:
         int iteration=0;
         int init_iter;
+        bool retry=false;
         casadi::Function updx_problem;
         casadi::Function updz_problem;
         casadi::Function updl_problem;
-- 
2.43.0


From eaa464337b5393571d4b903acdca8c86af4bf198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:44 +0000
Subject: [PATCH 39/89] fix: compute the residuals of the agents over the part
 of the plans that lies ahead

---
 omgtools/problems/admm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/admm.py b/omgtools/problems/admm.py
index c1a3f2b..20c6537 100644
--- a/omgtools/problems/admm.py
+++ b/omgtools/problems/admm.py
@@ -286,8 +286,8 @@ class ADMM(DualUpdater):
         x_j = self.q_ij_struct(x_j)
         # transform spline variables: only consider future piece of spline
         tf = lambda cfs, basis: shift_knot1_fwd(cfs, basis, t0)
-        self._transform_spline([x_i, z_i, z_i_p], tf, self.q_i)
-        self._transform_spline([x_j, z_ij, z_ij_p], tf, self.q_ij)
+        x_i, z_i, z_i_p = self._transform_spline([x_i, z_i, z_i_p], tf, self.q_i)
+        x_j, z_ij, z_ij_p = self._transform_spline([x_j, z_ij, z_ij_p], tf, self.q_ij)
         # compute residuals
         pr = mtimes((x_i.cat-z_i.cat).T, (x_i.cat-z_i.cat))
         pr += mtimes((x_j.cat-z_ij.cat).T, (x_j.cat-z_ij.cat))
-- 
2.43.0


From 06c17fc7e64e124e1f8789443f734f3b58fce0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:44 +0000
Subject: [PATCH 40/89] fix: sum the squared residuals of dual decomposition
 once

---
 omgtools/problems/dualdecomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/dualdecomposition.py b/omgtools/problems/dualdecomposition.py
index 7d89d9f..7941951 100644
--- a/omgtools/problems/dualdecomposition.py
+++ b/omgtools/problems/dualdecomposition.py
@@ -294,7 +294,7 @@ class DDProblem(DualProblem):
             t2, pr = updater.get_residuals(current_time)
             t_upd_l = max(t_upd_l, t1)
             t_res = max(t_res, t2)
-            p_res += pr**2
+            p_res += pr  # pr represents a squared value
         p_res = np.sqrt(p_res)
         for updater in self.updaters:
             updater.communicate()
-- 
2.43.0


From 03006ed6aff6f05d483b1298c92cfb3fc5eee999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:10 +0000
Subject: [PATCH 41/89] fix: export the number of neighbors an agent has

---
 omgtools/export/export_admm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/export/export_admm.py b/omgtools/export/export_admm.py
index 7b92927..f8e3f84 100755
--- a/omgtools/export/export_admm.py
+++ b/omgtools/export/export_admm.py
@@ -90,7 +90,7 @@ class ExportADMM(Export):
         constants['double RHO'] = problem.options['rho']
         constants['int INITITER'] = problem.options['init_iter']
         constants['int N_SHARED'] = problem.q_i_struct(0).cat.size(1)
-        constants['int N_NGHB'] = len(problem.fleet.get_neighbors(problem.vehicle))
+        constants['int N_NGHB'] = len(problem.q_ij)
         constants['std::string UPDZPROBLEM'] = '"' + problem.problem_upd_z.name() + '"'
         constants['std::string UPDLPROBLEM'] = '"' + problem.problem_upd_l.name() + '"'
         constants['std::string UPDRESPROBLEM'] = '"' + problem.problem_upd_res.name() + '"'
-- 
2.43.0


From 2f57572ed84d15a9e59d862d40abc29c05a4f190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 42/89] fix: weigh the distance to its target for every vehicle
 of a problem by itself

---
 omgtools/problems/point2point.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 7b13b42..a23136e 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -151,7 +151,7 @@ class FixedTPoint2point(Point2pointProblem):
     def define_terminal_constraints(self):
         objective = 0.
         self.term_con_len = []
-        for vehicle in self.vehicles:
+        for l, vehicle in enumerate(self.vehicles):
             term_con, term_con_der = vehicle.get_terminal_constraints(
                 vehicle.splines[0])
             if ('no_term_con_der' in self.options and self.options['no_term_con_der']):
@@ -160,7 +160,7 @@ class FixedTPoint2point(Point2pointProblem):
             for k, con in enumerate(term_con):
                 spline, condition = con[0], con[1]
                 g = self.define_spline_variable(
-                    'g'+str(k), 1, basis=spline.basis)[0]
+                    'g'+str(l)+str(k), 1, basis=spline.basis)[0]
                 objective += definite_integral(g, self.t0, 1.)
                 self.define_constraint(spline - condition - g, -inf, 0.)
                 self.define_constraint(-spline + condition - g, -inf, 0.)
@@ -263,7 +263,7 @@ class FixedTPoint2point(Point2pointProblem):
         part_objective = 0.
         for v, vehicle in enumerate(self.vehicles):
             for k in range(self.term_con_len[v]):
-                g = self.father.get_variables(self, 'g'+str(k))[0]
+                g = self.father.get_variables(self, 'g'+str(v)+str(k))[0]
                 part_objective += horizon_time*definite_integral(g, t0, t1)
         self.objective += part_objective
 
@@ -272,7 +272,7 @@ class FixedTPoint2point(Point2pointProblem):
             obj = 0.
             for v, vehicle in enumerate(self.vehicles):
                 for k in range(self.term_con_len[v]):
-                    g = self.father.get_variables(self, 'g'+str(k))[0]
+                    g = self.father.get_variables(self, 'g'+str(v)+str(k))[0]
                     obj += self.options['horizon_time']*g.integral()
             return obj
         return self.objective
@@ -422,7 +422,7 @@ class FreeEndPoint2point(FixedTPoint2point):
                 else:
                     spline, condition = con[0], con[1]
                 g = self.define_spline_variable(
-                    'g'+str(k), 1, basis=spline.basis)[0]
+                    'g'+str(l)+str(k), 1, basis=spline.basis)[0]
                 objective += definite_integral(g, self.t0, 1.)
                 self.define_constraint(spline - condition - g, -inf, 0.)
                 self.define_constraint(-spline + condition - g, -inf, 0.)
-- 
2.43.0


From f72bfcf38c5ce3bb6cc6a9344ece59d0a76e8379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 43/89] fix: let a vehicle with a free end position come to
 rest

---
 omgtools/problems/point2point.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index a23136e..5c64ab2 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -427,5 +427,6 @@ class FreeEndPoint2point(FixedTPoint2point):
                 self.define_constraint(spline - condition - g, -inf, 0.)
                 self.define_constraint(-spline + condition - g, -inf, 0.)
             for con in term_con_der:
+                spline, condition = con[0], con[1]
                 self.define_constraint(spline(1.) - condition, 0., 0.)
         self.define_objective(objective)
-- 
2.43.0


From 18e4a15b608557e0c95a86e9cf989297a7c3883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 44/89] fix: keep two vehicles with a central planner in
 formation

---
 omgtools/problems/formation_central.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/formation_central.py b/omgtools/problems/formation_central.py
index 459ac9d..970cc1b 100644
--- a/omgtools/problems/formation_central.py
+++ b/omgtools/problems/formation_central.py
@@ -53,7 +53,7 @@ class FormationPoint2pointCentral(FixedTPoint2point):
             for nghb in self.fleet.get_neighbors(veh):
                 if veh not in couples[nghb] and nghb not in couples[veh]:
                     couples[veh].append(nghb)
-        if self.fleet.interconnection == 'circular':
+        if self.fleet.interconnection == 'circular' and self.fleet.N > 2:
             couples.pop(self.vehicles[-1], None)
             couples.pop(self.vehicles[-2], None)
 
-- 
2.43.0


From e64fc94cdd6750e9e6c2d0caa1d808d1a5ae57b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 45/89] fix: let every couple of a soft formation deviate by
 itself

---
 omgtools/problems/formation_central.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/formation_central.py b/omgtools/problems/formation_central.py
index 970cc1b..2b7934a 100644
--- a/omgtools/problems/formation_central.py
+++ b/omgtools/problems/formation_central.py
@@ -69,7 +69,8 @@ class FormationPoint2pointCentral(FixedTPoint2point):
                 for ind_v, ind_n in zip(ind_veh, ind_nghb):
                     if self.options['soft_formation']:
                         weight = self.options['soft_formation_weight']
-                        eps = self.define_spline_variable('eps_form_'+str(ind_v)+str(ind_n), basis=veh.basis)[0]
+                        eps = self.define_spline_variable(
+                            'eps_form_'+veh.label+'_'+nghb.label+'_'+str(ind_v)+str(ind_n), basis=veh.basis)[0]
                         obj = weight*definite_integral(eps, t/T, 1.)
                         self.define_objective(obj)
                         self.define_constraint(pos_c_veh[ind_v] - pos_c_nghb[ind_n] - eps, -inf, 0.)
-- 
2.43.0


From d66c62623556dd0f91b41bea68aa2ef11598bde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:18 +0000
Subject: [PATCH 46/89] fix: keep all of a round vehicle inside a 3D room

---
 omgtools/vehicles/vehicle.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 39c5169..334dc5b 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -224,12 +224,12 @@ class Vehicle(OptiChild, PlotLayer):
                 lims = room['shape'].get_canvas_limits()
                 room_limits = []
                 room_limits += [lims[k]+room['position'][k] for k in range(self.n_dim)]
-                for chck in checkpoints:
-                    for k in range(3):
-                        self.define_constraint(-
-                                               (chck[k]+position[k]) + room_limits[k][0], -inf, 0.)
-                        self.define_constraint(
-                            (chck[k]+position[k]) - room_limits[k][1], -inf, 0.)
+                shape_limits = shape.get_canvas_limits()
+                for k in range(3):
+                    self.define_constraint(-
+                                           (shape_limits[k][0]+position[k]) + room_limits[k][0], -inf, 0.)
+                    self.define_constraint(
+                        (shape_limits[k][1]+position[k]) - room_limits[k][1], -inf, 0.)
 
     def get_fleet_center(self, splines, rel_pos, substitute=True):
         rel_pos = rel_pos if isinstance(rel_pos,list) else vertsplit(rel_pos)
-- 
2.43.0


From 95a7a3a66e4afc1fe524e0c521fd8ad35e2f61bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:50 +0000
Subject: [PATCH 47/89] fix: let corridors be scaled up by their default

---
 omgtools/environment/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index d951fe7..4514398 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -523,7 +523,7 @@ class CorridorFrame(Frame):
 
         Frame.__init__(self, environment, start_pos, global_path, veh_size, margin, options)
         self.type = 'corridor'  # default value
-        self.scale_up_fine = options['scale_up_fine']
+        self.scale_up_fine = options['scale_up_fine'] if 'scale_up_fine' in options else True
 
         self.create_corridor_base_frame()
 
-- 
2.43.0


From 3eec37727c25d31cef0f1df9fbe3148b850907de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:50 +0000
Subject: [PATCH 48/89] fix: look at the neighboring cell when moving down left
 in the grid

---
 omgtools/problems/globalplanner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index e376a6b..87dd134 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -346,7 +346,7 @@ class Grid(object):
                     accessible = True
             # diagonal down left
             elif (point1[0] - 1 == point2[0] and point1[1] - 1 == point2[1]):
-                if (self.free([point1[0], point1[1] - self.cell_height]) and self.free([point1[0] - 1,point1[1]])):
+                if (self.free([point1[0], point1[1] - 1]) and self.free([point1[0] - 1,point1[1]])):
                     accessible = True
 
         return accessible
-- 
2.43.0


From fdb8244adc12a9e47d4482c34da65ed1ec690a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:50 +0000
Subject: [PATCH 49/89] fix: find the path to a goal that is the last cell left
 to look at

---
 omgtools/problems/globalplanner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index 87dd134..d84bf28 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -198,7 +198,7 @@ class AStarPlanner(GlobalPlanner):
             self.remove_from_open_list(self.current_node)
             self.closed_list.append(self.current_node)
 
-            if not self.open_list:
+            if not self.open_list and self.current_node.pos != self.goal:
                 # current node is not the goal, and open list is empty
                 # check if there are neigbors left which you can reach and are not yet visited
                 neighbors = self.grid.get_neighbors(self.current_node.pos)
-- 
2.43.0


From 0999fd26dd8a59e1c50b88888c641d6efc1f60cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:50 +0000
Subject: [PATCH 50/89] fix: block the cells that are crossed by an obstacle
 without a vertex in them

---
 omgtools/problems/globalplanner.py | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index d84bf28..a519f90 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -478,7 +478,6 @@ class Grid(object):
 
                 occ_cells = []
                 for cell in cells:
-                    blocked = False  # boolean to indicate if cell is blocked
                     # calculate cell vertices
                     cell_vertices = []
                     cell_vertices.append([cell['pos'][0] - 0.5*self.cell_width, cell['pos'][1] - 0.5*self.cell_height])
@@ -486,29 +485,14 @@ class Grid(object):
                     cell_vertices.append([cell['pos'][0] - 0.5*self.cell_width, cell['pos'][1] + 0.5*self.cell_height])
                     cell_vertices.append([cell['pos'][0] + 0.5*self.cell_width, cell['pos'][1] + 0.5*self.cell_height])
                     cell_vertices = np.array(cell_vertices)
-                    # cell center is inside the convex hull of the vertices of an obstacle
-                    if (min(vertices[:,0]) < cell['pos'][0] < max(vertices[:,0]) and
-                        min(vertices[:,1]) < cell['pos'][1] < max(vertices[:,1])):
+                    cell_vertices = np.round(cell_vertices, 4)  # rounded off in the same way as those of the obstacle
+                    # the cell and the (rectangle around the) obstacle overlap, also when
+                    # none of them has a vertex inside the other, e.g. for a wall thinner than a cell
+                    if (min(vertices[:,0]) < max(cell_vertices[:,0]) and
+                        min(cell_vertices[:,0]) < max(vertices[:,0]) and
+                        min(vertices[:,1]) < max(cell_vertices[:,1]) and
+                        min(cell_vertices[:,1]) < max(vertices[:,1])):
                         occ_cells.append(cell)
-                    else:
-                        # check if any of the cell vertices are inside the convex hull of the obstacle vertices
-                        for cell_v in cell_vertices:
-                            if (min(vertices[:,0]) < cell_v[0] < max(vertices[:,0]) and
-                                min(vertices[:,1]) < cell_v[1] < max(vertices[:,1])):
-                                    # avoid adding the same cell multiple times
-                                    if cell not in occ_cells:
-                                        occ_cells.append(cell)
-                                    blocked = True  # cell is blocked, go to next cell
-                                    break
-                        # check if any of the obstacle vertices are inside the convex hull of the cell vertices
-                        if not blocked:  # cell was not detected as blocked yet
-                            for v in vertices:
-                                if (min(cell_vertices[:,0]) < v[0] < max(cell_vertices[:,0]) and
-                                    min(cell_vertices[:,1]) < v[1] < max(cell_vertices[:,1])):
-                                        # avoid adding the same cell multiple times
-                                        if cell not in occ_cells:
-                                            occ_cells.append(cell)
-                                        break  # one obstacle vertex is inside the cell, go to next cell
                 # if cell is found to be occupied, remove it, i.e. don't check again for next obstacle
                 for cell in occ_cells:
                     cells.remove(cell)
-- 
2.43.0


From e718d4b8f120d2d332b647cbb9ff8015b8531189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:19 +0000
Subject: [PATCH 51/89] fix: make no L-shape if the goal is in the first frame

---
 omgtools/problems/schedulerproblem.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 37edcf5..e58700b 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -365,9 +365,11 @@ class SchedulerProblem(Problem):
             # reshape the current frames into an L-shape
             if (self.n_frames == 1 and hasattr(self, 'next_frame')):
                 # looking only one frame ahead
-                frames = self.frames[0].create_l_shape(self.next_frame)
-                self.frames = [frames[0]]
-                self.next_frame = frames[1]
+                if self.next_frame is not None:
+                    # the goal is not yet in the current frame
+                    frames = self.frames[0].create_l_shape(self.next_frame)
+                    self.frames = [frames[0]]
+                    self.next_frame = frames[1]
             else:
                 # reshape all frames until the last one
                 for k in range(len(self.frames)-1):
-- 
2.43.0


From 8afecf833f0ae437dadca778795d0a7215bd74e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:19 +0000
Subject: [PATCH 52/89] fix: let a change of obstacles in any frame lead to a
 new problem

---
 omgtools/problems/schedulerproblem.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index e58700b..c6b6eac 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -187,8 +187,6 @@ class SchedulerProblem(Problem):
                     # the amount of moving obstacles changed, or there is a new obstacle
                     new_problem = True
                     frame.moving_obstacles = moving_obs_in_frame
-                else:
-                    new_problem = False
             if new_problem:
                 # new moving obstacle in one of the frames or obstacle disappeared from frame
                 # np.array converts DM to array
-- 
2.43.0


From d12ff85c562386c825f369e40dd857191e17f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:36 +0000
Subject: [PATCH 53/89] fix: make frames of fixed size that are shifted along
 the path

---
 omgtools/environment/frame.py         | 12 +++++++++---
 omgtools/problems/schedulerproblem.py |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index 4514398..5a2cdce 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -255,13 +255,16 @@ class Frame(object):
             if (not inside_border or any(abs(d) <= self.veh_size*self.margin for d in dist_to_border)):
                 # waypoint was outside of border, or too close to border
                 count = 1
-                while True:  # find waypoint that is far enough from border
+                while count < len(self.waypoints):  # find waypoint that is far enough from border
                     inside_border = point_in_rectangle(self.waypoints[-1-count], self.border['limits'])
                     dist_to_border = self.distance_to_border(self.waypoints[-1-count])
                     if (not inside_border or any(abs(d) <= self.veh_size for d in dist_to_border)):
                         count += 1  # this waypoint was also outside of, or too close to border
                     else:  # found waypoint that is far enough from border
                         break
+                if count == len(self.waypoints):
+                    # none of the other waypoints is, use the start of the frame
+                    self.waypoints.insert(0, list(self.start_pos))
                 # check if waypoint is inside rectangle in x- and/or y-direction
                 inside_border = point_in_rectangle(self.waypoints[-1], self.border['limits'], xy_check=True)
                 # recompute distance from last waypoint to border
@@ -435,7 +438,7 @@ class ShiftFrame(Frame):
             # # move endpoint away from border
             # endpoint = self.move_from_border(points_in_frame[-1], intersection_point, frame,
             #                                                          distance=self.veh_size*self.margin)
-        elif self.endpoint is not None:
+        elif endpoint is not None:
             # vehicle goal is inside frame after shifting
             # shift frame over calculated distance
             xmin, ymin, xmax, ymax = self.move_frame(delta_x, delta_y)
@@ -445,10 +448,14 @@ class ShiftFrame(Frame):
             self.waypoints = points_in_frame
             # append endpoint, that may not be reachable for the moment (too close to border)
             self.waypoints.append(endpoint)
+            self.endpoint = endpoint  # assign end point
             # if vehicle goal is too close to the frame border, move the frame extra in that direction
             self.make_last_waypoint_reachable(method='move_frame')
         else:
             # all waypoints are within the frame, even without shifting, so don't shift the frame
+            # (but keep it inside the environment)
+            self.border = self.make_border(*self.move_frame(0., 0.))
+            self.waypoints = points_in_frame
             self.endpoint = self.global_path[-1]
 
         # finish frame description
@@ -461,7 +468,6 @@ class ShiftFrame(Frame):
         # If generated frame contains goal position, endpoint will be = goal position, since the goal position
         # was added to the global path. This was necessary because otherwise you will end up on a grid point
         # and not necessarily in the goal position (which can lie between grid points, anywhere on the map)
-        self.waypoints.append(endpoint)
 
     def move_frame(self, delta_x, delta_y, start_pos=None):
         # if no start position is given, default position is used
diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index c6b6eac..5f37cf3 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -393,7 +393,7 @@ class SchedulerProblem(Problem):
             start_position = frame.endpoint  # start at end of current frame
             if frame.type == 'shift':
                 next_frame = ShiftFrame(self.environment, start_position, self.frame_size, self.move_limit,
-                                   self.global_path, self.options)
+                                   self.global_path, self.veh_size, self.margin, self.options)
             elif frame.type == 'corridor':
                 next_frame = CorridorFrame(self.environment, start_position, self.global_path,
                                    self.veh_size, self.margin, self.options)
-- 
2.43.0


From 11d8e0e92d6b5b322e178a3db22fe43f883923f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:31 +0000
Subject: [PATCH 54/89] fix: judge the continuity of every pair of spline
 segments by itself and whatever their sign

---
 omgtools/basics/spline_extra.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index dbf2e1e..b21e8e0 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -322,9 +322,10 @@ def concat_splines(segments, segment_times, n_insert=None):
                 # all concatenated splines should be of the same degree
                 raise ValueError(
                     'Splines at index ' + l + 'should have same degree.')
-            if n_insert is None:
-                # check continuity, n_insert can be different for each l
-                n_insert = degree[l]+1  # starts at max value
+            n_ins = n_insert
+            if n_ins is None:
+                # check continuity, n_ins can be different for each l
+                n_ins = degree[l]+1  # starts at max value
                 for d in range(degree[l]+1):
                     # use ipopt default tolerance as a treshold for check (1e-3)
                     # give dimensions, to compare using the same time scale
@@ -335,15 +336,15 @@ def concat_splines(segments, segment_times, n_insert=None):
                     # this seems due to the finite tolerance of ipopt? and due to the fact that these are floating point numbers
                     val1 = segments[k][l].scale(segment_times[k], shift = prev_time).derivative(d)(prev_time)
                     val2 = prev_segment[l].derivative(d)(prev_time)
-                    if ( abs(val1 - val2)*0.5/(val1 + val2) <= 1e-3):
+                    if (abs(val1 - val2) <= 1e-3*max(abs(val1), abs(val2), 1e-3)):
                         # more continuity = insert less knots
-                        n_insert -= 1
+                        n_ins -= 1
                     else:
-                        # spline values were not equal, stop comparing and use latest n_insert value
+                        # spline values were not equal, stop comparing and use latest n_ins value
                         break
             # else:  # keep n_insert from input
 
-            if n_insert!= degree[l]+1:
+            if n_ins!= degree[l]+1:
                 # concatenation requires re-computing the coefficients and/or adding extra knots
                 # here we make the knot vector and coeffs of the total spline (the final output),
                 # but we also compute the knot vector and coeffs for concatenating just two splines,
@@ -352,12 +353,12 @@ def concat_splines(segments, segment_times, n_insert=None):
                 # and afterwards segments 2 and 3, this happens due to the main for loop
 
                 # make total knot vector
-                end_idx = len(knots[l])-(degree[l]+1)+n_insert
+                end_idx = len(knots[l])-(degree[l]+1)+n_ins
                 knots[l] = np.r_[
                     knots[l][:end_idx], s.basis.knots[degree[l]+1:]*segment_times[k] + knots[l][-1]]  # last term = time shift
 
                 # make knot vector for two segments to concatenate
-                end_idx_concat = len(prev_segment[l].basis.knots)-(degree[l]+1)+n_insert
+                end_idx_concat = len(prev_segment[l].basis.knots)-(degree[l]+1)+n_ins
                 knots1 = prev_segment[l].basis.knots[:end_idx_concat]
                 knots2 = s.basis.knots[degree[l]+1:]*segment_times[k] + knots1[-1]  # last term = time shift
                 knots_concat = np.r_[knots1, knots2]
-- 
2.43.0


From ae426fbfd143c7010447c6e604fd217a45a78752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:06 +0000
Subject: [PATCH 55/89] fix: simulate a vehicle with a scheduler over no more
 than its plan

---
 omgtools/problems/schedulerproblem.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 5f37cf3..3de11fc 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -220,9 +220,17 @@ class SchedulerProblem(Problem):
         if not hasattr(self, 'frame_storage'):
             self.frame_storage = []
             self.global_path_storage = []
-        if simulation_time == np.inf:
-            # using simulator.run_once()
-            simulation_time = sum(self.motion_times)
+        # the plan of the local problem may be over before simulation_time is,
+        # e.g. at arrival or when using simulator.run_once()
+        if self.problem_options['freeT']:
+            plan_time = sum([self.local_problem.father.get_variables(self.local_problem, 'T'+str(k),)[0][0]
+                             for k in range(self.local_problem.n_frames)])
+            if plan_time < sample_time:  # nothing was stored
+                return
+        else:
+            plan_time = (self.local_problem.options['horizon_time'] -
+                         self.local_problem.get_time_since_knot(current_time-self.local_problem.start_time))
+        simulation_time = min(simulation_time, plan_time)
         repeat = int(np.round(simulation_time/sample_time, 6))
         # copy frames, to avoid problems when removing elements from self.frames
         frames_to_save = self.frames[:]
-- 
2.43.0


From 0f1b22c21cad84792e856389da1a08d363dad0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:48 +0000
Subject: [PATCH 56/89] fix: combine no more frames than there are on the way
 to the goal

---
 omgtools/problems/schedulerproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 3de11fc..b1fbb02 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -343,7 +343,7 @@ class SchedulerProblem(Problem):
             # check if previously created frame was last one
             if frame and frame.waypoints[-1] == self.goal_state[:2]:  # remove orientation info
                 # reduce amount of frames that are considered and stop loop
-                self.n_frames -= 1
+                self.n_frames = len(self.frames)
                 break
             # set start position for computation of frame that we will add
             if frame:
-- 
2.43.0


From 8b9dcfc5e71dff05905d63394ffeeb417fba9393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:48 +0000
Subject: [PATCH 57/89] fix: keep the goal as waypoint of a frame without other
 waypoints

---
 omgtools/problems/schedulerproblem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index b1fbb02..1135b4e 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -576,6 +576,9 @@ class SchedulerProblem(Problem):
         # the global path that are inside the frame
 
         waypoints = frame.waypoints
+        if len(waypoints) == 1:
+            # only the endpoint of the frame, go there from its start
+            waypoints.insert(0, list(frame.start_pos))
         if frame is self.frames[0]:
             # current frame: change first waypoint to current state,
             # the startpoint of the init guess
-- 
2.43.0


From dff5b0db03a0da0184317e88fe59e524bfd1d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:16 +0000
Subject: [PATCH 58/89] fix: go on to the next frame until one leads to the
 goal

---
 omgtools/problems/schedulerproblem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 1135b4e..057c0ea 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -415,9 +415,10 @@ class SchedulerProblem(Problem):
             return None
 
     def check_frames(self):
-        # if final goal is not in the current frame, compare current distance
+        # if the current frame does not lead to the final goal (the goal may lie inside it, while
+        # the path leaves it first), compare current distance
         # to the local goal with the initial distance
-        if not self.frames[0].point_in_frame(self.goal_state[:2]):
+        if not self.frames[0].endpoint == self.goal_state[:2]:  # remove orientation info
             if (self.n_frames == 1 and hasattr(self, 'next_frame')):
                 if self.next_frame.point_in_frame(self.curr_state[:2], distance=self.veh_size):
                     # only called if self.n_frames = 1,
-- 
2.43.0


From d8dea67caaaf814e9fe7f2aaf48948c46d8d392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:45 +0000
Subject: [PATCH 59/89] fix: reset the guess of every segment when the time to
 solve a problem with frames is over

---
 omgtools/problems/multiframeproblem.py | 29 +++++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/omgtools/problems/multiframeproblem.py b/omgtools/problems/multiframeproblem.py
index 1327b4d..d39dddf 100644
--- a/omgtools/problems/multiframeproblem.py
+++ b/omgtools/problems/multiframeproblem.py
@@ -142,17 +142,30 @@ class MultiFrameProblem(Problem):
         Problem.reinitialize(self)
         for vehicle in self.vehicles:
             # compute initial guess for all spline values
-            subgoals = []
-            for k in range(self.n_frames-1):
-                room1 = self.environment.room[k]
-                room2 = self.environment.room[k+1]
-                # subgoals is given as initial position, center of overlap of regions and overall goal
-                # compute center of overlap region of rooms
-                subgoals.append(compute_rectangle_overlap_center(room1['shape'], room1['position'], room2['shape'], room2['position']))
-            init = vehicle.get_init_spline_value(subgoals = subgoals)
+            init = vehicle.get_init_spline_value(subgoals = self.get_subgoals())
             for k in range(self.n_frames):
                 father.set_variables(init[k], vehicle, 'splines_seg'+str(k))
 
+    def get_subgoals(self):
+        subgoals = []
+        for k in range(self.n_frames-1):
+            room1 = self.environment.room[k]
+            room2 = self.environment.room[k+1]
+            # subgoals is given as initial position, center of overlap of regions and overall goal
+            # compute center of overlap region of rooms
+            subgoals.append(compute_rectangle_overlap_center(room1['shape'], room1['position'], room2['shape'], room2['position']))
+        return subgoals
+
+    def reset_init_guess(self, init_guess=None):
+        if init_guess is None and self.n_frames > 1:
+            # over the subgoals, a guess per spline segment
+            for vehicle in self.vehicles:
+                init = vehicle.get_init_spline_value(subgoals = self.get_subgoals())
+                for k in range(self.n_frames):
+                    self.father.set_variables(init[k], vehicle, 'splines_seg'+str(k))
+        else:
+            Problem.reset_init_guess(self, init_guess)
+
     def store(self, current_time, update_time, sample_time):
         segment_times = []
         # compute total remaining motion time
-- 
2.43.0


From 9bece46ab3fd626da16f636800e3c0542885548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:45 +0000
Subject: [PATCH 60/89] fix: make room for the vehicle around the waypoints of
 a corridor

---
 omgtools/environment/frame.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index 5a2cdce..e02781c 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -574,8 +574,8 @@ class CorridorFrame(Frame):
         # run over all waypoints, starting from the waypoint closest to start_pos
         # first try if endpoint can be inside the frame without obstacles
         point = self.global_path[-1]
-        if not self.point_in_frame(point):
-            # next waypoint is not inside frame,
+        if not self.point_in_frame(point, distance=self.veh_size):
+            # next waypoint is not inside frame (with the vehicle around it),
             # enlarge frame such that it is in there
             # determine which borders to move
 
@@ -595,8 +595,8 @@ class CorridorFrame(Frame):
                     # update limits of frame
                     xmin,ymin,xmax,ymax = self.border['limits']
 
-                    if not self.point_in_frame(point):
-                        # next waypoint is not inside frame,
+                    if not self.point_in_frame(point, distance=self.veh_size):
+                        # next waypoint is not inside frame (with the vehicle around it),
                         # enlarge frame such that it is in there
                         # determine which borders to move
                         if points_in_frame:
-- 
2.43.0


From 471efa77646a2737804b8675b567dd63df3fc52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:27 +0000
Subject: [PATCH 61/89] fix: concatenate spline segments that need no knot in
 between

---
 omgtools/basics/spline_extra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index b21e8e0..b3b94c3 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -360,7 +360,7 @@ def concat_splines(segments, segment_times, n_insert=None):
                 # make knot vector for two segments to concatenate
                 end_idx_concat = len(prev_segment[l].basis.knots)-(degree[l]+1)+n_ins
                 knots1 = prev_segment[l].basis.knots[:end_idx_concat]
-                knots2 = s.basis.knots[degree[l]+1:]*segment_times[k] + knots1[-1]  # last term = time shift
+                knots2 = s.basis.knots[degree[l]+1:]*segment_times[k] + prev_segment[l].basis.knots[-1]  # last term = time shift
                 knots_concat = np.r_[knots1, knots2]
 
                 # make union basis for two segments to concatenate
-- 
2.43.0


From 9684986998bbe4512e59424a59dfc44f4d333ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:02 +0000
Subject: [PATCH 62/89] fix: let a vehicle with a scheduler avoid moving
 obstacles that stand still

---
 omgtools/environment/frame.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index e02781c..8e01b55 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -46,6 +46,13 @@ class Frame(object):
         # e.g. 0.5 then check if obstacle is inside frame on time [s] 0,0.5,1,...
         self.check_moving_obs_ts = options['check_moving_obs_ts'] if 'check_moving_obs_ts' in options else 0.5
 
+    def is_stationary(self, obstacle):
+        # check if obstacle is stationary, this is when:
+        # there is no entry trajectories or there are trajectories but no velocity or
+        # all velocities are 0.
+        return ((not 'trajectories' in obstacle.simulation) or (not 'velocity' in obstacle.simulation['trajectories'])
+                or (all(vel == [0.]*obstacle.n_dim for vel in obstacle.simulation['trajectories']['velocity']['values'])))
+
     def get_stationary_obstacles(self, frame=None):
         if frame is None:
             frame = self
@@ -57,11 +64,7 @@ class Frame(object):
         checkpoints = [[xmin, ymin],[xmin, ymax],[xmax, ymax],[xmax, ymin]]
 
         for obstacle in frame.environment.obstacles:
-            # check if obstacle is stationary, this is when:
-            # there is no entry trajectories or there are trajectories but no velocity or
-            # all velocities are 0.
-            if ((not 'trajectories' in obstacle.simulation) or (not 'velocity' in obstacle.simulation['trajectories'])
-               or (all(vel == [0.]*obstacle.n_dim for vel in obstacle.simulation['trajectories']['velocity']['values']))):
+            if self.is_stationary(obstacle):
                 # we have a stationary obstacle, Circle or Rectangle
                 # now check if frame intersects with the obstacle
 
@@ -124,7 +127,10 @@ class Frame(object):
         for obstacle in self.environment.obstacles:
             # check if obstacle is moving, this is when:
             # not all velocities, saved in signals, are 0
-            if not all(obstacle.signals['velocity'][:,-1] == [0.]*obstacle.n_dim):
+            # an obstacle that does not move now, but that did or that will, is none of the
+            # stationary obstacles and has to be avoided as well
+            if (not all(obstacle.signals['velocity'][:,-1] == [0.]*obstacle.n_dim)
+                or not self.is_stationary(obstacle)):
                 # get obstacle checkpoints
                 if not isinstance(obstacle.shape, Circle):
                     # element [0] gives vertices, not the corresponding radii
-- 
2.43.0


From 1829cab4ecbd6f24a4190ae6a0045851575a329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:29 +0000
Subject: [PATCH 63/89] fix: store the plan of a solver that gave up without
 time left for a frame

---
 omgtools/problems/multiframeproblem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/multiframeproblem.py b/omgtools/problems/multiframeproblem.py
index d39dddf..6fc0890 100644
--- a/omgtools/problems/multiframeproblem.py
+++ b/omgtools/problems/multiframeproblem.py
@@ -170,7 +170,8 @@ class MultiFrameProblem(Problem):
         segment_times = []
         # compute total remaining motion time
         for frame in range(self.n_frames):
-            segment_times.append(self.father.get_variables(self, 'T'+str(frame))[0][0])
+            # a solver that gives up may leave a motion time that is 0 or even below
+            segment_times.append(max(self.father.get_variables(self, 'T'+str(frame))[0][0], 1e-9))
         horizon_time = sum(segment_times)  # total horizon time
         if self.init_time is None:
             rel_current_time = 0.0
-- 
2.43.0


From d788f81ad3af8cf260b0285ff5cb0482ebce0adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:48 +0000
Subject: [PATCH 64/89] fix: leave room for the vehicle around a goal in a
 frame that is not shifted

---
 omgtools/environment/frame.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index 8e01b55..aec8336 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -463,6 +463,8 @@ class ShiftFrame(Frame):
             self.border = self.make_border(*self.move_frame(0., 0.))
             self.waypoints = points_in_frame
             self.endpoint = self.global_path[-1]
+            # if vehicle goal is too close to the frame border, move the frame in that direction
+            self.make_last_waypoint_reachable(method='move_frame')
 
         # finish frame description
         # frame['border'] is already determined
-- 
2.43.0


From 97130e3c4c8fe23fb0c43f820f6c5bb4605faecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:59 +0000
Subject: [PATCH 65/89] fix: know the radius and centre of an arc from the
 start

The radius of a counter-clockwise arc was only known after drawing it, that of
a clockwise arc below z = 0 without a K was too large, and an offset I or J
that is left out put the centre on an axis of the machine.
---
 omgtools/gui/gcode_block.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/omgtools/gui/gcode_block.py b/omgtools/gui/gcode_block.py
index 967437c..306f323 100644
--- a/omgtools/gui/gcode_block.py
+++ b/omgtools/gui/gcode_block.py
@@ -66,7 +66,8 @@ class G02(GCodeBlock):
 
         self.plane = 'XY'  # in which plane is the arc formed
 
-        self.center = [0, 0, 0]  # initialize
+        # an offset that is not given is zero
+        self.center = [self.X0, self.Y0, self.Z0]
         if 'I' in command:
             self.I = command['I']
             self.center[0] = self.X0+self.I
@@ -76,7 +77,7 @@ class G02(GCodeBlock):
         if 'K' in command:
             self.K = command['K']
             self.center[2] = self.Z0+self.K
-        self.radius = distance_between(self.center, [self.X0, self.Y0,self.Z0])
+        self.radius = distance_between(self.center, [self.X0, self.Y0, self.Z0])
 
         # Todo: add check if IJ, IK, or JK present, if not throw error
 
@@ -176,7 +177,8 @@ class G03(GCodeBlock):
 
         self.plane = 'XY'  # in which plane is the arc formed
 
-        self.center = [0, 0, 0]  # initialize
+        # an offset that is not given is zero
+        self.center = [self.X0, self.Y0, self.Z0]
         if 'I' in command:
             self.I = command['I']
             self.center[0] = self.X0+self.I
@@ -187,6 +189,8 @@ class G03(GCodeBlock):
             self.K = command['K']
             self.center[2] = self.Z0+self.K
 
+        self.radius = distance_between(self.center, [self.X0, self.Y0, self.Z0])
+
         # Todo: add check if IJ, IK, or JK present, if not throw error
 
     def get_coordinates(self):
-- 
2.43.0


From 28506560ae56690bb93e4f63666e158168da7b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:59 +0000
Subject: [PATCH 66/89] fix: leave the blocks of a program as they are

---
 omgtools/problems/gcodeschedulerproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index ddf4ee9..07317b6 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -549,7 +549,7 @@ class GCodeSchedulerProblem(Problem):
             # make a single ring segment
             shape = Ring(radius_in = radius_in, radius_out = radius_out,
                          start = start, end = end, direction = direction)
-            pose = block.center
+            pose = list(block.center)
             pose.extend([0.,0.,0.])  # [x,y,z,orientation], ring always has orientation 0
             new_room = [{'shape': shape, 'pose': pose, 'position': pose[:2], 'draw':True,
                         'start': block.start, 'end': block.end, 'number':number}]
-- 
2.43.0


From e3e6f2b3014430a05edfcb8f408fa8083a19e05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:59 +0000
Subject: [PATCH 67/89] fix: read programs with empty lines, divide programs
 that end with a z-movement

---
 omgtools/gui/gcode_reader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index 3583a43..dac465c 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -130,8 +130,8 @@ class GCodeReader(object):
         for line in file_str:
             line = line.strip().decode("utf-8")
             # extract commands
-            if line[0] == '(':
-                # this is a commented line
+            if not line or line[0] == '(':
+                # this is an empty or a commented line
                 pass
             elif line[0] == 'G' or (line[0] == 'N' and (any([code in line for code in self.GCodes]))):
                 self.commands.append(line)
@@ -153,7 +153,9 @@ class GCodeReader(object):
             for line in file_str:
                 line = line.strip().decode("utf-8")
                 # extract commands
-                if line[0] == 'G' or (line[0] == 'N' and 'G' in line):
+                if not line:
+                    pass
+                elif line[0] == 'G' or (line[0] == 'N' and 'G' in line):
                     self.commands.append(line)
 
     def create_blocks(self):
@@ -216,7 +218,8 @@ class GCodeReader(object):
                 blocks = []
                 # add z-block separately
                 GCode_blocks.append([block])
-        GCode_blocks.append(blocks)
+        if blocks:
+            GCode_blocks.append(blocks)
         return GCode_blocks
 
     def get_connections(self):
-- 
2.43.0


From ddf5ffa3a18f2100c968a1df9c2e2fbd8015add9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:59 +0000
Subject: [PATCH 68/89] fix: do not wait for a debugger when a block of G-code
 could not be solved

---
 omgtools/execution/deployer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/omgtools/execution/deployer.py b/omgtools/execution/deployer.py
index 8f2ea9a..2db89fc 100644
--- a/omgtools/execution/deployer.py
+++ b/omgtools/execution/deployer.py
@@ -190,7 +190,6 @@ class Deployer:
             self.problem.no_update = False
         elif not self.problem.local_problem.problem.stats()['return_status'] == 'Solve_Succeeded':
             # problem was not solved well, don't go to next segment
-            import pdb; pdb.set_trace()  # breakpoint f9e5f88a //
             self.problem.no_update = True
             # reset saved trajectories
             # i.e. trajectories starting at the starting point of trajectory that was not successfully computed
-- 
2.43.0


From 0541c339dc6875f32e0fde1b06c653881e150dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:00 +0000
Subject: [PATCH 69/89] fix: solve a block of G-code again from where the tool
 is

After a solve that failed, the next one started with the velocity at the end
of the plan that was rejected; the line through the last two velocities was
vertical or not by the wrong difference. A first block that fails crashed.
---
 omgtools/execution/deployer.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/omgtools/execution/deployer.py b/omgtools/execution/deployer.py
index 2db89fc..e967b7a 100644
--- a/omgtools/execution/deployer.py
+++ b/omgtools/execution/deployer.py
@@ -84,6 +84,8 @@ class Deployer:
         # boolean to select if we want to go to next segment
         # e.g. is True if current solution was infeasible
         self.problem.no_update = False
+        # number of times the current segment was solved again
+        self.cnt = 0
 
         # initialize the figures
         self.init_plot()
@@ -201,24 +203,18 @@ class Deployer:
             # reset states and inputs
             self.states_end = states  # + np.random.rand(3,)*1e-5  # perturb initial state randomly
 
-            # compute perturbed input, that lies on the line between the last two inputs of the input traj
-            inputs = [0, 0, 0]  # initialize
-            # draw line between last and second last input to compute the y-coordinate of
-            # the slightly changed initial point, that is right outside the connection of these two points
-            x1, y1, z1 = self.input_traj[:,-2]  # second last point
-            x2, y2, z2 = self.input_traj[:,-1]  # last point
-            inputs[0] = x2+(x2-x1)*0.01  # perturb
-            if (abs(y2 - y1) > 1e-3):  # line is not vertical
-                a = (y2-y1)/(x2-x1)  # slope
-                b = -x1*a+y1  # offset
-                inputs[1] = a*inputs[0] + b
-            else:
-                inputs[1] = y1
-            self.input_traj[:,-1] = inputs  # replace the old 'last point'
+            # compute perturbed input, that lies on the line through the last two inputs of the
+            # input traj, right outside the connection of these two points
+            if inputs is None:
+                inputs = np.array(self.input_traj[:, -1])  # nothing moved yet
+            if self.input_traj.shape[1] > 1:
+                inputs = self.input_traj[:, -1] + (self.input_traj[:, -1]-self.input_traj[:, -2])*0.01
+                self.input_traj[:, -1] = inputs  # replace the old 'last point'
+            self.inputs_end = inputs
 
             # inputs = inputs_old + np.random.rand(3,)*1e-4  # perturb initial input randomly
-            self.dinputs_end = dinputs
-            self.ddinputs_end = ddinputs
+            self.dinputs_end = np.array(self.dinput_traj[:, -1]) if dinputs is None else dinputs
+            self.ddinputs_end = np.array(self.ddinput_traj[:, -1]) if ddinputs is None else ddinputs
 
             # reset time to previous value
             if self.current_time != 0.:
-- 
2.43.0


From 2e23df2052ba62fbc91bdf18bd240a6d19cfb3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:15 +0000
Subject: [PATCH 70/89] fix: keep the time of a program right when a block is
 solved again

---
 omgtools/execution/deployer.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/omgtools/execution/deployer.py b/omgtools/execution/deployer.py
index e967b7a..4342403 100644
--- a/omgtools/execution/deployer.py
+++ b/omgtools/execution/deployer.py
@@ -114,7 +114,7 @@ class Deployer:
             else:
                 # problem was solved before
                 update_time = 0.  # this value is passed on to update, but is not used
-                current_time += self.problem.motion_times[0]  # step in time
+                current_time = sum(self.problem.motion_time_log)  # step in time, over the accepted segments
                 enforce_inputs = True
 
                 # set new values at end values of previous iteration
@@ -217,10 +217,7 @@ class Deployer:
             self.ddinputs_end = np.array(self.ddinput_traj[:, -1]) if ddinputs is None else ddinputs
 
             # reset time to previous value
-            if self.current_time != 0.:
-                self.current_time -= self.problem.motion_times[0]
-            if current_time != 0.:
-                current_time -= self.problem.motion_times[0]
+            self.current_time = current_time
 
             self.cnt += 1
             # if it takes too many iterations, stop
-- 
2.43.0


From 902f590348ae6bff2c7f6d7ff7ab70a7ece12200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:17 +0000
Subject: [PATCH 71/89] fix: do not skip the first block of a program

The start of a program may lie on the prolongation of its second block: always
when the first block is an arc that is split, or when it is in line with the
next.
---
 omgtools/problems/gcodeschedulerproblem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index 07317b6..cc334f8 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -119,7 +119,8 @@ class GCodeSchedulerProblem(Problem):
 
         # did we move far enough over the current segment yet?
         print('Current GCode block: ', self.n_current_block)
-        segments_valid = self.check_segments()
+        # (nothing was machined yet in the first iteration)
+        segments_valid = len(self.motion_time_log) == 0 or self.check_segments()
         if not segments_valid:
             # add new segment and remove first one
             if hasattr(self, 'no_update') and self.no_update:
-- 
2.43.0


From 4172fe9e0003bf4ced93ee343a0a1a94c68f30c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:25 +0000
Subject: [PATCH 72/89] fix: do not change the velocity a block of G-code is
 solved again from

---
 omgtools/execution/deployer.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/omgtools/execution/deployer.py b/omgtools/execution/deployer.py
index 4342403..c865bd0 100644
--- a/omgtools/execution/deployer.py
+++ b/omgtools/execution/deployer.py
@@ -203,14 +203,9 @@ class Deployer:
             # reset states and inputs
             self.states_end = states  # + np.random.rand(3,)*1e-5  # perturb initial state randomly
 
-            # compute perturbed input, that lies on the line through the last two inputs of the
-            # input traj, right outside the connection of these two points
-            if inputs is None:
-                inputs = np.array(self.input_traj[:, -1])  # nothing moved yet
-            if self.input_traj.shape[1] > 1:
-                inputs = self.input_traj[:, -1] + (self.input_traj[:, -1]-self.input_traj[:, -2])*0.01
-                self.input_traj[:, -1] = inputs  # replace the old 'last point'
-            self.inputs_end = inputs
+            # (not perturbed either: the end of the previous segment mostly lies on the border of
+            # what is possible, a small change may leave no solution)
+            self.inputs_end = np.array(self.input_traj[:, -1]) if inputs is None else inputs
 
             # inputs = inputs_old + np.random.rand(3,)*1e-4  # perturb initial input randomly
             self.dinputs_end = np.array(self.dinput_traj[:, -1]) if dinputs is None else dinputs
-- 
2.43.0


From da4ed86cb953e2fdde74868f94136eb001353502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:16 +0000
Subject: [PATCH 73/89] fix: machine within the ends of diagonal lines and arcs

---
 omgtools/vehicles/tool.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/omgtools/vehicles/tool.py b/omgtools/vehicles/tool.py
index 5d83809..e360b20 100644
--- a/omgtools/vehicles/tool.py
+++ b/omgtools/vehicles/tool.py
@@ -222,19 +222,36 @@ class Tool(Vehicle):
             self.define_constraint(a[0]*position[0] + a[1]*position[1] - b - tolerance + rad[0], -inf, 0.)
             self.define_constraint(-a[0]*position[0] - a[1]*position[1] + b - tolerance + rad[0], -inf, 0.)
 
+            # and go no further than the tolerance beyond start and end, just like a horizontal or vertical line:
+            # -tol <= d'*(q - start) <= length + tol, with d the direction of the line
+            length = np.sqrt(vector[0]**2+vector[1]**2)
+            d = np.array(vector)/length
+            along = d[0]*(position[0] - x1) + d[1]*(position[1] - y1)
+            self.define_constraint(-along - tolerance + rad[0], -inf, 0.)
+            self.define_constraint(along - length - tolerance + rad[0], -inf, 0.)
+
         elif (isinstance(segment['shape'], (Ring)) and
             (isinstance(shape, Circle))):
             # we have a Ring/Circle segment
             # we impose that the trajectory/splines must lie within the outside and inside circle
 
-            # Todo: constraint imposes that the trajectory must lie inside the complete ring, not that it
-            # may only lie inside the ring segment. Improve?
-
             center = segment['pose']
             self.define_constraint(-(position[0] - center[0])**2 - (position[1] - center[1])**2 +
                                   (segment['shape'].radius_in + rad[0])**2, -inf, 0.)
             self.define_constraint((position[0] - center[0])**2 + (position[1] - center[1])**2 -
                                   (segment['shape'].radius_out - rad[0])**2, -inf, 0.)
+            # stay in the part of the ring between start and end, with the tolerance as margin, when this part
+            # is convex, otherwise impose only that the trajectory must lie inside the complete ring
+            tolerance = 0.5*(segment['shape'].radius_out - segment['shape'].radius_in)
+            sign = -1 if segment['shape'].direction == 'CW' else 1
+            start = np.array(segment['start'][:2]) - np.array(center[:2])
+            end = np.array(segment['end'][:2]) - np.array(center[:2])
+            angle = sign*(np.arctan2(end[1], end[0]) - np.arctan2(start[1], start[0])) % (2*np.pi)
+            if 0 < angle <= np.pi:
+                start, end = start/np.linalg.norm(start), end/np.linalg.norm(end)
+                x, y = position[0] - center[0], position[1] - center[1]
+                self.define_constraint(-sign*(start[0]*y - start[1]*x) - tolerance + rad[0], -inf, 0.)
+                self.define_constraint(-sign*(end[1]*x - end[0]*y) - tolerance + rad[0], -inf, 0.)
         else:
             raise RuntimeError('Invalid segment obtained when setting up collision avoidance constraints')
 
-- 
2.43.0


From 17948019593167002b916b233ad0dd7229310271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:57 +0000
Subject: [PATCH 74/89] fix: go back to the guess of a block of G-code when its
 time to solve is over

---
 omgtools/problems/gcodeproblem.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omgtools/problems/gcodeproblem.py b/omgtools/problems/gcodeproblem.py
index c7fddfb..37c9b86 100644
--- a/omgtools/problems/gcodeproblem.py
+++ b/omgtools/problems/gcodeproblem.py
@@ -38,6 +38,7 @@ class GCodeProblem(Problem):
         self.init_time = None
         self.start_time = 0.
         self.objective = 0.
+        self.init_guess = None
 
         # an initial guess for the motion time may be passed by the scheduler during problem creation
         if 'motion_time_guess' in kwargs:
@@ -151,6 +152,12 @@ class GCodeProblem(Problem):
         spline_segments = [self.father.get_variables(self.vehicles[0], 'splines_seg'+str(k)) for k in range(self.vehicles[0].n_seg)]
         self.vehicles[0].store(current_time, sample_time, spline_segments, segment_times, time_axis, continuity=self.continuity)
 
+    def reset_init_guess(self, init_guess=None):
+        # without a new guess, go back to the last one that was provided by the scheduler
+        if init_guess is not None:
+            self.init_guess = init_guess
+        Problem.reset_init_guess(self, self.init_guess)
+
     def reset_init_time(self):
         self.init_time = None
 
-- 
2.43.0


From 44a512506647b9ab97a26dd411debb8834305bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:32 +0000
Subject: [PATCH 75/89] fix: know the parts of long arcs with a variable
 tolerance by their own ends and numbers

---
 omgtools/problems/gcodeschedulerproblem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index cc334f8..11c9ad7 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -491,15 +491,16 @@ class GCodeSchedulerProblem(Problem):
 
                         divided_rooms.extend([
                                         {'shape': shape1, 'pose': pose, 'position': pose[:2], 'draw':True,
-                                        'start': block.start, 'end': seg_end1, 'number':number},
+                                        'start': r['start'], 'end': seg_end1, 'number':number},
                                         {'shape': shape2, 'pose': pose, 'position': pose[:2], 'draw':True,
                                         'start': seg_start2 , 'end': seg_end2, 'number':number+1},
                                         {'shape': shape3, 'pose': pose, 'position': pose[:2], 'draw':True,
-                                        'start': seg_start3, 'end': block.end, 'number':number+2}])
+                                        'start': seg_start3, 'end': r['end'], 'number':number+2}])
                     # assign divided rooms to old variable
                     new_room = divided_rooms
             # save original GCode block in the room description
             for r in new_room:
+                r['number'] = number
                 room.append(r)
                 number += 1
         return Environment(room=room)
-- 
2.43.0


From cb8a3da75f2deb80e703e2c1571cd1bc51676b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:37 +0000
Subject: [PATCH 76/89] fix: plan around obstacles that accelerate or that move
 from the start, not as if they stood still

---
 omgtools/environment/frame.py      |  7 ++-----
 omgtools/environment/obstacle.py   | 11 +++++++++++
 omgtools/problems/globalplanner.py |  3 +--
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index aec8336..8f60197 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -47,11 +47,8 @@ class Frame(object):
         self.check_moving_obs_ts = options['check_moving_obs_ts'] if 'check_moving_obs_ts' in options else 0.5
 
     def is_stationary(self, obstacle):
-        # check if obstacle is stationary, this is when:
-        # there is no entry trajectories or there are trajectories but no velocity or
-        # all velocities are 0.
-        return ((not 'trajectories' in obstacle.simulation) or (not 'velocity' in obstacle.simulation['trajectories'])
-                or (all(vel == [0.]*obstacle.n_dim for vel in obstacle.simulation['trajectories']['velocity']['values'])))
+        # check if obstacle is stationary, i.e. if it never moves
+        return obstacle.is_stationary()
 
     def get_stationary_obstacles(self, frame=None):
         if frame is None:
diff --git a/omgtools/environment/obstacle.py b/omgtools/environment/obstacle.py
index 0092d86..a9607d0 100644
--- a/omgtools/environment/obstacle.py
+++ b/omgtools/environment/obstacle.py
@@ -156,6 +156,17 @@ class ObstaclexD(OptiChild):
         parameters[self]['rad'] = rad
         return parameters
 
+    def is_stationary(self):
+        # an obstacle is stationary if it has no velocity or acceleration from the start,
+        # and none of its simulation trajectories gives it one
+        trajectories = self.simulation.get('trajectories', {})
+        for key in ['velocity', 'acceleration']:
+            if np.any(self.initial.get(key, 0.)):
+                return False
+            if key in trajectories and np.any(trajectories[key]['values']):
+                return False
+        return True
+
     # ========================================================================
     # Deploying related functions
     # ========================================================================
diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index a519f90..612affa 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -443,8 +443,7 @@ class Grid(object):
 
         for obstacle in environment.obstacles:
             # only look at stationary obstacles
-            if ((not 'trajectories' in obstacle.simulation) or (not 'velocity' in obstacle.simulation['trajectories'])
-               or (all(vel == [0.]*obstacle.n_dim for vel in obstacle.simulation['trajectories']['velocity']['values']))):
+            if obstacle.is_stationary():
                 pos = obstacle.signals['position'][:,-1]
                 if isinstance(obstacle.shape, (Rectangle, Square)):
                     vertices = []
-- 
2.43.0


From 0cb9f8c663a9bd791a45d8fd4de91be779fecfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:37 +0000
Subject: [PATCH 77/89] fix: let an obstacle keep accelerating from one frame
 to the next

---
 omgtools/environment/obstacle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/environment/obstacle.py b/omgtools/environment/obstacle.py
index a9607d0..ba12334 100644
--- a/omgtools/environment/obstacle.py
+++ b/omgtools/environment/obstacle.py
@@ -104,8 +104,9 @@ class ObstaclexD(OptiChild):
                 for horizon_time in horizon_times:
                     for k in range(self.n_dim):
                         self.pos_spline[k] = BSpline(self.basis, vertcat(pos0[k], 0.5*v0[k]*horizon_time + pos0[k], pos0[k] + v0[k]*horizon_time + 0.5*a0[k]*(horizon_time**2)))
-                    # update start position for next segment
+                    # update start position and velocity for next segment
                     pos0 = [self.pos_spline[k](1) for k in range(self.n_dim)]
+                    v0 = [v0[k] + a0[k]*horizon_time for k in range(self.n_dim)]
             else:
                 # horizon_times was None
                 # pos spline over time horizon
-- 
2.43.0


From 755463440af189c0554bc884355f5c847bd6ce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:05 +0000
Subject: [PATCH 78/89] fix: look for moving obstacles with all of their shape,
 and between the instants as well

---
 omgtools/environment/frame.py | 47 ++++++++++++-----------------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index 8f60197..72303be 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -128,39 +128,24 @@ class Frame(object):
             # stationary obstacles and has to be avoided as well
             if (not all(obstacle.signals['velocity'][:,-1] == [0.]*obstacle.n_dim)
                 or not self.is_stationary(obstacle)):
-                # get obstacle checkpoints
-                if not isinstance(obstacle.shape, Circle):
-                    # element [0] gives vertices, not the corresponding radii
-                    obs_chck = obstacle.shape.get_checkpoints()[0]
-                else:
-                    # for a circle only the center is returned as a checkpoint
-                    # make a square representation of it and use those checkpoints
-
-                    [[xmin, xmax],[ymin, ymax]] = obstacle.shape.get_canvas_limits()
-                    obs_chck = [[xmin, ymin], [xmin, ymax], [xmax, ymax], [xmax, ymin]]
-                    # also check center, because vertices of square approximation may be outside
-                    # of the frame, while the center is in the frame
-                    obs_chck.insert(0, [0,0])
+                # get box around obstacle
+                [[xmin, xmax],[ymin, ymax]] = obstacle.shape.get_canvas_limits()
                 obs_pos = obstacle.signals['position'][:,-1]
                 obs_vel = obstacle.signals['velocity'][:,-1]
-
-                for chck in obs_chck:
-                    # if it is not a circle, rotate the vertices
-                    if hasattr(obstacle.shape, 'orientation'):
-                        vertex = obstacle.shape.rotate(obstacle.shape.orientation, chck)
-                    else:
-                        vertex = chck
-                    # move to correct position
-                    vertex += obs_pos
-                    # check if vertex is in frame during movement
-                    if self.point_in_frame(vertex, time=motion_time,
-                                           sample_time=self.check_moving_obs_ts, velocity=obs_vel):
-                        # avoid corresponding obstacle
-                        obstacle.set_options({'avoid': True})
-                        moving_obstacles.append(obstacle)
-                        # break from for chck in obs_chck, move on to next obstacle, since
-                        # obstacle is added to the frame if any of its vertices is in the frame
-                        break
+                obs_acc = obstacle.signals['acceleration'][:,-1]
+
+                # check if the box touches the frame during the movement
+                time_axis = np.arange(int(round(motion_time/self.check_moving_obs_ts)+1)+1)*self.check_moving_obs_ts
+                pos = obs_pos + np.outer(time_axis, obs_vel) + 0.5*np.outer(time_axis**2, obs_acc)
+                # between two instants, the box moves from the one position to the other
+                low = np.minimum(pos[:-1], pos[1:]) + np.array([xmin, ymin])
+                high = np.maximum(pos[:-1], pos[1:]) + np.array([xmax, ymax])
+                xmin_f, ymin_f, xmax_f, ymax_f = self.border['limits']
+                if np.any((low[:, 0] <= xmax_f) & (high[:, 0] >= xmin_f) &
+                          (low[:, 1] <= ymax_f) & (high[:, 1] >= ymin_f)):
+                    # avoid corresponding obstacle
+                    obstacle.set_options({'avoid': True})
+                    moving_obstacles.append(obstacle)
 
         end_time = time.time()
         if self.options['verbose'] >= 3:
-- 
2.43.0


From 9cff9e18ecaab426449ec758ccdc8f9a5537d924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:05 +0000
Subject: [PATCH 79/89] fix: look for the moving obstacles in a frame until the
 plan has left it

---
 omgtools/problems/schedulerproblem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 057c0ea..6b89fc0 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -127,7 +127,7 @@ class SchedulerProblem(Problem):
         # get moving obstacles inside frame, taking into account the calculated motion time
         for idx, frame in enumerate(self.frames):
             # updates self.frames[:]['moving_obstacles']
-            frame.moving_obstacles = frame.get_moving_obstacles(self.motion_times[idx])
+            frame.moving_obstacles = frame.get_moving_obstacles(sum(self.motion_times[:idx+1]))
 
         # get a problem representation of the frames
         # the schedulerproblem (self) has a local problem (multiframeproblem) at each moment
@@ -182,7 +182,7 @@ class SchedulerProblem(Problem):
             # or disappeared obstacle) make a new problem
             new_problem = False
             for idx, frame in enumerate(self.frames):
-                moving_obs_in_frame = frame.get_moving_obstacles(self.motion_times[idx])
+                moving_obs_in_frame = frame.get_moving_obstacles(sum(self.motion_times[:idx+1]))
                 if set(moving_obs_in_frame) != set(frame.moving_obstacles):
                     # the amount of moving obstacles changed, or there is a new obstacle
                     new_problem = True
@@ -481,7 +481,7 @@ class SchedulerProblem(Problem):
 
         # get moving obstacles inside frame for this time
         for idx, frame in enumerate(self.frames):
-            frame.moving_obstacles = frame.get_moving_obstacles(self.motion_times[idx])
+            frame.moving_obstacles = frame.get_moving_obstacles(sum(self.motion_times[:idx+1]))
 
         end_time = time.time()
         if self.options['verbose'] >= 2:
-- 
2.43.0


From 711b3264d37ffdc57178013aad319c951c40fe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:19 +0000
Subject: [PATCH 80/89] fix: let vehicles share a build only when their limits,
 shapes and options are the same

---
 omgtools/problems/distributedproblem.py | 31 ++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/distributedproblem.py b/omgtools/problems/distributedproblem.py
index 2aad911..6782b69 100644
--- a/omgtools/problems/distributedproblem.py
+++ b/omgtools/problems/distributedproblem.py
@@ -33,6 +33,14 @@ def get_dependency(expression):
     return dep
 
 
+def same_value(a, b):
+    if isinstance(a, dict) and isinstance(b, dict):
+        return a.keys() == b.keys() and all(same_value(a[key], b[key]) for key in a)
+    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
+        return len(a) == len(b) and all(same_value(i, j) for i, j in zip(a, b))
+    return np.array_equal(a, b)
+
+
 class DistributedProblem(Problem):
 
     def __init__(self, fleet, environment, problems, updater_type, options):
@@ -86,7 +94,20 @@ class DistributedProblem(Problem):
         return np.mean(buildtime)
 
     def separate_per_build(self):
-        vehicle_types = self.fleet.sort_vehicles()
+        vehicle_types = col.OrderedDict()
+        for veh_type, vehicles in self.fleet.sort_vehicles().items():
+            # limits, shapes and options are part of the build: only vehicles that have these
+            # in common can share it
+            builds = []
+            for veh in vehicles:
+                for build in builds:
+                    if same_value(self._get_build_data(build[0]), self._get_build_data(veh)):
+                        build.append(veh)
+                        break
+                else:
+                    builds.append([veh])
+            for k, build in enumerate(builds):
+                vehicle_types[veh_type if k == 0 else veh_type+'_'+str(k+1)] = build
         updaters = {}
         for veh_type, vehicles in vehicle_types.items():
             nghb_nr = col.OrderedDict()
@@ -102,6 +123,14 @@ class DistributedProblem(Problem):
                     updaters[veh_type][nr].append(self.updaters[vehicle._index])
         return updaters
 
+    def _get_build_data(self, vehicle):
+        data = {'knots': vehicle.knots, 'options': vehicle.options,
+                'shapes': [[shape.__class__.__name__, vars(shape)] for shape in vehicle.shapes]}
+        for key, value in vars(vehicle).items():
+            if isinstance(value, (int, float)) and key not in ['_index', 'n_cons', 'to_simulate']:
+                data[key] = value
+        return data
+
     def interprete_constraints(self, updaters):
         for upd in updaters:
             upd.q_i, upd.q_ij, upd.q_ji = col.OrderedDict(), col.OrderedDict(), col.OrderedDict()
-- 
2.43.0


From cd9a4df87079bcd9bb0b819f05673d8f6404c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:24 +0000
Subject: [PATCH 81/89] fix: draw a scene in which an obstacle is not to be
 drawn

---
 omgtools/environment/obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/environment/obstacle.py b/omgtools/environment/obstacle.py
index ba12334..e996557 100644
--- a/omgtools/environment/obstacle.py
+++ b/omgtools/environment/obstacle.py
@@ -528,7 +528,7 @@ class Obstacle2D(ObstaclexD):
 
     def draw(self, t=-1):
         if not self.options['draw']:
-            return []
+            return [], []
         pose = np.zeros(2*self.n_dim)
         pose[:self.n_dim] = self.signals['position'][:, t]
         pose[2] = self.signals['orientation'][:, t]
-- 
2.43.0


From fd7a1879264d9b6345c7eb494ffad62513ef4362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:24 +0000
Subject: [PATCH 82/89] fix: let figures show the last sample of a run

---
 omgtools/problems/problem.py |  2 +-
 omgtools/vehicles/vehicle.py | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/omgtools/problems/problem.py b/omgtools/problems/problem.py
index 3ae4c96..580cee9 100644
--- a/omgtools/problems/problem.py
+++ b/omgtools/problems/problem.py
@@ -241,7 +241,7 @@ class Problem(OptiChild, PlotLayer):
                 return None
             data = self.environment.update_plot(None, t, **kwargs)
             for vehicle in self.vehicles:
-                data[0][0]['lines'] += [vehicle.traj_storage['pose'][t][:3, :]]
+                data[0][0]['lines'] += [vehicle.traj_storage['pose'][vehicle.storage_index(t)][:3, :]]
             for vehicle in self.vehicles:
                 if t == -1:
                     data[0][0]['lines'] += [vehicle.signals['pose'][:3, :]]
diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 334dc5b..4f42809 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -458,6 +458,11 @@ class Vehicle(OptiChild, PlotLayer):
                 memory[key] = []
             memory[key].extend([dictionary[key] for k in range(repeat)])
 
+    def storage_index(self, t):
+        # which of the stored plans holds at sample t: the last sample is the
+        # end of the last plan
+        return min(t, len(self.traj_storage['time'])-1)
+
     def draw(self, t=-1):
         surf, lines = [], []
         for shape in self.shapes:
@@ -509,20 +514,21 @@ class Vehicle(OptiChild, PlotLayer):
             return None
         size = self.signals[signal].shape[0]
         ax_r, ax_c = size, 1
+        s = self.storage_index(t)
         data = []
         for k in range(ax_r):
             dat = []
             for l in range(ax_c):
                 lines = []
-                lines += [np.vstack((self.traj_storage['time'][t], self.traj_storage[signal][t][k, :]))]
+                lines += [np.vstack((self.traj_storage['time'][s], self.traj_storage[signal][s][k, :]))]
                 if t == -1:
                     lines += [np.vstack((self.signals['time'], self.signals[signal][k, :]))]
                 else:
                     lines += [np.vstack((self.signals['time'][:, :t+1], self.signals[signal][k, :t+1]))]
                 if 'knots' in kwargs and kwargs['knots']:
-                    lines += [np.vstack((self.traj_storage_kn['time'][t], self.traj_storage_kn[signal][t][k, :]))]
+                    lines += [np.vstack((self.traj_storage_kn['time'][s], self.traj_storage_kn[signal][s][k, :]))]
                 if 'prediction' in kwargs and kwargs['prediction']:
-                    lines += [np.vstack((self.traj_storage['time'][t][:, 0], self.pred_storage[signal][t][k]))]
+                    lines += [np.vstack((self.traj_storage['time'][s][:, 0], self.pred_storage[signal][s][k]))]
                 dat.append({'lines': lines})
             data.append(dat)
         return data
-- 
2.43.0


From 8780720a5dd56020e23b735abc3964bb9fde6a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:24 +0000
Subject: [PATCH 83/89] fix: keep a prediction of every signal from the first
 plan on

---
 omgtools/vehicles/vehicle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 4f42809..d7a7030 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -396,7 +396,10 @@ class Vehicle(OptiChild, PlotLayer):
         repeat = int(np.round(simulation_time/sample_time, 6))
         self._add_to_memory(self.traj_storage, self.trajectories, repeat)
         self._add_to_memory(self.traj_storage_kn, self.trajectories_kn, repeat)
-        self._add_to_memory(self.pred_storage, self.prediction, repeat)
+        # what was not predicted (yet) is where the plan starts
+        prediction = {key: self.prediction.get(key, self.trajectories[key][:, 0])
+                      for key in self.trajectories}
+        self._add_to_memory(self.pred_storage, prediction, repeat)
         # update plots
         self.update_plots()
 
-- 
2.43.0


From 74bdc992ac71d51ef80c469c973a4aeda73ecf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:36 +0000
Subject: [PATCH 84/89] fix: show the residuals of distributed problems, and
 those up to the instant asked for

---
 omgtools/problems/admm.py              |  6 ++----
 omgtools/problems/dualdecomposition.py | 10 ++++------
 omgtools/problems/dualmethod.py        | 10 ++++++++++
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/omgtools/problems/admm.py b/omgtools/problems/admm.py
index 20c6537..1bb4fb3 100644
--- a/omgtools/problems/admm.py
+++ b/omgtools/problems/admm.py
@@ -665,11 +665,9 @@ class ADMMProblem(DualProblem):
                     iterations = np.linspace(1, n_it, n_it)
                     lines += [np.vstack((iterations, np.log10(residual)))]
                 else:
-                    ind = (self.options['init_iter'] +
-                           t*self.options['max_iter_per_update'])
-                    n_it = ind + 1
+                    n_it = self.iteration_storage[min(t, len(self.iteration_storage)-1)]
                     iterations = np.linspace(1, n_it, n_it)
-                    lines += [np.vstack((iterations, np.log10(residual[:ind+1])))]
+                    lines += [np.vstack((iterations, np.log10(residual[:n_it])))]
                 data.append([{'lines': lines}])
             return data
         else:
diff --git a/omgtools/problems/dualdecomposition.py b/omgtools/problems/dualdecomposition.py
index 7941951..74b9410 100644
--- a/omgtools/problems/dualdecomposition.py
+++ b/omgtools/problems/dualdecomposition.py
@@ -341,14 +341,12 @@ class DDProblem(DualProblem):
                 if t == -1:
                     n_it = len(residual)
                     iterations = np.linspace(1, n_it, n_it)
-                    lines.append([iterations, np.log10(residual)])
+                    lines += [np.vstack((iterations, np.log10(residual)))]
                 else:
-                    ind = (self.options['init_iter'] +
-                           t*self.options['max_iter_per_update'])
-                    n_it = ind + 1
+                    n_it = self.iteration_storage[min(t, len(self.iteration_storage)-1)]
                     iterations = np.linspace(1, n_it, n_it)
-                    lines.append([iterations, np.log10(residual[:ind+1])])
-                data.append([lines])
+                    lines += [np.vstack((iterations, np.log10(residual[:n_it])))]
+                data.append([{'lines': lines}])
             return data
         else:
             return Problem.update_plot(self, argument, t, **kwargs)
diff --git a/omgtools/problems/dualmethod.py b/omgtools/problems/dualmethod.py
index bba4538..152eff0 100644
--- a/omgtools/problems/dualmethod.py
+++ b/omgtools/problems/dualmethod.py
@@ -17,6 +17,7 @@
 # License along with this program; if not, write to the Free Software
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA
 
+import numpy as np
 from .problem import Problem
 from .distributedproblem import DistributedProblem
 from casadi import SX, MX, DM
@@ -235,6 +236,15 @@ class DualProblem(DistributedProblem):
     def dual_update(self, current_time, update_time):
         raise NotImplementedError('Please implement this method!')
 
+    def simulate(self, current_time, simulation_time, sample_time):
+        # remember for every sample how many iterations were done by then
+        if not hasattr(self, 'iteration_storage'):
+            self.iteration_storage = []
+        n_it = len(self.residuals['primal'])
+        repeat = int(np.round(simulation_time/sample_time, 6))
+        self.iteration_storage.extend([n_it for k in range(repeat)])
+        DistributedProblem.simulate(self, current_time, simulation_time, sample_time)
+
     def stop_criterium(self, current_time, update_time):
         if self.options['max_iter']:
             if self.iteration > self.options['max_iter']:
-- 
2.43.0


From fbcf3937422b90367e19ca8e1468d806760c46f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:31 +0000
Subject: [PATCH 85/89] fix: show the prediction of vehicles whose state is a
 single number

---
 omgtools/vehicles/vehicle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index d7a7030..8b5f0a9 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -531,7 +531,7 @@ class Vehicle(OptiChild, PlotLayer):
                 if 'knots' in kwargs and kwargs['knots']:
                     lines += [np.vstack((self.traj_storage_kn['time'][s], self.traj_storage_kn[signal][s][k, :]))]
                 if 'prediction' in kwargs and kwargs['prediction']:
-                    lines += [np.vstack((self.traj_storage['time'][s][:, 0], self.pred_storage[signal][s][k]))]
+                    lines += [np.vstack((self.traj_storage['time'][s][:, 0], np.ravel(self.pred_storage[signal][s])[k]))]
                 dat.append({'lines': lines})
             data.append(dat)
         return data
-- 
2.43.0


From fd889ebcb61c6a2dbda7cc956fbe6996bd7acd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:12 +0000
Subject: [PATCH 86/89] fix: remove from the scene the frames that are not
 there anymore

---
 omgtools/execution/plotlayer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omgtools/execution/plotlayer.py b/omgtools/execution/plotlayer.py
index e1f1728..a6e799e 100644
--- a/omgtools/execution/plotlayer.py
+++ b/omgtools/execution/plotlayer.py
@@ -94,6 +94,9 @@ def _update_axis_2d(axis, info, data):
     if 'surfaces' in data:
         for p, dat in enumerate(data['surfaces']):
             axis.collections[p].set_verts([dat.T.tolist()])
+        # what is not there anymore
+        for p in range(len(data['surfaces']), len(info.get('surfaces', []))):
+            axis.collections[p].set_verts([])
     axis.relim()
     scalex = ('xlim' not in info or info['xlim'] is None)
     scaley = ('ylim' not in info or info['ylim'] is None)
-- 
2.43.0


From 540d3dc59a51ebed1ab9461023ec3a8b040b63e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:09 +0000
Subject: [PATCH 87/89] fix: let the scene of a scheduler show the last sample
 of a run

---
 omgtools/problems/schedulerproblem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 6b89fc0..1179eb5 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -292,6 +292,8 @@ class SchedulerProblem(Problem):
         # plot environment
         data = Problem.update_plot(self, argument, t)
         if data is not None:
+            # the last sample is the end of the last plan
+            t = min(t, len(self.frame_storage)-1)
             for k in range(len(self.frame_storage[t])):
                 # for every frame at this point in time
                 # plot frame border
-- 
2.43.0


From e686095adf5a70b55372ee4fd4f152506d05b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:50 +0000
Subject: [PATCH 88/89] fix: find the closest sample of a time, also when that
 is the next one

---
 omgtools/execution/simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/execution/simulator.py b/omgtools/execution/simulator.py
index c2c389c..418164d 100644
--- a/omgtools/execution/simulator.py
+++ b/omgtools/execution/simulator.py
@@ -152,5 +152,6 @@ class Simulator:
         Ts = self.sample_time
         for k, t in enumerate(self.time):
             t = np.round(t, 6)
-            if (t <= time) and (time < (t+Ts)) and ((time-t) <= (t+Ts-time)):
+            # the sample closest to it
+            if time <= t + 0.5*Ts:
                 return k
-- 
2.43.0


From 6ca547495a4dd20cd225b99cfe42640cc6f85a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:27 +0000
Subject: [PATCH 89/89] fix: concatenate spline segments of which one takes no
 time

---
 omgtools/basics/spline_extra.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index b3b94c3..ec8b4cb 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -310,6 +310,11 @@ def concat_splines(segments, segment_times, n_insert=None):
     # the required amount of knots to insert. If segments are continuous
     # up to degree, no extra knots are required. If they are not continuous
     # at all, degree+1 knots are inserted in between the splines.
+    # segments that take no time (any more) add nothing, and cannot be scaled
+    if len(segments) > 1:
+        keep = [k for k, T in enumerate(segment_times) if T > 1e-6*sum(segment_times)] or [0]
+        segments = [segments[k] for k in keep]
+        segment_times = [segment_times[k] for k in keep]
     spl0 = segments[0]
     knots = [s.basis.knots*segment_times[0] for s in spl0]  # give dimensions
     degree = [s.basis.degree for s in spl0]
-- 
2.43.0

