From a321fc820cc6c6b28149d6d4b45280be4d44f5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:27 +0000
Subject: [PATCH 01/42] fix: let pump and splitting valve accept the platform's
 port index type

_get_p_arr_pump and solve_split were compiled for int32 index arrays only, but
the port link index is built with numpy's default integer, which is int64 on
every 64-bit Linux/macOS. Any network with a Pump or a splitting MixingValve
stopped with a numba TypingError.
---
 multisim/precomp_funs.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 84c2197..2c0c202 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -3561,7 +3561,6 @@ def solve_platehex(
 
 
 @jit(
-    (float64[:], int32[:], float64[:]),
     nopython=True,
     nogil=GLOB_NOGIL,
     cache=True,
@@ -3619,7 +3618,6 @@ def solve_split_overload(arglist):
 
 
 @nb.jit(
-    (float64[:], int32[:], float64[:]),
     nopython=True,
     nogil=GLOB_NOGIL,
     cache=True,
-- 
2.43.0


From fc9921dfb2942c4cc139370be515d8a0e0f7dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:27 +0000
Subject: [PATCH 02/42] fix: record the mass flows of three-way connectors and
 NTU heat exchangers

Both parts own a mass flow result array, but their solve methods never wrote
it, so the recorded flows stayed zero for the whole simulation.
---
 multisim/parts/connector_3w.py  | 3 +++
 multisim/parts/heatexchanger.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/multisim/parts/connector_3w.py b/multisim/parts/connector_3w.py
index 8be42a2..c5d149f 100644
--- a/multisim/parts/connector_3w.py
+++ b/multisim/parts/connector_3w.py
@@ -426,6 +426,9 @@ class Connector3w(SimEnv):
             containing no mass.
         """
 
+        # save massflow to results grid:
+        self.res_dm[self.stepnum] = self._dm_io
+
         _solve_connector_3w(
             T=self.T,
             ports_all=self._models.ports_all,
diff --git a/multisim/parts/heatexchanger.py b/multisim/parts/heatexchanger.py
index 90910b4..b41dee9 100644
--- a/multisim/parts/heatexchanger.py
+++ b/multisim/parts/heatexchanger.py
@@ -1141,6 +1141,9 @@ class HeatExchanger(SimEnv):
     def solve(self, timestep):
         #        if self.name == 'Hex_Zirk':
         #            self.A_plate_eff = self.A_hex_total
+        # save massflow to results grid:
+        self.res_dm[self.stepnum] = self._dm_io
+
         _pf.solve_platehex(
             T=self.T,
             T_port=self._T_port,
-- 
2.43.0


From dceabd4364518b46b957befcb5d20cf2f31891b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:11 +0000
Subject: [PATCH 03/42] fix: renew all references when result arrays are
 enlarged in memory

Without disk saving, a run with more steps than estimated enlarges the result
arrays. The solver kept writing to the old arrays through stored references
(lost mass flows, heap corruption), and special and 3D arrays were not
enlarged at all.
---
 multisim/simenv.py | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index fc4e648..eb5eb4d 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5298,25 +5298,33 @@ class SimEnv:
                 self._solver_state, arr_to_append, axis=0
             )
             # loop over parts:
-            for part in self.parts:
-                # for all parts:
-                self.parts[part].res_dm = np.append(
-                    self.parts[part].res_dm,
-                    np.zeros(
-                        (
-                            self.__base_num_steps,
-                            self.parts[part].res_dm.shape[1],
-                        )
-                    ),
-                    axis=0,
-                )
-                self.parts[part].res = np.append(
-                    self.parts[part].res,
-                    np.zeros(
-                        (self.__base_num_steps, self.parts[part].res.shape[1])
-                    ),
-                    axis=0,
-                )
+            for part in self.parts.values():
+                # all result arrays existing in the part, including special
+                # ones, regardless of their number of dimensions:
+                for arr_name in (
+                    'res',
+                    'res_dm',
+                    'res_dQ',
+                    'res_Pel',
+                    'res_Pgas',
+                    '_chp_state',
+                ):
+                    arr = getattr(part, arr_name, None)
+                    if arr is None:
+                        continue
+                    setattr(
+                        part,
+                        arr_name,
+                        np.append(
+                            arr,
+                            np.zeros((self.__base_num_steps,) + arr.shape[1:]),
+                            axis=0,
+                        ),
+                    )
+            # the arrays were reallocated, thus all stored references to them
+            # have to be renewed:
+            self._create_port_updater()
+            self._create_diff_inputs()
 
             # set numer of needed steps to new amount:
             self.num_steps = self.time_vec.size - 1
-- 
2.43.0


From 176b9ca8e02218277acc15f4a9a4b8e0d69d424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:20 +0000
Subject: [PATCH 04/42] fix: accept the documented check_vN argument of
 set_timeframe

---
 multisim/simenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index eb5eb4d..441b279 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -384,7 +384,7 @@ class SimEnv:
             else:
                 self.__min_factor = 0.2
             if 'check_vN' in kwargs:
-                assert isinstance(kwargs['check_vN'], bool)(
+                assert isinstance(kwargs['check_vN'], bool), (
                     'check_vN not of correct type!\n\n' + err_str
                 )
                 self._check_vN = kwargs['check_vN']
-- 
2.43.0


From fcdd4d4540c31eeafb1ea798b8fba6babe3330a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:20 +0000
Subject: [PATCH 05/42] fix: keep the first step within the given step size
 limits

---
 multisim/simenv.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 441b279..1caf274 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -417,8 +417,11 @@ class SimEnv:
             # incremental counter for consecutive successive steps since the
             # last failed step
             self._steps_since_fail = 0
-            # also set starting timestep with some value:
-            self._new_step = 1.0  # this is the adaptive step starting step
+            # also set starting timestep with some value (limited to the range
+            # of allowed stepsizes):
+            self._new_step = max(  # this is the adaptive step starting step
+                min(1.0, self.__max_stepsize), self.__min_stepsize
+            )
             self.timestep = 1.0  # this is the adaptive step final value
         else:
             # else if constant stepsizes are chosen
@@ -4798,9 +4801,6 @@ class SimEnv:
         # reset dynamic boundary conditions:
         self._initialize_dynamic_BC()
 
-        self._new_step = 1.0  # this is the adaptive step starting step
-        self.timestep = 1.0  # this is the adaptive step final value
-
     def initialize_sim(self, *, build_simenv=True, reset_simenv=False):
         """
         Initialize the simulation environment.
-- 
2.43.0


From 4555a734597e46af56b905e269312bbd91f91bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:54 +0000
Subject: [PATCH 06/42] fix: never increase the step size by more than
 max_factor

The recovery weighting after a stability breach kept growing beyond 1 once
more than factor_recovery steps had passed.
---
 multisim/simenv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 1caf274..0b79fa3 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4165,7 +4165,8 @@ class SimEnv:
                                 * err_rms ** (-1 / (self.__order + 1))
                             ),
                         )
-                        * (self._steps_since_fail / self._fctr_rec_stps) ** 2,
+                        * min(1, self._steps_since_fail / self._fctr_rec_stps)
+                        ** 2,
                     )
                     # check if step is not above max step:
                     if _h > self.__max_stepsize:
-- 
2.43.0


From a2e63e3fa6c52e3cceea4444de148ebe78b25fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:58 +0000
Subject: [PATCH 07/42] fix: store runs whose step count is a multiple of the
 disk saving interval

The final flush read one row behind the end of the result arrays and the whole
run was lost with an IndexError.
---
 multisim/simenv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 0b79fa3..6ebe829 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5085,8 +5085,10 @@ class SimEnv:
             # function to save current results to DataFrame, save this to disk
             # and clear current result arrays:
             if self.stepnum[0] == self.num_steps:
-                # check if not already total sim timeframe reached:
-                if self.time_sim < self.timeframe:
+                # check if not already total sim timeframe reached (if saving
+                # to disk, the block has to be stored anyways, since all array
+                # rows are used and storing the remaining results needs one):
+                if self.time_sim < self.timeframe or self.__save_to_disk:
                     self._free_memory()
 
             self.stepnum[0] += 1
-- 
2.43.0


From 2339a1d636fb6f0297420e7673e6205a7cfa4cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:06 +0000
Subject: [PATCH 08/42] fix: honour store_results without compression and for
 parts with fewer flow columns than cells

---
 multisim/simenv.py | 142 +++++++++++++++++----------------------------
 1 file changed, 52 insertions(+), 90 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 6ebe829..d6df4b2 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5444,101 +5444,63 @@ class SimEnv:
         self._disk_store_timevec = self._disk_store['store_tmp'][
             list(self.parts.keys())[0] + '/res'
         ].index.copy()
-        # compress store if set
-        if self._disk_store['compress']:
-            # create new store with compression set
-            self._disk_store['store'] = pd.HDFStore(
-                self._disk_store['path'],
-                mode='w',
-                complevel=self._disk_store['complevel'],
-                complib=self._disk_store['complib'],
-            )
-            # loop over all keys in temp store and append compressed
-            for key in self._disk_store['store_tmp'].keys():
-                # get table:
-                dst_tab = self._disk_store['store_tmp'][key]
-                # get part name of key:
-                pn = key.split('/')[1]
-                # get disk store value of the part:
-                dsp = self._disk_store_parts[pn]
-                # if bool and False, skip saving this part. if bool and True,
-                # convert to a full slice for saving all cells:
-                if isinstance(dsp, bool) and not dsp:
-                    continue  # skip part, no saving
-                elif isinstance(dsp, bool) and dsp:
-                    dsp = np.s_[:, :]  # index all cells
-                elif dst_tab.shape[1] == 1:
-                    # if the current table has only one col (for example
-                    # massflow cols), save this col
-                    dsp = np.s_[:, :]
-                elif isinstance(dsp, (int, list, tuple)):
-                    # slice time dimension and select cols
-                    dsp = (
-                        np.s_[:, list((dsp,))]
-                        if isinstance(dsp, int)
-                        else np.s_[:, list(dsp)]
-                    )
-                elif isinstance(dsp, slice):
-                    dsp = np.s_[:, dsp]
-                # resample or not?
-                if not self._disk_store['resample']:  # no resampling
-                    self._disk_store['store'].put(
-                        key,
-                        dst_tab.iloc[dsp],
-                        format='table',
-                        complevel=self._disk_store['complevel'],
-                        complib=self._disk_store['complib'],
-                    )
-                else:  # resample
-                    self._disk_store['store'].put(
-                        key,
-                        dst_tab.iloc[dsp]
-                        .resample(self._disk_store['resample_freq'])
-                        .mean()
-                        .interpolate(),
-                        format='table',
-                        complevel=self._disk_store['complevel'],
-                        complib=self._disk_store['complib'],
-                    )
-            # close and delete uncompressed store:
-            self._disk_store['store_tmp'].close()
-            os.remove(self._disk_store['path_tmp'])
-        else:  # if no compression, just copy ref to temp and rename
-            # if no resampling, just copy ref etc
-            if not self._disk_store['resample']:
-                # close store to enable renaming:
-                self._disk_store['store_tmp'].close()
-                # rename HDFStore
-                os.rename(
-                    self._disk_store['path_tmp'], self._disk_store['path']
+        # create new store (uncompressed, if the compression level is 0)
+        self._disk_store['store'] = pd.HDFStore(
+            self._disk_store['path'],
+            mode='w',
+            complevel=self._disk_store['complevel'],
+            complib=self._disk_store['complib'],
+        )
+        # loop over all keys in temp store and append compressed
+        for key in self._disk_store['store_tmp'].keys():
+            # get table:
+            dst_tab = self._disk_store['store_tmp'][key]
+            # get part name of key:
+            pn = key.split('/')[1]
+            # get disk store value of the part:
+            dsp = self._disk_store_parts[pn]
+            # if bool and False, skip saving this part. if bool and True,
+            # convert to a full slice for saving all cells:
+            if isinstance(dsp, bool) and not dsp:
+                continue  # skip part, no saving
+            elif isinstance(dsp, bool) and dsp:
+                dsp = np.s_[:, :]  # index all cells
+            elif dst_tab.shape[1] < self.parts[pn].num_gp:
+                # if the current table does not have a col for each cell (for
+                # example massflow cols), save all cols
+                dsp = np.s_[:, :]
+            elif isinstance(dsp, (int, list, tuple)):
+                # slice time dimension and select cols
+                dsp = (
+                    np.s_[:, list((dsp,))]
+                    if isinstance(dsp, int)
+                    else np.s_[:, list(dsp)]
                 )
-                # update references:
-                self._disk_store['store_tmp'] = pd.HDFStore(
-                    self._disk_store['path'], mode='a'
+            elif isinstance(dsp, slice):
+                dsp = np.s_[:, dsp]
+            # resample or not?
+            if not self._disk_store['resample']:  # no resampling
+                self._disk_store['store'].put(
+                    key,
+                    dst_tab.iloc[dsp],
+                    format='table',
+                    complevel=self._disk_store['complevel'],
+                    complib=self._disk_store['complib'],
                 )
-                # copy reference:
-                self._disk_store['store'] = self._disk_store['store_tmp']
-                print('fehler hier?')
-            else:
-                self._disk_store['store'] = pd.HDFStore(
-                    self._disk_store['path'],
-                    mode='w',
+            else:  # resample
+                self._disk_store['store'].put(
+                    key,
+                    dst_tab.iloc[dsp]
+                    .resample(self._disk_store['resample_freq'])
+                    .mean()
+                    .interpolate(),
+                    format='table',
                     complevel=self._disk_store['complevel'],
                     complib=self._disk_store['complib'],
                 )
-                # loop over all keys in temp store and append resampled
-                for key in self._disk_store['store_tmp'].keys():
-                    self._disk_store['store'].put(
-                        key,
-                        self._disk_store['store_tmp'][key]
-                        .resample(self._disk_store['resample_freq'])
-                        .mean()
-                        .interpolate(),
-                        format='table',
-                    )
-                # close and delete unresampled store:
-                self._disk_store['store_tmp'].close()
-                os.remove(self._disk_store['path_tmp'])
+        # close and delete uncompressed store:
+        self._disk_store['store_tmp'].close()
+        os.remove(self._disk_store['path_tmp'])
 
     def _write_report(self):
         states = dict(zip(*np.unique(self._solver_state, return_counts=True)))
-- 
2.43.0


From c5b1d2666d18964df3435bbf21a5c7f563a95f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:17 +0000
Subject: [PATCH 09/42] fix: check the stability of branched pipes with the
 flows inside the pipe

---
 multisim/precomp_funs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 2c0c202..8b0108c 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -1816,13 +1816,15 @@ def pipe1D_branched_diff(
         T_port=T_port,
     )
 
-    step_stable, vN_max_step, max_factor = _vonNeumann_stability_invar(
+    step_stable, vN_max_step, max_factor = _vonNeumann_stability_var(
         part_id=part_id,
         stability_breaches=stability_breaches,
         UA_tb=UA_tb,
         UA_port=UA_port,
         UA_amb_shell=UA_amb_shell,
-        dm_io=dm_io,
+        dm_top=dm_top,
+        dm_bot=dm_bot,
+        dm_port=dm_io,  # inflows AND outflows
         rho_T=rho_T,
         rhocp=rhocp,
         grid_spacing=grid_spacing,
-- 
2.43.0


From b8437e0dd1770fa1fdae82ab3c645f9b409d1deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:53 +0000
Subject: [PATCH 10/42] fix: take the setpoint difference of a reference part
 from ref_SP_diff

---
 multisim/controls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/controls.py b/multisim/controls.py
index 3aeb346..37a0e31 100644
--- a/multisim/controls.py
+++ b/multisim/controls.py
@@ -295,7 +295,7 @@ class Controls:
             assert 'ref_SP_diff' in kwargs and isinstance(
                 kwargs['ref_SP_diff'], (int, float)
             ), err_str
-            self._ref_diff = float(kwargs['difference_to_ref'])
+            self._ref_diff = float(kwargs['ref_SP_diff'])
 
         # ---> CHECK CTRL ALGORITHMS
         # check if actuator definetely needs a special control (all actuators
-- 
2.43.0


From bd01b943b67dac1ad20513d9effd78edb7bc0735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:53 +0000
Subject: [PATCH 11/42] fix: read the coefficients of a PID controller with
 only an I-term

---
 multisim/parts/controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 691996b..0d00950 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -47,7 +47,7 @@ class PID(Controls):
 
         # GET COEFFICIENTS FOR PID (and loop tuning methods):
         # check if controller is P/I/D
-        if self.terms in ['P', 'PI', 'PD', 'PID']:
+        if self.terms in terms:
             # assert and get loop tuning (coeff. setting) method:
             methods = ('manual', 'tune', 'ziegler-nichols')
             err_str = (
-- 
2.43.0


From 46b64aa09999fe6b1cdcaa205249e66ed9a4a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:53 +0000
Subject: [PATCH 12/42] fix: invert the action of discrete PID controllers, too

---
 multisim/parts/controllers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 0d00950..4d1bd39 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -422,9 +422,12 @@ class PID(Controls):
                 # calculate new control variable with velocity algorithm:
                 self.cv = (
                     self._prev_cv_lim
-                    + self.kp * (self.error - self.prev_error)
-                    + self.ki * timestep * self.error
-                    + self.kd / timestep * self._deriv
+                    + (
+                        self.kp * (self.error - self.prev_error)
+                        + self.ki * timestep * self.error
+                        + self.kd / timestep * self._deriv
+                    )
+                    * self._invert
                 )
             else:
                 # else if no integral term, use standard P/PD algorithm
@@ -448,7 +451,7 @@ class PID(Controls):
                 # with euler backwards differentiation for derivate term:
                 self.cv = (
                     self.kp * self.error + self.kd / timestep * self._deriv
-                )
+                ) * self._invert
             # clip cv value to saturation:
             self._clip_cv_to_saturation()
         else:  # calculate controller output for a continuous time system
-- 
2.43.0


From 872beef49babd3af75cdc4491108d610c1b95e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:08 +0000
Subject: [PATCH 13/42] fix: keep the sign of inverted bang-bang and two sensor
 controllers between switching

---
 multisim/parts/controllers.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 4d1bd39..5571c14 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -541,16 +541,15 @@ class BangBang(Controls):
             if self._reversed:  # reversed action
                 self.cv = self._off_state  # switch off (to off state)
             else:
-                self.cv = self._cv_sat_max  # switch on (to upper sat lim.)
+                # switch on (to upper sat lim., inverted if specified)
+                self.cv = self._cv_sat_max * self._invert
         elif self.pv > (self.sp + self._hysteresis / 2):
             if self._reversed:  # reversed action
-                self.cv = self._cv_sat_max  # switch on (to upper sat lim.)
+                # switch on (to upper sat lim., inverted if specified)
+                self.cv = self._cv_sat_max * self._invert
             else:
                 self.cv = self._off_state  # switch off (to off state)
 
-        # allow direction inversion:
-        self._cv_invert()
-
         # check if controller is depending on another controller:
         self._subcontroller_check()
 
@@ -642,10 +641,10 @@ class TwoSensors(Controls):
         # controller activation
         if self._act_sgn == 'le':
             if self.on_sensor_val[0] < self._act_val:
-                self.cv = self._cv_sat_max
+                self.cv = self._cv_sat_max * self._invert
         else:  # if greater
             if self.on_sensor_val[0] > self._act_val:
-                self.cv = self._cv_sat_max
+                self.cv = self._cv_sat_max * self._invert
         # controller deactivation
         if self._deact_sgn == 'ge':
             if self.pv[0] > self.sp[0]:
@@ -654,9 +653,6 @@ class TwoSensors(Controls):
             if self.pv[0] < self.sp[0]:
                 self.cv = self._off_state
 
-        # allow direction inversion:
-        self._cv_invert()
-
         # check if controller is depending on another controller:
         self._subcontroller_check()
 
-- 
2.43.0


From 512466a0ab42fc7609938d9d52398ea6617ea10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:53 +0000
Subject: [PATCH 14/42] fix: interpolate the delayed PV of controllers with
 dead time within the known values

---
 multisim/controls.py     | 14 ++++++++++++++
 multisim/precomp_funs.py |  8 +++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/multisim/controls.py b/multisim/controls.py
index 37a0e31..d45955a 100644
--- a/multisim/controls.py
+++ b/multisim/controls.py
@@ -865,6 +865,20 @@ class Controls:
                 self.sp = self._ref + self._ref_diff
             # check if deadtime != 0 (also works for np.timedelta64 values)
             if self.deadtime:
+                # extend the deadtime arrays if they are too short to keep the
+                # values until they reach the deadtime:
+                if (
+                    self.last_dt_idx + 1 if self.dt_idx == -1 else self.dt_idx
+                ) + 1 >= self.len_dt_arr:
+                    self.dt_arr = np.append(
+                        self.dt_arr,
+                        np.full(self.len_dt_arr, self.dt_arr[-1]),
+                    )
+                    self.pv_arr = np.append(
+                        self.pv_arr,
+                        np.full(self.len_dt_arr, self.pv_arr[-1]),
+                    )
+                    self.len_dt_arr = self.dt_arr.shape[0]
                 # before extraction of pv add up timestep (time expired since
                 # last call of controller) to deadtime array:
                 (
diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 8b0108c..aa46373 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -3686,11 +3686,9 @@ def ctrl_deadtime(
     # until next step, thus can be reused if no new value is found)
     # if a new value has reached deadtime delay in only one step:
     if dt_idx == 0:
-        # interpolate delayed pv from previous pv, new pv and
-        # expired time and time between prev. and new pv:
-        delayed_pv = delayed_pv + (pv_arr[0] - delayed_pv) / (deadtime) * (
-            dt_arr[0]
-        )
+        # interpolate delayed pv from current pv, previous pv and the time
+        # between prev. and current pv:
+        delayed_pv = pv[0] + (pv_arr[0] - pv[0]) / dt_arr[0] * deadtime
     # if a new value has reached deadtime delay after more than
     # one step:
     elif dt_idx > 0:
-- 
2.43.0


From e8868bc05929a6154def7ecfb53522fde2d25b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:53 +0000
Subject: [PATCH 15/42] fix: apply the dead time of bang-bang controllers

---
 multisim/parts/controllers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 5571c14..3197851 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -537,13 +537,15 @@ class BangBang(Controls):
         self.prev_i_term = 0.0
 
     def run_controller(self, timestep):
-        if self.pv < (self.sp - self._hysteresis / 2):
+        # use the delayed process variable if a deadtime was set:
+        pv = self.delayed_pv if self.deadtime else self.pv[0]
+        if pv < (self.sp - self._hysteresis / 2):
             if self._reversed:  # reversed action
                 self.cv = self._off_state  # switch off (to off state)
             else:
                 # switch on (to upper sat lim., inverted if specified)
                 self.cv = self._cv_sat_max * self._invert
-        elif self.pv > (self.sp + self._hysteresis / 2):
+        elif pv > (self.sp + self._hysteresis / 2):
             if self._reversed:  # reversed action
                 # switch on (to upper sat lim., inverted if specified)
                 self.cv = self._cv_sat_max * self._invert
-- 
2.43.0


From 17f7dc4e977e837b2955464a80d908dbdfb96041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:31 +0000
Subject: [PATCH 16/42] fix: accept time series with sub-second spacing and a
 last step after their end

---
 multisim/simenv.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index d6df4b2..37975ce 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1466,10 +1466,8 @@ class SimEnv:
                 self._SimEnv__BC_timedelta * time_series.index.size
                 > self.timeframe
             ), err_str
-            # add new timeseries in seconds frequency:
-            self._dyn_BC_timevec = time_series.index.values.astype(
-                'datetime64[s]'
-            )
+            # add new timeseries:
+            self._dyn_BC_timevec = time_series.index.values
             # preallocate last step index counter for interpolation:
             self._SimEnv__last_step_t_idx = 0
 
@@ -2735,6 +2733,10 @@ class SimEnv:
             # get index for new first cells after which the new timestep is:
             #            first_idx = int(round(new_idx))
             first_idx = int(new_idx)
+            # the last step may end after the last cell. Keep the last value:
+            last_cell = self._dyn_BC_timevec.size - 1
+            first_idx = min(first_idx, last_cell)
+            next_idx = min(first_idx + 1, last_cell)
             # get leverage for last two cells mean
             lev = new_idx - int(new_idx)
             # loop over boundary conditions:
@@ -2742,7 +2744,7 @@ class SimEnv:
                 # get the leveraged mean value of the steps between which the
                 # current timestep is:
                 lev_mean = (
-                    BC[1][first_idx] * (1 - lev) + BC[1][first_idx + 1] * lev
+                    BC[1][first_idx] * (1 - lev) + BC[1][next_idx] * lev
                 )
                 # if less than or equal to one cell in the timestep index was
                 # done in the last timestep:
-- 
2.43.0


From e438859aa222b789fa77fe2145b6dd2729da7711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:47 +0000
Subject: [PATCH 17/42] fix: apply the opening given to a PipeWith3wValve as
 time series

---
 multisim/parts/pipe_with_valve.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/multisim/parts/pipe_with_valve.py b/multisim/parts/pipe_with_valve.py
index 57a12d2..dff8f0c 100644
--- a/multisim/parts/pipe_with_valve.py
+++ b/multisim/parts/pipe_with_valve.py
@@ -183,10 +183,18 @@ class PipeWith3wValve(Pipe):
         self._pf_arr_init = self.pf_arr.copy()  # bkp for re-initializing
 
         # initialize the actuator
-        self._initialize_actuator(**kwargs)
+        self._initialize_actuator(variable_name='pf_arr', **kwargs)
 
         # expand const var to other ports:
         self._actuator_CV[1] = 1 - self._actuator_CV[0]
+        # expand time series to other ports:
+        if kwargs.get('ctrl_required') is False and 'time_series' in kwargs:
+            self._models.assign_boundary_cond(
+                time_series=1 - kwargs['time_series'],
+                part=self.name,
+                variable_name='pf_arr',
+                array_index=1,
+            )
 
         # add massflow grid argument to input args at correct position:
         self._input_arg_names_sorted.insert(6, 'dm')
-- 
2.43.0


From dc667f06c115aa69f5b020bb0d2dd2224d3439f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:20 +0000
Subject: [PATCH 18/42] fix: restore the complete initial state of parts,
 controllers and time series when resetting

---
 multisim/simenv.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 37975ce..78f9f93 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4785,6 +4785,37 @@ class SimEnv:
             [self.parts[k].res.reshape(-1) for k in self.solve_num_njit.keys()]
         )
 
+    def _backup_init_cond(self):
+        """
+        Backup the initial state of all parts and controllers for resetting.
+        """
+        self._init_cond = [
+            (
+                obj,
+                {
+                    k: v.copy() if isinstance(v, np.ndarray) else v
+                    for k, v in vars(obj).items()
+                    if isinstance(v, (bool, int, float, np.ndarray))
+                },
+            )
+            for obj in (*self.parts.values(), *self.ctrls.values())
+        ]
+
+    def _restore_init_cond(self):
+        """
+        Restore the initial state of all parts and controllers.
+
+        Arrays are restored in place to keep all memory views to them.
+        """
+        for obj, values in self._init_cond:
+            for k, v in values.items():
+                if not isinstance(v, np.ndarray):
+                    setattr(obj, k, v)
+                elif getattr(obj, k).shape == v.shape:
+                    getattr(obj, k)[...] = v
+                else:
+                    setattr(obj, k, v.copy())
+
     def _reset_simenv(self):
         # reset timeframe:
         self.set_timeframe(
@@ -4801,8 +4832,12 @@ class SimEnv:
         for ctrl in self.ctrls.values():
             ctrl._reset_to_init_cond()
 
+        # restore all other values of parts and controllers:
+        self._restore_init_cond()
+
         # reset dynamic boundary conditions:
         self._initialize_dynamic_BC()
+        self._SimEnv__last_step_t_idx = 0
 
     def initialize_sim(self, *, build_simenv=True, reset_simenv=False):
         """
@@ -4826,6 +4861,7 @@ class SimEnv:
 
         if build_simenv:
             self._build_simenv()
+            self._backup_init_cond()
 
         if reset_simenv:
             self._reset_simenv()
-- 
2.43.0


From 0967a13fc376fbb8a7bb404eb69bf985dfee8e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:58 +0000
Subject: [PATCH 19/42] fix: choose the stable step size over all parts instead
 of stopping at the first unstable one

---
 multisim/simenv.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 78f9f93..79e22db 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -3974,6 +3974,7 @@ class SimEnv:
             err = 0.0
             # set step to stable for each new iteration:
             self._step_stable[0] = True
+            stable = True
             # SOLVE STEPS:
             # solve predictor step for all numeric parts:
             for part in solve_num_expl:
@@ -3991,10 +3992,12 @@ class SimEnv:
                 self.parts[part].T[:] = (
                     self.parts[part].T + _h * self.parts[part]._df0
                 )
-                # store breaking part if not stable step
-                if not self._step_stable[0]:
+                # store first breaking part if not stable step. Do not stop
+                # here, since the required stepsize is the minimum over all
+                # parts and must not depend on the order of the parts.
+                if not self._step_stable[0] and stable:
                     self._breaking_part = part
-                    break
+                    stable = False
 
             # =============================================================================
             #             for part in solve_njit:
-- 
2.43.0


From a01ce1d4e22726d87a7d5f8462486ab3959530bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:05 +0000
Subject: [PATCH 20/42] fix: pass on port connection parameters over several
 massless parts independent of their order

---
 multisim/simenv.py | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 79e22db..cd929d4 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1711,6 +1711,39 @@ class SimEnv:
             err_str = '\'all_ports\' only allows boolean values True/False!'
             raise ValueError(err_str)
 
+    def _port_connection_order(self):
+        """
+        Yield the parts in the order in which their port connection parameters
+        have to be set.
+
+        Non-numeric parts pass on the parameters of the parts connected to
+        them, also to other non-numeric parts. They are thus repeated until
+        the parameters of all of them are settled (independent of their order)
+        and followed by the numeric parts.
+        """
+        nonnum = [
+            part for part in self.parts if not self.parts[part].solve_numeric
+        ]
+        old = None
+        for _ in range(100 if nonnum else 0):
+            yield from nonnum
+            new = [
+                np.copy(getattr(self.parts[part], param))
+                for part in nonnum
+                for param in (
+                    '_A_wll_own_p',
+                    '_A_fld_own_p',
+                    'grid_spacing',
+                    '_lam_wll',
+                )
+            ]
+            if old is not None and all(map(np.array_equal, old, new)):
+                break
+            old = new
+        yield from (
+            part for part in self.parts if self.parts[part].solve_numeric
+        )
+
     def _get_port_connections(self):
         """
         Construct tuples containing part+port identifiers.
@@ -1734,16 +1767,7 @@ class SimEnv:
         # since non-numeric parts like pumps and 3w-valves need to pass on the
         # (mean) port connection parameters, these need to be connected before
         # numeric parts. thus get the order for looping over the parts:
-        loop_order = list()
-        for part in self.parts:
-            # if numeric part: append at the end
-            if self.parts[part].solve_numeric:
-                loop_order.append(part)
-            else:
-                # else if non-numeric part: insert at the beginning
-                loop_order.insert(0, part)
-
-        for part in loop_order:
+        for part in self._port_connection_order():
             other_port_key = []
             for i in range(self.parts[part].port_num):
                 self_port_key = (
-- 
2.43.0


From 5d3923838189112b01318eb160e4f126f5f9e431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:19 +0000
Subject: [PATCH 21/42] fix: settle the initial port temperatures of massless
 parts which are connected to each other

---
 multisim/simenv.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index cd929d4..67d59cb 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4743,8 +4743,17 @@ class SimEnv:
             self.parts[part].res_dm = np.zeros(
                 (self.num_steps + 1, self.parts[part].dm.shape[0])
             )
-            self.parts[part].solve(self.timestep)
-            self.parts[part]._update_ports(source='intermediate', nnum=True)
+        # massless parts which are connected to each other need the port values
+        # of the other ones, thus repeat until all values are settled:
+        for _ in range(100):
+            ports_old = self.ports_all.copy()
+            for part in self.solve_nonnum:
+                self.parts[part].solve(self.timestep)
+                self.parts[part]._update_ports(
+                    source='intermediate', nnum=True
+                )
+            if np.array_equal(ports_old, self.ports_all):
+                break
 
         # initialize time vector
         # print(self.num_steps)
-- 
2.43.0


From 7ffc7586ec6934d26c4eff98798f42812ca7a56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:18 +0000
Subject: [PATCH 22/42] fix: take the heat capacity of mixed flows at the
 massflow weighted mean temperature

The arithmetic mean of the inlet temperatures made the outlet of a mixing
valve or three-way connector up to 0.7 K warmer than its only (or by far
larger) inflow when a cold branch was closed or nearly closed.
---
 multisim/precomp_funs.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index aa46373..c3f4081 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -3295,9 +3295,10 @@ def solve_connector_3w(T, ports_all, cp_T, dm, port_link_idx, res, stepnum):
 
     # if 2 ports > 0 are True, 3w connector is mixer:
     if np.sum(dm_in) == 2:
-        # get cp of outflowing massflow (error of mean temp is <<0.5% compared
-        # to a heat cap. ratio calculation, thus negligible and ok):
-        cp_out = cp_water(np.sum(T[dm_in]) / 2)
+        # get cp of outflowing massflow at the massflow weighted mean temp
+        # (error is <<0.5% compared to a heat cap. ratio calculation, thus
+        # negligible and ok):
+        cp_out = cp_water(np.sum(dm[dm_in] * T[dm_in]) / np.sum(dm[dm_in]))
         # calc T_out by mixing the inflowing massflows (*-1 since outgoing
         # massflows have a negative sign):
         T_out = np.sum(dm[dm_in] * cp_T[dm_in] * T[dm_in]) / (
@@ -3589,9 +3590,9 @@ def solve_mix(port_array, _port_link_idx, dm_io, T):
 
     # calc T_out by mixing A and B if there is a flow through the valve
     if dm_io[2] != 0:
-        # get outlet temperature as mean of both inlet temperatures for cp
-        # calculation:
-        T[2] = (T[0] + T[1]) / 2
+        # get outlet temperature as massflow weighted mean of both inlet
+        # temperatures for cp calculation:
+        T[2] = (dm_io[0] * T[0] + dm_io[1] * T[1]) / dm_io[2]
         # get heat capacities:
         cp = cp_water(T)
         # get outlet temperature by mixing the massflows:
-- 
2.43.0


From e8ce569f16f035056a202d78705d6801ad1c014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 23/42] fix: keep the CHP plant within the upper bound of its
 modulation range

---
 multisim/parts/chp_plant.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index 6327128..6208bed 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -692,6 +692,9 @@ class CHPPlant(Pipe):
             else:
                 self._bin_pow_fac = 1.0
                 self._chp_on = True  # chp is on
+                # limit modulation to the upper end of the modulation range:
+                if self._power_modulation[0] > self._mod_upper:
+                    self._power_modulation[0] = self._mod_upper
 
             # detect changes in the state to save start/stop times
             if (state_last_step != 0.0) != self._chp_on:
-- 
2.43.0


From 8482e2cbc1646c588c9fcbaca04d0fcdde3af53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 24/42] fix: start a CHP plant with chp_on_at_start=True in
 operation instead of cold

---
 multisim/parts/chp_plant.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index 6208bed..916883e 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -563,6 +563,8 @@ class CHPPlant(Pipe):
         self.res_Pel = np.zeros((num_steps + 1,) + self._Pel.shape)
         self.res_Pgas = np.zeros((num_steps + 1,) + self._Pgas.shape)
         self._chp_state = np.zeros((num_steps + 1,) + self._chp_state.shape)
+        # state before the first step, non-zero if the CHP is on at the start
+        self._chp_state[0] = self._bin_pow_fac * self._power_modulation[0]
 
     def __deprecated_special_free_memory(
         self, disk_store, part, array_length, hdf_idx, stepnum
-- 
2.43.0


From 94295ca9fe47e027afa269aa6848fb9a5ea24988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 25/42] fix: evaluate CHP timers and ramps for the accepted
 step instead of a rejected try

---
 multisim/parts/chp_plant.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index 916883e..619b252 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -310,6 +310,20 @@ class CHPPlant(Pipe):
         self._shutdown_factor_th = 0.0
         # save last thermal power value before shutdown for shutdown process
         self._last_dQ = np.zeros_like(self._dQ_heating)
+        # operating state which has to be restored if a step is repeated
+        self._state_timestep = 0.0
+        self._state_vars = (
+            '_startup_at_time',
+            '_shutdown_at_time',
+            '_startup_in_progress',
+            '_shutdown_in_progress',
+            '_startup_factor_th',
+            '_startup_factor_el',
+            '_startup_factor_gas',
+            '_shutdown_factor_th',
+            '_remaining_heat',
+            '_dt_time_temp_exc',
+        )
         # percentage values, at which the CHP plant is considered as on/off
         self._chp_on_perc = 0.999
         self._chp_off_perc = 0.01
@@ -674,11 +688,33 @@ class CHPPlant(Pipe):
             }
         )
 
+    def _backup_state(self, timestep):
+        """Save the operating state at the beginning of a step."""
+        self._state_timestep = timestep
+        self._state_bkp = [getattr(self, name) for name in self._state_vars]
+        self._state_bkp_arrays = (
+            self._power_modulation.copy(),
+            self._last_dQ.copy(),
+        )
+
+    def _restore_state(self):
+        """Reset the operating state to the beginning of the step."""
+        for name, value in zip(self._state_vars, self._state_bkp):
+            setattr(self, name, value)
+        self._power_modulation[:], self._last_dQ[:] = self._state_bkp_arrays
+
     def get_diff(self, timestep):
         """Calculate differential of CHP core part."""
+        # if the step was rejected and is now repeated with another stepsize,
+        # undo all changes to the operating state made by the rejected try and
+        # evaluate the state again for the new stepsize
+        if not self._process_flows[0] and timestep != self._state_timestep:
+            self._restore_state()
+            self._process_flows[0] = True
         # process flows is only executed ONCE per timestep, afterwards the bool
         # process_flows is set to False.
         if self._process_flows[0]:  # only if flows not already processed
+            self._backup_state(timestep)
             # get current elapsed time
             curr_time = self._models.time_vec[self.stepnum[0] - 1] + timestep
             # get state of the last step
-- 
2.43.0


From 6a8d67918537d5a3002844b569aff3a0c0824755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 26/42] fix: shorten the startup of a CHP plant only by the
 heat which is really left

The shutdown factor is relative to the heat flow before the shutdown, but was
used as if the previous startup had been completed, so that a plant which was
stopped shortly after its start was restarted with full power. The remaining
heat of an aborted startup was also kept for later cold startups.
---
 multisim/parts/chp_plant.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index 619b252..540ab76 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -767,6 +767,7 @@ class CHPPlant(Pipe):
                     else:  # else allow switching on
                         self._startup_at_time = curr_time  # chp was started
                         self._startup_in_progress = True
+                        self._remaining_heat = 0.0  # of previous startups
             elif self._chp_on:
                 # if CHP was on last step AND is on now, check for ramps
                 # get difference of modulation and absolute ramp per second
@@ -825,9 +826,14 @@ class CHPPlant(Pipe):
                     # look where in startup it can be found. then add this
                     # timestep where it was found to the startup time
                     # (=increase startup duration) to account for remaining
-                    # heat in the system
+                    # heat in the system. The shutdown factor is relative to
+                    # the heat flow reached before the shutdown.
                     self._remaining_heat = np.argmin(
-                        np.abs(self._startuptsteps - self._shutdown_factor_th)
+                        np.abs(
+                            self._startuptsteps
+                            - self._shutdown_factor_th
+                            * self._startup_factor_th
+                        )
                     )
                     # and reset shutdown factor to zero and set shutdown in
                     # progress False to avoid doing this twice:
-- 
2.43.0


From 38e77932cdb4f879e03affd6681ac818199f8b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:23 +0000
Subject: [PATCH 27/42] fix: accumulate heat meters over the steps the flows
 belong to

Massflows are stored with the end of the step in which they flow, but the
meters multiplied them with the length of the following step, so counters
were not zero at the start and did not match the flows for changing steps.
---
 multisim/_utility/meters.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/multisim/_utility/meters.py b/multisim/_utility/meters.py
index 8f1e691..5d019ba 100644
--- a/multisim/_utility/meters.py
+++ b/multisim/_utility/meters.py
@@ -59,6 +59,11 @@ class Meters:
         self.meters_df = pd.DataFrame(
             columns=mid, index=self._meter_time_index
         )
+        # length of the step which *ended* at each row, since massflows and
+        # temperatures are stored at the end of the step they belong to:
+        self._step_vec = np.diff(
+            self._simenv.time_vec, prepend=self._simenv.time_vec[0]
+        )
         # also save meters and dataframe to SimEnv:
         self._simenv.meters = self.meters
         self._simenv.meters_df = self.meters_df
@@ -139,20 +144,20 @@ class Meters:
         # get massflow backup array for only positive values:
         massflow_bkp = mflow.copy()  # double copy not really required, but...
         df['flown_mass_kg'] = np.cumsum(
-            massflow_bkp * self._simenv.time_step_vec
+            massflow_bkp * self._step_vec
         )  # cumsum with neg. vals
         df['flown_volume_m3'] = (
-            df['volume_flow_m3ps'] * self._simenv.time_step_vec
+            df['volume_flow_m3ps'] * self._step_vec
         ).cumsum()
 
         if full_output:  # these are not reqlly _always_ required...
             massflow_bkp[massflow_bkp < 0.0] = 0.0  # set negative to zeros
             df['flown_mass_pos_kg'] = np.cumsum(
-                massflow_bkp * self._simenv.time_step_vec
+                massflow_bkp * self._step_vec
             )  # only pos. cumsum
             df['flown_volume_pos_m3'] = np.cumsum(  # only pos. cumsum
                 massflow_bkp
-                * self._simenv.time_step_vec
+                * self._step_vec
                 / mp.rho_water(df['T_rf'].values)
             )
         # get heatflow in [kW]
@@ -165,14 +170,14 @@ class Meters:
         )
         hf_bkp = df['heatflow_kW'].copy()  # bkp heatflow for only-pos.-cumsum
         df['flown_heat_MJ'] = (
-            np.cumsum(hf_bkp * self._simenv.time_step_vec) / 1e3
+            np.cumsum(hf_bkp * self._step_vec) / 1e3
         )
         df['flown_heat_kWh'] = df['flown_heat_MJ'] / 3.6
 
         if full_output:  # these are not reqlly  _always_ required...
             hf_bkp[hf_bkp < 0.0] = 0.0  # set negative to zeros
             df['flown_heat_pos_MJ'] = (
-                np.cumsum(hf_bkp * self._simenv.time_step_vec) / 1e3
+                np.cumsum(hf_bkp * self._step_vec) / 1e3
             )
             df['flown_heat_pos_kWh'] = df['flown_heat_pos_MJ'] / 3.6
 
-- 
2.43.0


From ec20ba78686fab1edafc1f4ceb65f1840011d41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:23 +0000
Subject: [PATCH 28/42] fix: check the names of volumeflow meters against
 volumeflow meters

---
 multisim/_utility/meters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multisim/_utility/meters.py b/multisim/_utility/meters.py
index 5d019ba..392a9f4 100644
--- a/multisim/_utility/meters.py
+++ b/multisim/_utility/meters.py
@@ -310,9 +310,9 @@ class Meters:
 
         err_str = (
             '`name=' + str(name) + '` has already been assigned to another '
-            'massflow sensor.'
+            'volumeflow sensor.'
         )
-        assert name not in self.meters['massflow'], err_str
+        assert name not in self.meters['volumeflow'], err_str
 
         df = pd.DataFrame(index=self._time_index)  # make dataframe
         # get volumeflow
-- 
2.43.0


From b3a085c9e8089bee028cf9032b129a40360d8b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:35 +0000
Subject: [PATCH 29/42] fix: meters of parts with several flow channels

Massflow, volumeflow and heat meters read the supply side's massflow for
cells of the demand side of a heat exchanger and failed for parts with a
two-dimensional temperature array.
---
 multisim/_utility/meters.py | 22 +++++++++++-----------
 multisim/simenv.py          | 12 +++++++++++-
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/multisim/_utility/meters.py b/multisim/_utility/meters.py
index 392a9f4..cc47755 100644
--- a/multisim/_utility/meters.py
+++ b/multisim/_utility/meters.py
@@ -134,8 +134,8 @@ class Meters:
         df = pd.DataFrame(index=self._time_index)  # make dataframe
 
         # forward and return flow temperature and difference
-        df['T_ff'] = self._simenv.parts[warm_part].res[:, warm_cell]
-        df['T_rf'] = self._simenv.parts[cold_part].res[:, cold_cell]
+        df['T_ff'] = self._get_temperature(warm_part, warm_cell)
+        df['T_rf'] = self._get_temperature(cold_part, cold_cell)
         df['T_diff'] = df['T_ff'] - df['T_rf']
         df['massflow_kgps'] = mflow.copy()  # copy to fix this value
         df['volume_flow_m3ps'] = df['massflow_kgps'] / mp.rho_water(
@@ -229,14 +229,7 @@ class Meters:
 
         df = pd.DataFrame(index=self._time_index)  # make dataframe
         # get temperature
-        if self._simenv.parts[part].res.ndim == 2:
-            df['T_' + name] = self._simenv.parts[part].res[:, cell]
-        elif self._simenv.parts[part].res.ndim > 2:
-            # if ndim of temp array > 1, res.ndim > 3. reshape to a flat
-            # ndim=1 array PER timestep to index with flat index.
-            df['T_' + name] = self._simenv.parts[part].res.reshape(
-                -1, np.prod(self._simenv.parts[part].res.shape[1:])
-            )[:, cell]
+        df['T_' + name] = self._get_temperature(part, cell)
 
         # resample if specified in simenv:
         df = self._resample_meter(df)
@@ -317,7 +310,7 @@ class Meters:
         df = pd.DataFrame(index=self._time_index)  # make dataframe
         # get volumeflow
         df[name] = self._simenv.parts[part].res_dm[:, idx_dm] / mp.rho_water(
-            self._simenv.parts[part].res[:, cell]
+            self._get_temperature(part, cell)
         )
 
         # resample if specified in simenv:
@@ -336,6 +329,13 @@ class Meters:
         if self._disk_saving:  # save to disk:
             self._save_to_disk(name, df)
 
+    def _get_temperature(self, part, cell):
+        """Get temperatures of a cell given as index to the flat array."""
+        # if ndim of temp array > 1, res.ndim > 2. reshape to a flat ndim=1
+        # array PER timestep to index with flat index.
+        res = self._simenv.parts[part].res
+        return res.reshape(-1, np.prod(res.shape[1:]))[:, cell]
+
     def get_sensors_df(self):
         return self.meters_df
 
diff --git a/multisim/simenv.py b/multisim/simenv.py
index 67d59cb..809756b 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -3416,7 +3416,17 @@ class SimEnv:
         )
         # get index to massflow array
         if self.parts[part].dm_invariant:  # if same massflow in flow channel
-            return 0
+            if not getattr(self.parts[part], 'multiple_flows', False):
+                return 0
+            # if part has separate flow channels (hex f.i.), channels are
+            # found in the columns of T (if T is not flat), otherwise the
+            # cells are ordered by channel:
+            T = self.parts[part].T
+            n_chnls = self.parts[part]._dm_io.size
+            if T.ndim > 1:
+                return (index % T.shape[-1]) * n_chnls // T.shape[-1]
+            else:
+                return (index % T.size) * n_chnls // T.size
         else:
             return index
 
-- 
2.43.0


From f99394908377e376ab9facaa9df0f294707b4ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:31 +0000
Subject: [PATCH 30/42] fix: allow meters for simulations which are not saved
 to disk

---
 multisim/_utility/meters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/_utility/meters.py b/multisim/_utility/meters.py
index cc47755..986936c 100644
--- a/multisim/_utility/meters.py
+++ b/multisim/_utility/meters.py
@@ -20,7 +20,7 @@ class Meters:
         self.start_time = pd.to_datetime(start_time)
 
         # get resampling specs:
-        if self._simenv._disk_store['resample']:
+        if self._simenv._disk_store.get('resample', False):
             self._resample = True
             self._resample_freq = self._simenv._disk_store['resample_freq']
         else:
-- 
2.43.0


From 290266d9a74f00b1ec676558b58bdada2ad4ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:26 +0000
Subject: [PATCH 31/42] fix: refuse ports which are connected twice in every
 order of connecting

A second connection of the same first port replaced the first one before it
was made, so that contradicting connections were accepted silently.
---
 multisim/simenv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 809756b..2b9b9ea 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1956,8 +1956,10 @@ class SimEnv:
         #                lambda: self._connect_ports(
         #                        first_part=first_part, first_port=first_port,
         #                        scnd_part=scnd_part, scnd_port=scnd_port))
+        # (all names are part of the key, so that connecting a port twice is
+        # noticed by `_connect_ports` instead of dropping the first connection)
         self.__postpone['connect_ports'][
-            first_part + ';' + first_port
+            ';'.join((first_part, first_port, scnd_part, scnd_port))
         ] = _partial(
             self._connect_ports,
             first_part=first_part,
-- 
2.43.0


From 3621777ce3f9270d42c797e372550839d054311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:12 +0000
Subject: [PATCH 32/42] fix: calculate the adjusted coefficient of
 determination from data

r_squared_adj stopped in the debugger when called with y and y_hat.
---
 multisim/_utility/stat_error_measures.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/multisim/_utility/stat_error_measures.py b/multisim/_utility/stat_error_measures.py
index 19d4a3e..da42c09 100644
--- a/multisim/_utility/stat_error_measures.py
+++ b/multisim/_utility/stat_error_measures.py
@@ -87,9 +87,6 @@ def r_squared_adj(p, r_sqrd=None, n=None, y=None, y_hat=None):
             'If `r_sqrd` is not given, `y` and `y_hat` must be given and'
             '`n` must not be given.'
         )
-        breakpoint()
-        print('false! n must be of the training data set!!!')
-        print('also avoid printing R for p>n! raise error!')
         r_sqrd = r_squared(y, y_hat)  # get R^2
         n = y_hat.shape[0]  # get number of samples
     # set r2 range correctly (-inf -> 1. or -inf ->100.)
-- 
2.43.0


From 7136d723c4038b4ad8350f7dc0910a72d43f9d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:26 +0000
Subject: [PATCH 33/42] fix: coefficient of determination of several measured
 columns

The total sum of squares was taken over all columns, although the
coefficient is calculated for each column separately.
---
 multisim/_utility/stat_error_measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/_utility/stat_error_measures.py b/multisim/_utility/stat_error_measures.py
index da42c09..78a06d8 100644
--- a/multisim/_utility/stat_error_measures.py
+++ b/multisim/_utility/stat_error_measures.py
@@ -40,7 +40,7 @@ def r_squared(y, y_hat):
     elif y_hat.ndim > 2:
         raise ValueError
     ss_res = ((y - y_hat) ** 2).sum(axis=0)  # residuals
-    ss_tot = ((y - y.mean(axis=0)) ** 2).sum()  # total sum of squares
+    ss_tot = ((y - y.mean(axis=0)) ** 2).sum(axis=0)  # total sum of squares
     return 1 - ss_res / ss_tot
 
 
-- 
2.43.0


From 1d02d29a107a4260d528c07b0422afed15e2fffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:34 +0000
Subject: [PATCH 34/42] fix: look up the pipe specifications of single ports in
 the catalogue

The documented way to give each port its own pipe_type and DN raised a
KeyError, since the catalogue has the pipes in its columns. Connectors and
mixing valves have no port called in.
---
 multisim/parts/connector_3w.py | 4 ++--
 multisim/parts/mixingvalve.py  | 4 ++--
 multisim/simenv.py             | 8 +++-----
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/multisim/parts/connector_3w.py b/multisim/parts/connector_3w.py
index c5d149f..62b7fe2 100644
--- a/multisim/parts/connector_3w.py
+++ b/multisim/parts/connector_3w.py
@@ -233,8 +233,8 @@ class Connector3w(SimEnv):
         # will be overwritten and filled by get_port_connections() method with
         # connected part values, if any numeric parts are connected.
         # therefore get the info topology key:
-        if 'in' in self.info_topology:
-            key = 'in'
+        if self.port_names[0] in self.info_topology:
+            key = self.port_names[0]
         else:
             key = 'all_ports'
         self.grid_spacing = np.full_like(
diff --git a/multisim/parts/mixingvalve.py b/multisim/parts/mixingvalve.py
index 453be94..3877507 100644
--- a/multisim/parts/mixingvalve.py
+++ b/multisim/parts/mixingvalve.py
@@ -257,8 +257,8 @@ class MixingValve(SimEnv):
         # will be overwritten and filled by get_port_connections() method with
         # connected part values, if any numeric parts are connected.
         # therefore get the info topology key:
-        if 'in' in self.info_topology:
-            key = 'in'
+        if self.port_names[0] in self.info_topology:
+            key = self.port_names[0]
         else:
             key = 'all_ports'
         self.grid_spacing = np.full_like(
diff --git a/multisim/simenv.py b/multisim/simenv.py
index 2b9b9ea..b1265d7 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -3681,12 +3681,10 @@ class SimEnv:
                     if get_from_table:
                         self._A_wll_own_p[
                             trgt_idx
-                        ] = self._models._pipe_specs.loc[pipe_type, DN][
-                            'A_wall'
-                        ]
+                        ] = self._models._pipe_specs[pipe_type, DN].A_wall
                         self._A_fld_own_p[
                             trgt_idx
-                        ] = self._models._pipe_specs.loc[pipe_type, DN]['A_i']
+                        ] = self._models._pipe_specs[pipe_type, DN].A_i
                     else:
                         self._A_wll_own_p[trgt_idx] = value['A_wall']
                         self._A_fld_own_p[trgt_idx] = value['A_i']
@@ -3699,7 +3697,7 @@ class SimEnv:
                             'pipe_type': pipe_type,
                             'DN': DN,
                             'pipe_specs': (
-                                self._models._pipe_specs.loc[pipe_type, DN]
+                                self._models._pipe_specs[pipe_type, DN]
                             )
                             if get_from_table
                             else value,
-- 
2.43.0


From b4a085fc8a19b0b6ceb89b989972aab12fbdb6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:37 +0000
Subject: [PATCH 35/42] fix: pipes with self defined cross sections

Pipe specifications may give A_i and A_wall instead of a DN, but all parts
using the diameters failed with a KeyError.
---
 multisim/simenv.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index b1265d7..0d450a0 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -3567,6 +3567,13 @@ class SimEnv:
                     DN = 'self defined, Ai: {0:.3G}, Awall: {1:.3G}'.format(
                         value['A_i'], value['A_wall']
                     )
+                    # add the diameters belonging to the areas:
+                    value = dict(value)
+                    value.setdefault('d_i', (4 * value['A_i'] / np.pi) ** 0.5)
+                    value.setdefault(
+                        'd_o',
+                        (4 * (value['A_i'] + value['A_wall']) / np.pi) ** 0.5,
+                    )
                 # assert correct pipe specs:
                 err_str = (
                     self._base_err
-- 
2.43.0


From 1de895342c0357ee97bddf49bb3de6044c2f3712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:24 +0000
Subject: [PATCH 36/42] fix: interpolate pipe specifications on all platforms
 and for all pipe types

The catalogue was looked up with a Windows path; sizes which do not exist
(zero rows) spoiled the interpolation of heavy pipes, adjusted heavy pipes got
the walls of medium ones and sizes of the catalogue themselves were replaced by
interpolated ones.
---
 multisim/utility_functions.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 047ab30..bea74b3 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -454,10 +454,11 @@ def interp_pipe_specs(A_i, pipe_type='EN10255_medium', base_pth=None):
     else:
         ps = pd.read_pickle(
             os.path.join(
-                os.path.dirname(__file__), 'data_tables\\pipe_specs.pkl'
+                os.path.dirname(__file__), 'data_tables', 'pipe_specs.pkl'
             )
         )
     ps_tp = ps.loc[:, pipe_type].copy().T
+    ps_tp = ps_tp[ps_tp['A_i'] > 0]  # sizes which do not exist are zero
     # set a high and low value with the last/first gradient to get some
     # "extra"polation:
     grad_hi = ps_tp.iloc[-1] / ps_tp.iloc[-2]
@@ -478,7 +479,7 @@ def interp_pipe_specs(A_i, pipe_type='EN10255_medium', base_pth=None):
     elif not isinstance(A_i, (list, tuple)):
         raise TypeError
     for ai in A_i:
-        if ai in (new_val_lo, new_val_hi):
+        if ai in ps_tp.index:  # known size
             continue
         ps_tp.loc[ai] = np.nan
     # cubic interp for cubic relation of diameter to area
@@ -519,19 +520,27 @@ def adjust_pipes(pspecs, base_path=None):
         assert isinstance(v[1], (float, int)), err_str
     # read pipe specs reference table
     ps_table = pd.read_pickle(
-        os.path.join(os.path.dirname(__file__), 'data_tables\\pipe_specs.pkl')
+        os.path.join(
+            os.path.dirname(__file__), 'data_tables', 'pipe_specs.pkl'
+        )
     )
     # extract A_i from table and multiplicate values by mult factor
     ai_vals = {
-        k: ps_table.loc['A_i', tuple(v[0]['all'].values())] * v[1]
+        k: ps_table.loc['A_i', (v[0]['all']['pipe_type'], v[0]['all']['DN'])]
+        * v[1]
         for k, v in pspecs.items()
     }
-    pipe_specs = interp_pipe_specs(
-        A_i=list(ai_vals.values()), base_pth=base_path
-    )
     _pspecs = {
-        k: {'all': vals[1].to_dict()}
-        for k, vals in zip(ai_vals.keys(), pipe_specs.iterrows())
+        k: {
+            'all': interp_pipe_specs(
+                A_i=float(ai),
+                pipe_type=pspecs[k][0]['all']['pipe_type'],
+                base_pth=base_path,
+            )
+            .iloc[0]
+            .to_dict()
+        }
+        for k, ai in ai_vals.items()
     }
     for k, v in _pspecs.items():
         v['all']['pipe_type'] = pspecs[k][0]['all']['pipe_type']
-- 
2.43.0


From e3af7552decceb6432201659e6dc3962054fa98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:06 +0000
Subject: [PATCH 37/42] fix: place ports of branched pipes by volume

Positions of new ports may be given as volume, but the volume of branched
pipes was not known yet when placing them.
---
 multisim/parts/pipe_branched.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/multisim/parts/pipe_branched.py b/multisim/parts/pipe_branched.py
index 5f8a135..371a254 100644
--- a/multisim/parts/pipe_branched.py
+++ b/multisim/parts/pipe_branched.py
@@ -60,6 +60,15 @@ class PipeBranched(Pipe):
         # if ports can be added to this part:
         self.can_add_ports = True
 
+        # positions given as volume need the cross section of the pipe:
+        if any(
+            isinstance(port, list) and 'volume' in port
+            for port in (kwargs.get('new_ports') or {}).values()
+        ):
+            self._get_specs_n_props(**kwargs)
+            self._V_total = self._A_fld_own_p * self.length
+            self.V_cell = self._V_total / self.num_gp
+
         # add ports
         self._add_ports(**kwargs)
 
-- 
2.43.0


From be46f6083d50710532822f27233d2a040669a69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:54 +0000
Subject: [PATCH 38/42] fix: sensors at the ports of numeric heat exchangers

Controllers took the flat index of a port as row index of the temperatures of
parts with more than one dimension and failed or got a whole row.
---
 multisim/controls.py          | 31 +++++++++++++++++++------------
 multisim/parts/controllers.py | 12 ++++++------
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/multisim/controls.py b/multisim/controls.py
index d45955a..5d69fbc 100644
--- a/multisim/controls.py
+++ b/multisim/controls.py
@@ -202,9 +202,7 @@ class Controls:
         # get memoryview to controlled port value as process variable using
         # the port/cell ID ([id:id+1:1] to slice and also enable getting last
         # value in array):
-        self.pv = self._models.parts[self.ctrl_part].T[
-            self.ctrl_port_id : self.ctrl_port_id + 1 : 1
-        ]
+        self.pv = self._sensor_view(self.ctrl_part, self.ctrl_port_id)
 
         # if reference part and port are set, get IDs and memoryview:
         err_str = (
@@ -252,9 +250,7 @@ class Controls:
             # using the port/cell ID. This will be summed up with the
             # differece value, if given, and passed to to controller as
             # setpoint variable
-            self._ref = self._models.parts[self.ref_part].T[
-                self.ref_port_id : self.ref_port_id + 1 : 1
-            ]
+            self._ref = self._sensor_view(self.ref_part, self.ref_port_id)
             # save bool that ref port is used:
             self.use_ref = True
         else:
@@ -963,6 +959,17 @@ class Controls:
                         # also erase i-term since no CV means no error:
                         self.i_term = 0.0
 
+    def _sensor_view(self, part, idx):
+        """
+        Get a memoryview of size 1 to the temperature of a cell.
+
+        Cells of parts with more than one dimension are counted like in the
+        flattened array, as it is done for their ports.
+        """
+        temp = self._models.parts[part].T
+        *axes, last = np.unravel_index(idx, temp.shape)
+        return temp[(*axes, slice(last, last + 1))]
+
     def __check_args(self, part, port='no_port', caller='not_given', **kwargs):
         """
         Check for the existence of the given part and/or port.
@@ -1065,7 +1072,7 @@ class Controls:
                         'prt': port,
                         'actr': self.actuator,
                         'name': self.name,
-                        'uidx': self._models.parts[given_part].T.shape[0],
+                        'uidx': self._models.parts[given_part].T.size,
                         'ports': self._models.parts[given_part].port_names,
                     }
                 )
@@ -1077,7 +1084,7 @@ class Controls:
                 base_err
                 + 'The port index `{gpo}` at part `{gpa}` passed to {cllr} as '
                 '{prt} for actuator `{actr}` of controller `{name}` is '
-                'out of bounds for axis 0 with size {sz}.'
+                'out of bounds for size {sz}.'
             ).format_map(
                 {
                     'gpo': given_port,
@@ -1086,17 +1093,17 @@ class Controls:
                     'prt': port,
                     'actr': self.actuator,
                     'name': self.name,
-                    'sz': self._models.parts[given_part].T.shape[0],
+                    'sz': self._models.parts[given_part].T.size,
                 }
             )
             assert (  # assert that index is in range (pos. and negative!)
-                0 <= given_port < self._models.parts[given_part].T.shape[0]
-                or -self._models.parts[given_part].T.shape[0] <= given_port < 0
+                0 <= given_port < self._models.parts[given_part].T.size
+                or -self._models.parts[given_part].T.size <= given_port < 0
             ), err_str
             given_port = (  # calculate pos. index if negative, else take pos.
                 given_port
                 if given_port > -1
-                else self._models.parts[given_part].T.shape[0] + given_port
+                else self._models.parts[given_part].T.size + given_port
             )
         elif type(given_port) != int:
             err_str = (
diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 3197851..51aa769 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -596,9 +596,9 @@ class TwoSensors(Controls):
             on_sensor_part=kwargs['on_sensor_part'],
             on_sensor_port=kwargs['on_sensor_port'],
         )
-        self.on_sensor_val = self._models.parts[self._on_sens_part].T[
-            self._on_sens_idx : self._on_sens_idx + 1 : 1
-        ]
+        self.on_sensor_val = self._sensor_view(
+            self._on_sens_part, self._on_sens_idx
+        )
 
         erac = (
             self._base_err
@@ -694,9 +694,9 @@ class ModelPredCHP(Controls):
             on_sensor_part=kwds['on_sensor_part'],
             on_sensor_port=kwds['on_sensor_port'],
         )
-        self.on_sensor_val = self._models.parts[self._on_sens_part].T[
-            self._on_sens_idx : self._on_sens_idx + 1 : 1
-        ]
+        self.on_sensor_val = self._sensor_view(
+            self._on_sens_part, self._on_sens_idx
+        )
 
         erac = (
             self._base_err
-- 
2.43.0


From 7852c7107514ae0779b1a8d7daf6d8523228cd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:17 +0000
Subject: [PATCH 39/42] fix: R^2 of several columns in utility_functions uses
 each column's own variation

---
 multisim/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index bea74b3..b10d241 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -714,7 +714,7 @@ def r_squared(y, y_hat):
     elif y_hat.ndim > 2:
         raise ValueError
     ss_res = ((y - y_hat) ** 2).sum(axis=0)  # residuals
-    ss_tot = ((y - y.mean(axis=0)) ** 2).sum()  # total sum of squares
+    ss_tot = ((y - y.mean(axis=0)) ** 2).sum(axis=0)  # total sum of squares
     return 1 - ss_res / ss_tot
 
 
-- 
2.43.0


From 13dd5c0eb710f57ae326130137bdebbcce8d7390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:51 +0000
Subject: [PATCH 40/42] fix: database_import finds the bundled tables on every
 system

---
 multisim/utility_functions.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index b10d241..f0636f2 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -562,35 +562,32 @@ def database_import(*, standard_db=True, path=None, which='all'):
             pth = os.path.dirname(os.path.realpath(__file__))
         except NameError:  # if frozen as executable
             pth = os.path.dirname(os.path.realpath(sys.argv[0]))
-        pth = pth + r'\data_tables'  # append datatables path
+        pth = os.path.join(pth, 'data_tables')  # append datatables path
         # find path to all pickled databases
         files = _glob.glob(os.path.join(pth, '*.pkl'))
         if which == 'all':  # import all databases
             for file in files:
                 #  get name by splitting strings:
-                db_name = file.split('\\')[-1].split('.')[0]
+                db_name = os.path.splitext(os.path.basename(file))[0]
                 dbs[db_name] = pd.read_pickle(file)
         else:  # else if not all shall be imported:
             for db in which:
-                pth = pth + db + '.pkl'
-                db_name = pth.split('\\')[-1].split('.')[0]
-                dbs[db_name] = pd.read_pickle(file)
+                dbs[db] = pd.read_pickle(os.path.join(pth, db + '.pkl'))
     else:  # else if not standard databases
         if not path:  # if path not given, get it from dialog
             from tkinter.filedialog import askdirectory
 
-            pth = askdirectory(initialdir="D:/LRZ-SnS/Objekte")
+            path = askdirectory(initialdir="D:/LRZ-SnS/Objekte")
+        pth = path
         if which == 'all':  # if all databases should be loaded from path
             files = _glob.glob(os.path.join(pth, '*.pkl'))  # get all pickles
             for file in files:
                 #  get name by splitting strings:
-                db_name = file.split('\\')[-1].split('.')[0]
+                db_name = os.path.splitext(os.path.basename(file))[0]
                 dbs[db_name] = pd.read_pickle(file)
         else:  # else if not all shall be imported:
             for db in which:
-                pth = pth + db + '.pkl'
-                db_name = pth.split('\\')[-1].split('.')[0]
-                dbs[db_name] = pd.read_pickle(file)
+                dbs[db] = pd.read_pickle(os.path.join(pth, db + '.pkl'))
 
     return dbs  # return database dict
 
-- 
2.43.0


From 1fb2bea885db376936149bd84ca55d01e78b7319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:51 +0000
Subject: [PATCH 41/42] fix: plant modules pass the insulation under its
 present names

---
 multisim/parts/part_modules/consumers.py |  8 ++--
 multisim/parts/part_modules/suppliers.py | 52 ++++++++++++------------
 2 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/multisim/parts/part_modules/consumers.py b/multisim/parts/part_modules/consumers.py
index 8075ef2..c5b895f 100644
--- a/multisim/parts/part_modules/consumers.py
+++ b/multisim/parts/part_modules/consumers.py
@@ -1288,8 +1288,8 @@ def space_heating(
         name='pwp_sh_ff_{0}'.format(segment_name),
         length=1,
         grid_points=2,
-        s_ins=0.05,
-        lambda_ins=0.03,
+        insulation_thickness=0.05,
+        insulation_lambda=0.03,
         material='carbon_steel',
         pipe_specs=pspecs['pwp_ff'],
         T_init=sh_theta_ff_init,
@@ -1319,8 +1319,8 @@ def space_heating(
         name='pb_sh_rf_{0}'.format(segment_name),
         length=5,
         grid_points=10,
-        s_ins=0.1,
-        lambda_ins=0.035,
+        insulation_thickness=0.1,
+        insulation_lambda=0.035,
         material='carbon_steel',
         pipe_specs=pspecs['pwp_ff'],
         T_init=sh_theta_rf_init,
diff --git a/multisim/parts/part_modules/suppliers.py b/multisim/parts/part_modules/suppliers.py
index e33489e..307e241 100644
--- a/multisim/parts/part_modules/suppliers.py
+++ b/multisim/parts/part_modules/suppliers.py
@@ -145,8 +145,8 @@ def chp_with_fghex(
             length=2.5,
             grid_points=6,
             **chp_kwds,
-            s_ins=0.2,
-            lambda_ins=0.035,
+            insulation_thickness=0.2,
+            insulation_lambda=0.035,
             T_init=71.0,
             T_amb=Tamb,
             material='carbon_steel',
@@ -170,8 +170,8 @@ def chp_with_fghex(
             length=2.5,
             grid_points=6,
             **chp_kwds,
-            s_ins=0.2,
-            lambda_ins=0.035,
+            insulation_thickness=0.2,
+            insulation_lambda=0.035,
             T_init=71.0,
             T_amb=Tamb,
             material='carbon_steel',
@@ -188,8 +188,8 @@ def chp_with_fghex(
         name='pwp_chp_ff_{0}'.format(segment_name),
         length=4,
         grid_points=15,
-        s_ins=0.05,
-        lambda_ins=0.03,
+        insulation_thickness=0.05,
+        insulation_lambda=0.03,
         material='carbon_steel',
         pipe_specs=pspecs['pwp_ff'],
         T_init=np.full(15, chp_kwds['theta_ff']),
@@ -221,8 +221,8 @@ def chp_with_fghex(
             name='p3v_chp_rf_{0}'.format(segment_name),
             length=2,
             grid_points=7,
-            s_ins=0.05,
-            lambda_ins=0.03,
+            insulation_thickness=0.05,
+            insulation_lambda=0.03,
             material='carbon_steel',
             pipe_specs=pspecs['p3v_rf'],
             T_init=np.hstack((np.full(2, 38.0), np.full(5, 52.5))),
@@ -246,8 +246,8 @@ def chp_with_fghex(
             name='p_chp_rf_lt_{0}'.format(segment_name),
             length=7,
             grid_points=30,
-            s_ins=0.05,
-            lambda_ins=0.03,
+            insulation_thickness=0.05,
+            insulation_lambda=0.03,
             material='carbon_steel',
             pipe_specs=pspecs['p_rf_lt'],
             T_init=26.0,
@@ -262,8 +262,8 @@ def chp_with_fghex(
             name='p3v_chp_rf_htA_{0}'.format(segment_name),
             length=7,
             grid_points=20,
-            s_ins=0.05,
-            lambda_ins=0.03,
+            insulation_thickness=0.05,
+            insulation_lambda=0.03,
             material='carbon_steel',
             pipe_specs=pspecs['p3v_htrfA'],
             T_init=np.hstack(
@@ -293,8 +293,8 @@ def chp_with_fghex(
             name='p_chp_rf_htB_{0}'.format(segment_name),
             length=2,
             grid_points=8,
-            s_ins=0.05,
-            lambda_ins=0.03,
+            insulation_thickness=0.05,
+            insulation_lambda=0.03,
             material='carbon_steel',
             pipe_specs=pspecs['p_htrfB'],
             T_init=51.5,
@@ -389,8 +389,8 @@ def chp_with_fghex(
             name='p3v_chp_rf_{0}'.format(segment_name),
             length=2,
             grid_points=7,
-            s_ins=0.05,
-            lambda_ins=0.03,
+            insulation_thickness=0.05,
+            insulation_lambda=0.03,
             material='carbon_steel',
             pipe_specs=pspecs['p3v_rf'],
             T_init=np.hstack((np.full(2, 38.0), np.full(5, 52.5))),
@@ -414,8 +414,8 @@ def chp_with_fghex(
             name='p_chp_rf_lt_{0}'.format(segment_name),
             length=7,
             grid_points=30,
-            s_ins=0.05,
-            lambda_ins=0.03,
+            insulation_thickness=0.05,
+            insulation_lambda=0.03,
             material='carbon_steel',
             pipe_specs=pspecs['p_rf_lt'],
             T_init=26.0,
@@ -429,8 +429,8 @@ def chp_with_fghex(
             name='p_chp_rf_ht_{0}'.format(segment_name),
             length=7,
             grid_points=30,
-            s_ins=0.05,
-            lambda_ins=0.03,
+            insulation_thickness=0.05,
+            insulation_lambda=0.03,
             material='carbon_steel',
             pipe_specs=pspecs['p_htrf'],
             T_init=np.full(30, 56.0),
@@ -519,8 +519,8 @@ def chp_with_fghex(
             name='p_chp_rf_{0}'.format(segment_name),
             length=2,
             grid_points=6,
-            s_ins=0.05,
-            lambda_ins=0.03,
+            insulation_thickness=0.05,
+            insulation_lambda=0.03,
             material='carbon_steel',
             pipe_specs=pspecs['p_rf'],
             T_init=np.full(6, 45.0),
@@ -539,8 +539,8 @@ def chp_with_fghex(
             name='p_chp_rf_lt_{0}'.format(segment_name),
             length=7,
             grid_points=21,
-            s_ins=0.05,
-            lambda_ins=0.03,
+            insulation_thickness=0.05,
+            insulation_lambda=0.03,
             material='carbon_steel',
             pipe_specs=pspecs['p_rf'],
             T_init=26.0,
@@ -617,8 +617,8 @@ def chp_with_fghex(
             name='p_chp_rf_{0}'.format(segment_name),
             length=9,
             grid_points=27,
-            s_ins=0.05,
-            lambda_ins=0.03,
+            insulation_thickness=0.05,
+            insulation_lambda=0.03,
             material='carbon_steel',
             pipe_specs=pspecs['p_rf'],
             T_init=np.full(27, 45.0),
-- 
2.43.0


From 8e78a2ea90fe04ce722eae01266df7515a514a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:51 +0000
Subject: [PATCH 42/42] fix: default cold water port of speicherladesys is
 accepted by the storage

---
 multisim/parts/part_modules/consumers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/parts/part_modules/consumers.py b/multisim/parts/part_modules/consumers.py
index c5b895f..ecfd5ea 100644
--- a/multisim/parts/part_modules/consumers.py
+++ b/multisim/parts/part_modules/consumers.py
@@ -615,7 +615,7 @@ def speicherladesys(
     store_ports={
         'ff_tes': [0.0, 'volume'],
         'rc': [round(0.4 * 40), 'index'],
-        'cw': [-2, 'index'],
+        'cw': [40 - 2, 'index'],
     },
     segment_name='1',
     adjust_pipes=True,
-- 
2.43.0

