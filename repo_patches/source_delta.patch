From 814cf38cbf147c81955c37b5c37eafa420cc245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:10 +0000
Subject: [PATCH 01/54] fix: clamp battery charge to max_capacity after
 rounding

Charging to the brim can leave the charge an ulp above max_capacity; the next
charge request then failed an internal assertion (negative max_consumption).
The lower bound was already clamped, the upper bound was not.
---
 src/pymgrid/modules/battery_module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymgrid/modules/battery_module.py b/src/pymgrid/modules/battery_module.py
index 67692a5..73b26d1 100644
--- a/src/pymgrid/modules/battery_module.py
+++ b/src/pymgrid/modules/battery_module.py
@@ -127,6 +127,9 @@ class BatteryModule(BaseMicrogridModule):
         if self._current_charge < self.min_capacity:
             assert np.isclose(self._current_charge, self.min_capacity)
             self._current_charge = self.min_capacity
+        elif self._current_charge > self.max_capacity:
+            assert np.isclose(self._current_charge, self.max_capacity)
+            self._current_charge = self.max_capacity
         self._soc = self._current_charge/self.max_capacity
 
     def get_cost(self, energy_change):
-- 
2.43.0


From fa0acf1d598b8118d6790a2e25c19a869f6bec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:10 +0000
Subject: [PATCH 02/54] fix: battery action bounds mixed up max_charge and
 max_discharge

A positive action discharges, a negative one charges. With max_charge !=
max_discharge part of the battery's range was unreachable with normalized
actions and the rest of the action space was clipped.
---
 src/pymgrid/modules/battery_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/modules/battery_module.py b/src/pymgrid/modules/battery_module.py
index 73b26d1..dbaf01c 100644
--- a/src/pymgrid/modules/battery_module.py
+++ b/src/pymgrid/modules/battery_module.py
@@ -334,11 +334,11 @@ class BatteryModule(BaseMicrogridModule):
 
     @property
     def min_act(self):
-        return -self.max_discharge / self.efficiency
+        return -self.max_charge / self.efficiency
 
     @property
     def max_act(self):
-        return self.max_charge * self.efficiency
+        return self.max_discharge * self.efficiency
 
     @property
     def production_marginal_cost(self):
-- 
2.43.0


From b8965658faa4649d2e4602690f27b17fbd888dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:10 +0000
Subject: [PATCH 03/54] fix: BaseMicrogridModule.logger_last iterated over keys
 instead of items

---
 src/pymgrid/modules/base/base_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 60a25ac..a76852a 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -463,7 +463,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
         entry : dict
 
         """
-        return {k: v[-1] for k, v in self._logger}
+        return {k: v[-1] for k, v in self._logger.items()}
 
     @logger.setter
     def logger(self, logger):
-- 
2.43.0


From fb5f63787f59b4af26dbb68b38d2738e4a8f44bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:10 +0000
Subject: [PATCH 04/54] fix: gensets with allow_abortion=False could not change
 status

A new status change was treated like the abortion of one in progress, so it
never began unless instantaneous, and next_status ignored that a change in
progress goes on regardless of the goal status.
---
 src/pymgrid/modules/genset_module.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index 4369c27..aa1f716 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -286,9 +286,8 @@ class GensetModule(BaseMicrogridModule):
             assert self._steps_until_down == 0 or self._steps_until_up == 0
             return
 
-        instant_up = self.start_up_time == 0 and goal_status == 1
-        instant_down = self.wind_down_time == 0 and goal_status == 0
-        if goal_status != self._goal_status and (self.allow_abortion or instant_up or instant_down):
+        change_in_progress = self._current_status != self._goal_status
+        if goal_status != self._goal_status and (self.allow_abortion or not change_in_progress):
             self._goal_status = goal_status
 
         finished_change = self._finish_in_progress_change()
@@ -374,6 +373,10 @@ class GensetModule(BaseMicrogridModule):
             The next status given the current status and the goal status.
 
         """
+        if not self.allow_abortion and self._current_status != self._goal_status:
+            # The status change in progress can not be aborted.
+            goal_status = self._goal_status
+
         if goal_status:
             if self._current_status:
                 return 1
-- 
2.43.0


From b8d0fd1765a07b438516500f0b3726668bc1a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:14 +0000
Subject: [PATCH 05/54] fix: Microgrid.get_log failed in episodes that do not
 start at initial_step

With a trajectory function the modules start at the step the trajectory
returns, so the index of the log did not match the number of rows.
---
 src/pymgrid/microgrid/microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 79049c0..5e29e98 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -463,7 +463,7 @@ class Microgrid(yaml.YAMLObject):
 
         col_names = ['module_name', 'module_number', 'field']
 
-        df = pd.DataFrame(_log_dict, index=pd.RangeIndex(start=self.initial_step, stop=self.current_step))
+        df = pd.DataFrame(_log_dict, index=pd.RangeIndex(start=self.current_step - len(self._balance_logger), stop=self.current_step))
         df.columns = pd.MultiIndex.from_tuples(df.columns.to_list(), names=col_names)
 
         if drop_singleton_key:
-- 
2.43.0


From d218e738c31f0b0264c618fae9c69a141fefd333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:05 +0000
Subject: [PATCH 06/54] fix: built-in reward shapers missed modules and failed
 on valid steps

The battery shaper looked for loss load under a name the default balancing
module does not have, dropped the discharge of all batteries when one of them
was charging, and failed an assertion when there was no load or when a battery
discharged more (or less) than the load. The curtailment shaper ignored
renewables with the default name.
---
 src/pymgrid/microgrid/reward_shaping/base.py       |  6 +-----
 .../reward_shaping/battery_discharge_shaper.py     | 14 +++++---------
 .../reward_shaping/pv_curtailment_shaper.py        |  2 +-
 3 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/pymgrid/microgrid/reward_shaping/base.py b/src/pymgrid/microgrid/reward_shaping/base.py
index f127af1..317887f 100644
--- a/src/pymgrid/microgrid/reward_shaping/base.py
+++ b/src/pymgrid/microgrid/reward_shaping/base.py
@@ -9,11 +9,7 @@ class BaseRewardShaper(yaml.YAMLObject):
 
     @staticmethod
     def sum_module_val(info, module_name, module_attr):
-        try:
-            module_info = info[module_name]
-            return sum([d[module_attr] for d in module_info])
-        except KeyError:
-            return 0.0
+        return sum([d.get(module_attr, 0.0) for d in info.get(module_name, [])], 0.0)
 
     @abstractmethod
     def __call__(self, step_info, cost_info):
diff --git a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
index 073f519..87e94ca 100644
--- a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
+++ b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
@@ -1,5 +1,3 @@
-import numpy as np
-
 from pymgrid.microgrid.reward_shaping.base import BaseRewardShaper
 
 
@@ -22,13 +20,11 @@ class BatteryDischargeShaper(BaseRewardShaper):
     def __call__(self, step_info, cost_info):
         battery_discharge = self.sum_module_val(step_info, 'battery', 'provided_energy')
         load = self.sum_module_val(step_info, 'load', 'absorbed_energy')
-        loss_load = self.sum_module_val(step_info, 'unbalanced_energy', 'provided_energy')
+        loss_load = sum(self.sum_module_val(step_info, name, 'provided_energy')
+                        for name in ('unbalanced_energy', 'balancing'))
 
-        # battery_discharge is in [0, load-loss_load]; loss_load is in [0, load].
-        try:
-            percent_battery = (battery_discharge - loss_load) / load
-        except ZeroDivisionError:
+        if load == 0:
             return 0.0
 
-        assert -1 <= percent_battery <= 1 or np.isclose(percent_battery, 1) or np.isclose(percent_battery, 0)
-        return percent_battery
+        # Energy can also be discharged to (or be missing from) modules other than the load.
+        return max(-1.0, min(1.0, (battery_discharge - loss_load) / load))
diff --git a/src/pymgrid/microgrid/reward_shaping/pv_curtailment_shaper.py b/src/pymgrid/microgrid/reward_shaping/pv_curtailment_shaper.py
index 9e6d614..38ea14b 100644
--- a/src/pymgrid/microgrid/reward_shaping/pv_curtailment_shaper.py
+++ b/src/pymgrid/microgrid/reward_shaping/pv_curtailment_shaper.py
@@ -13,5 +13,5 @@ class PVCurtailmentShaper(BaseRewardShaper):
     yaml_tag = u"!PVCurtailmentShaper"
 
     def __call__(self, step_info, cost_info):
-        pv_curtailment = self.sum_module_val(step_info, 'pv', 'curtailment')
+        pv_curtailment = sum(self.sum_module_val(step_info, name, 'curtailment') for name in ('pv', 'renewable'))
         return -1.0 * pv_curtailment
-- 
2.43.0


From d7b1dd16fc9d426fbd136cbbf3f05223ae9c87ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:00 +0000
Subject: [PATCH 07/54] fix: state_dict(normalized=True) failed for modules
 with a single state component

---
 src/pymgrid/modules/base/base_module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index a76852a..41c1810 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -485,7 +485,8 @@ class BaseMicrogridModule(yaml.YAMLObject):
 
         """
         if normalized:
-            return dict(zip(self.state_dict().keys(), self._observation_space.normalize(self.state)))
+            normalized_state = np.array(self._observation_space.normalize(self.state)).reshape(-1)
+            return dict(zip(self.state_dict().keys(), normalized_state))
 
         return self._state_dict()
 
-- 
2.43.0


From 91564445484a0b2d8e6677c2633907d58bc02010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:38 +0000
Subject: [PATCH 08/54] fix: scalar user-defined forecasters failed close to
 the end of the time series

---
 src/pymgrid/forecast/forecaster.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 6a45243..352c7db 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -361,13 +361,8 @@ def _validate_forecasted_value(forecaster_output, true_forecast, val_c, n):
 
 def vectorize_scalar_forecaster(forecaster):
     def vectorized(val_c, val_c_n, n):
-        if n != len(val_c_n):
-            raise ValueError(f"Incompatible true values length ({val_c_n}) to forecast {n}-steps ahead.")
+        # val_c_n has fewer than n rows close to the end of the time series; the forecast is padded afterwards.
         vectorized_output = np.array([forecaster(val_c, val_c_n_i, n_i) for n_i, val_c_n_i in enumerate(val_c_n)])
-        try:
-            shape = (-1, vectorized_output.shape[1])
-        except IndexError:
-            shape = (-1, 1)
-        return vectorized_output.reshape(shape)
+        return vectorized_output.reshape(val_c_n.shape)
 
     return vectorized
-- 
2.43.0


From 23b6d947faed4290a1b4071efb610b7cab2f4439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:45 +0000
Subject: [PATCH 09/54] fix: changing a module's forecaster or horizon left a
 stale forecast in the state

---
 .../modules/base/timeseries/base_timeseries_module.py     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 080fb6c..42125c4 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -234,7 +234,10 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
 
         """
 
-        self.forecast_horizon = forecast_horizon * (forecaster is not None)
+        self._forecast_param = forecaster
+        self._forecast_horizon = forecast_horizon * (forecaster is not None)
+        self._state_dict_keys = self._set_state_dict_keys()
+        self._observation_space = self._get_observation_spaces()
 
         self._forecaster = get_forecaster(forecaster,
                                           self._observation_space,
@@ -242,6 +245,7 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
                                           self.time_series[self.initial_step:self._final_step, :],
                                           increase_uncertainty=forecaster_increase_uncertainty,
                                           relative_noise=forecaster_relative_noise)
+        self._current_forecast = self.forecast()
 
     @property
     def forecast_horizon(self):
@@ -269,8 +273,10 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
             self._forecaster = OracleForecaster(self._observation_space,
                                                 forecast_shape=(value, len(self.state_components))
                                                 )
+            self._forecast_param = "oracle"
 
         self._forecaster.observation_space = self._observation_space
+        self._current_forecast = self.forecast()
 
     @property
     def forecaster_increase_uncertainty(self):
-- 
2.43.0


From 51d0de43c70d19bac0e1dcede63968d4fa7758ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:04 +0000
Subject: [PATCH 10/54] fix: Microgrid.set_forecaster with a dict never reached
 the modules

---
 src/pymgrid/microgrid/microgrid.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 5e29e98..e520e26 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -529,15 +529,16 @@ class Microgrid(yaml.YAMLObject):
                 if module_name not in self._modules.names():
                     raise NameError(f'Unrecognized module {module_name}.')
 
-                try:
-                    self._modules[module_name].set_forecaster(
-                        _forecaster,
-                        forcast_horizon=forecast_horizon,
-                        forecaster_increase_uncertainty=forecaster_increase_uncertainty,
-                        forecaster_relative_noise=forecaster_relative_noise
-                    )
-                except AttributeError:
-                    pass
+                for module in self._modules[module_name]:
+                    try:
+                        module.set_forecaster(
+                            _forecaster,
+                            forecast_horizon=forecast_horizon,
+                            forecaster_increase_uncertainty=forecaster_increase_uncertainty,
+                            forecaster_relative_noise=forecaster_relative_noise
+                        )
+                    except AttributeError:
+                        pass
         else:
             for module in self._modules.iterlist():
                 try:
-- 
2.43.0


From 2f9d91d06035bead9a5358cfd8d3973ab3c5a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:23 +0000
Subject: [PATCH 11/54] fix: GaussianNoiseForecaster with increasing
 uncertainty failed after a horizon change

---
 src/pymgrid/forecast/forecaster.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 352c7db..a0a5017 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -232,15 +232,21 @@ class GaussianNoiseForecaster(Forecaster):
         self.relative_noise = relative_noise
 
         self._noise_size = self._forecast_shaped_space.shape
-        self._noise_std = self._get_noise_std(time_series)
+        self._scalar_noise_std = self._get_scalar_noise_std(time_series)
+        self._noise_std = self._get_noise_std()
 
-    def _get_noise_std(self, time_series):
+    def _get_scalar_noise_std(self, time_series):
         scalar_val = self.input_noise_std
         if self.relative_noise:
             if time_series is None:
                 raise ValueError('Must pass time_series if relative_noise is True.')
             scalar_val *= np.abs(time_series.mean())
 
+        return scalar_val
+
+    def _get_noise_std(self):
+        scalar_val = self._scalar_noise_std
+
         if self.increase_uncertainty:
             return scalar_val * np.outer(
                 1 + np.log(1 + np.arange(self._noise_size[0])),
@@ -262,6 +268,12 @@ class GaussianNoiseForecaster(Forecaster):
     def _forecast(self, val_c, val_c_n, n):
         return val_c_n + self._get_noise(val_c_n.shape).reshape(val_c_n.shape)
 
+    @Forecaster.observation_space.setter
+    def observation_space(self, value):
+        Forecaster.observation_space.fset(self, value)
+        self._noise_size = self._forecast_shaped_space.shape
+        self._noise_std = self._get_noise_std()
+
     @property
     def noise_std(self):
         return self._noise_std
-- 
2.43.0


From 524449c2b3dd28e0e6ae4bc9e9fc0ea596bc56df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:43 +0000
Subject: [PATCH 12/54] fix: stochastic trajectories failed on short ranges and
 could return empty episodes

---
 src/pymgrid/microgrid/trajectory/stochastic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/microgrid/trajectory/stochastic.py b/src/pymgrid/microgrid/trajectory/stochastic.py
index 8d21b15..e181152 100644
--- a/src/pymgrid/microgrid/trajectory/stochastic.py
+++ b/src/pymgrid/microgrid/trajectory/stochastic.py
@@ -8,8 +8,8 @@ class StochasticTrajectory(BaseTrajectory):
 
     def __call__(self, initial_step, final_step):
 
-        initial = np.random.randint(initial_step, final_step-2)
-        final = np.random.randint(initial, final_step)
+        initial = np.random.randint(initial_step, final_step)
+        final = np.random.randint(initial+1, final_step+1)
 
         return initial, final
 
@@ -22,9 +22,9 @@ class FixedLengthStochasticTrajectory(BaseTrajectory):
 
     def __call__(self, initial_step, final_step):
         if final_step - initial_step < self.trajectory_length:
-            raise ValueError(f'Cannot create a trajectory of length {self.trajectory_length}'
+            raise ValueError(f'Cannot create a trajectory of length {self.trajectory_length} '
                              f'between initial_step ({initial_step}) and final_step ({final_step})')
 
-        initial = np.random.randint(initial_step, final_step-self.trajectory_length)
+        initial = np.random.randint(initial_step, final_step-self.trajectory_length+1)
 
         return initial, initial + self.trajectory_length
-- 
2.43.0


From c5deeaabd32f375fb25354e514e315d2ec9a6c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:02 +0000
Subject: [PATCH 13/54] fix: comparing or printing a StochasticTrajectory
 raised AttributeError

---
 src/pymgrid/microgrid/trajectory/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/trajectory/base.py b/src/pymgrid/microgrid/trajectory/base.py
index 8aee672..e7ff6d8 100644
--- a/src/pymgrid/microgrid/trajectory/base.py
+++ b/src/pymgrid/microgrid/trajectory/base.py
@@ -14,7 +14,7 @@ class BaseTrajectory(yaml.YAMLObject):
 
     def __repr__(self):
         params = inspect.signature(self.__init__).parameters
-        formatted_params = ', '.join([f'{p}={getattr(self, p)}' for p in params])
+        formatted_params = ', '.join([f'{p}={getattr(self, p)}' for p in params if hasattr(self, p)])
         return f'{self.__class__.__name__}({formatted_params})'
 
     def __eq__(self, other):
-- 
2.43.0


From 3cd5b89448974c7ee79382f59f39021cb8cb6ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:04 +0000
Subject: [PATCH 14/54] fix: logs of loaded modules and microgrids could not be
 extended or compared

---
 src/pymgrid/utils/logger.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index b693595..3a66d7b 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -47,5 +47,9 @@ class ModularLogger(UserDict):
         if raw is None:
             return cls()
         elif isinstance(raw, str):
-            raw = pd.read_csv(raw).to_dict()
+            raw = pd.read_csv(raw, index_col=0)
+
+        if isinstance(raw, pd.DataFrame):
+            raw = raw.to_dict(orient='list')
+
         return cls(raw)
-- 
2.43.0


From 7023fb429117fd183f9d8bd7c70fb5e7fbdb9a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:23 +0000
Subject: [PATCH 15/54] fix: time series modules loaded mid-episode showed the
 forecast of their initial step

---
 .../modules/base/timeseries/base_timeseries_module.py        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 42125c4..26716a8 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -351,5 +351,10 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
     def serializable_state_attributes(self):
         return ["_current_step"]
 
+    def deserialize(self, serialized_dict):
+        super().deserialize(serialized_dict)
+        self._current_forecast = self.forecast()
+        return self
+
     def __len__(self):
         return self._time_series.shape[0]
-- 
2.43.0


From 3a083bf4f1f6e7703e94fdab52cb4d0f7e088de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:48 +0000
Subject: [PATCH 16/54] fix: modules of the same type overwrote each other's
 data files when dumped

---
 src/pymgrid/modules/base/base_module.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 41c1810..30d730b 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -848,7 +848,11 @@ class BaseMicrogridModule(yaml.YAMLObject):
             **self._logger.serialize("log")
         }
 
-        return dump_data(data, dumper_stream, self.yaml_tag)
+        # Modules of the same type in one microgrid must not share their data files.
+        module_name, module_num = self.name
+        data_dir = self.yaml_tag if module_num is None else f'{self.yaml_tag}/{module_name}_{module_num}'
+
+        return dump_data(data, dumper_stream, data_dir)
 
     def serializable_state_attributes(self):
         """
-- 
2.43.0


From d17643647b647c32aa51712515e399dba95bdb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:05 +0000
Subject: [PATCH 17/54] fix: reward shapers of a microgrid were lost when it
 was dumped and loaded

---
 src/pymgrid/microgrid/microgrid.py           | 8 +++++++-
 src/pymgrid/microgrid/reward_shaping/base.py | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index e520e26..af5d6cf 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -889,6 +889,7 @@ class Microgrid(yaml.YAMLObject):
         instance = cls(mapping["modules"], add_unbalanced_module=False)
         instance._balance_logger = instance._balance_logger.from_raw(mapping.get("balance_log"))
         instance.trajectory_func = mapping.get('trajectory_func', None)
+        instance.reward_shaping_func = mapping.get('reward_shaping_func', None)
         instance._initial_step = mapping.get('initial_step', instance.initial_step)
         instance._final_step = mapping.get('final_step', instance.final_step)
         return instance
@@ -900,7 +901,7 @@ class Microgrid(yaml.YAMLObject):
         return dump_data(self._serialization_data(), dumper_stream, self.yaml_tag)
 
     def _serialization_data(self):
-        return {
+        data = {
             "modules": self._modules.to_tuples(),
             'trajectory_func': self.trajectory_func,
             'initial_step': self.initial_step,
@@ -908,6 +909,11 @@ class Microgrid(yaml.YAMLObject):
             **self._balance_logger.serialize("balance_log")
         }
 
+        if isinstance(self.reward_shaping_func, yaml.YAMLObject):
+            data['reward_shaping_func'] = self.reward_shaping_func
+
+        return data
+
     @classmethod
     def from_nonmodular(cls, nonmodular):
         """
diff --git a/src/pymgrid/microgrid/reward_shaping/base.py b/src/pymgrid/microgrid/reward_shaping/base.py
index 317887f..726df4a 100644
--- a/src/pymgrid/microgrid/reward_shaping/base.py
+++ b/src/pymgrid/microgrid/reward_shaping/base.py
@@ -15,5 +15,9 @@ class BaseRewardShaper(yaml.YAMLObject):
     def __call__(self, step_info, cost_info):
         pass
 
+    def __getstate__(self):
+        # From python 3.11, the default is None -- which yaml cannot represent -- for objects without attributes.
+        return self.__dict__.copy()
+
     def __repr__(self):
         return f'{self.__class__.__name__}()'
-- 
2.43.0


From e60b68a2ddc74d395005f73c7f82ba18a4e7dfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:32 +0000
Subject: [PATCH 18/54] fix: microgrids with a StochasticTrajectory could not
 be dumped

---
 src/pymgrid/microgrid/trajectory/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymgrid/microgrid/trajectory/base.py b/src/pymgrid/microgrid/trajectory/base.py
index e7ff6d8..91e0130 100644
--- a/src/pymgrid/microgrid/trajectory/base.py
+++ b/src/pymgrid/microgrid/trajectory/base.py
@@ -12,6 +12,10 @@ class BaseTrajectory(yaml.YAMLObject):
     def __call__(self, initial_step, final_step):
         pass
 
+    def __getstate__(self):
+        # From python 3.11, the default is None -- which yaml cannot represent -- for objects without attributes.
+        return self.__dict__.copy()
+
     def __repr__(self):
         params = inspect.signature(self.__init__).parameters
         formatted_params = ', '.join([f'{p}={getattr(self, p)}' for p in params if hasattr(self, p)])
-- 
2.43.0


From 591ebeefb76d211cb7cff8e5fc6ff07e070330f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:06 +0000
Subject: [PATCH 19/54] fix: values dumped to csv files were not read back
 exactly

---
 src/pymgrid/utils/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/serialize.py b/src/pymgrid/utils/serialize.py
index 45be9c2..04cb7ee 100644
--- a/src/pymgrid/utils/serialize.py
+++ b/src/pymgrid/utils/serialize.py
@@ -102,7 +102,7 @@ def _pandas_df_constructor(loader, node):
 
         data_path = Path(stream_name).parent / data_path
 
-    return pd.read_csv(data_path, index_col=0)
+    return pd.read_csv(data_path, index_col=0, float_precision='round_trip')
 
 
 def _numpy_arr_constructor(loader, node):
-- 
2.43.0


From 3b87b9d769883dcbe33c120476046e57aab80a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:28 +0000
Subject: [PATCH 20/54] fix: comparing noise forecasters with increasing
 uncertainty raised ValueError

---
 src/pymgrid/forecast/forecaster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index a0a5017..6771977 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -166,8 +166,8 @@ class Forecaster:
         if type(self) != type(other):
             return NotImplemented
 
-        return (self._fill_arr == other._fill_arr).all() and \
-               all(v == other.__dict__[k] for k, v in self.__dict__.items() if k != '_fill_arr')
+        return all(np.array_equal(v, other.__dict__[k]) if isinstance(v, np.ndarray) else v == other.__dict__[k]
+                   for k, v in self.__dict__.items())
 
     def __call__(self, val_c, val_c_n, n):
         if len(val_c_n.shape) == 1:
-- 
2.43.0


From 2d13d64c969be85d37e429a83b523bfaa69f0918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:31 +0000
Subject: [PATCH 21/54] fix: modules without a control of their own were
 silently skipped in Microgrid.run

---
 src/pymgrid/microgrid/microgrid.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index af5d6cf..7286561 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -266,11 +266,15 @@ class Microgrid(yaml.YAMLObject):
                 raise ValueError(f'Control for module "{name}" not found. Available controls:\n\t{control.keys()}')
             else:
                 try:
-                    _zip = zip(modules, module_controls)
+                    module_controls = list(module_controls)
                 except TypeError:
-                    _zip = zip(modules, [module_controls])
+                    module_controls = [module_controls]
 
-            for module, _control in _zip:
+                if len(module_controls) < len(modules):
+                    raise ValueError(f'Control for module "{name}" contains {len(module_controls)} value(s), '
+                                     f'but there are {len(modules)} such modules.')
+
+            for module, _control in zip(modules, module_controls):
                 module_step = module.step(_control, normalized=normalized)  # obs, reward, done, info.
                 microgrid_step.append(name, *module_step)
 
-- 
2.43.0


From e7113be29a2d0a706766e32f8add1129b12bb491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:31 +0000
Subject: [PATCH 22/54] fix: identically named modules of different types
 silently replaced one another

---
 src/pymgrid/modules/module_container.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/modules/module_container.py b/src/pymgrid/modules/module_container.py
index 0ceabf4..8f4d33c 100644
--- a/src/pymgrid/modules/module_container.py
+++ b/src/pymgrid/modules/module_container.py
@@ -389,9 +389,8 @@ def get_subcontainers(modules):
         else:
             raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.__class__.module_type}')
 
-        try:
-            module_names[module_name] = (fixed_flex_controllable, source_sink_both)
-        except KeyError:
+        if module_names.setdefault(module_name, (fixed_flex_controllable, source_sink_both)) != \
+                (fixed_flex_controllable, source_sink_both):
             raise NameError(
                 f'Attempted to add module {module_name} of type {(fixed_flex_controllable, source_sink_both)}, '
                 f'but there is an identically named module of type {module_names[module_name]}.')
-- 
2.43.0


From 27b3d2cd5a8900207dd6a49dcf330dd975771e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:50 +0000
Subject: [PATCH 23/54] fix: Microgrid did not accept list-like modules other
 than lists

---
 src/pymgrid/microgrid/microgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 7286561..9381cef 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -167,6 +167,8 @@ class Microgrid(yaml.YAMLObject):
         if not pd.api.types.is_list_like(modules):
             raise TypeError("modules must be list-like of modules.")
 
+        modules = list(modules)
+
         if add_unbalanced_module:
             modules.append(self._get_unbalanced_energy_module(loss_load_cost, overgeneration_cost))
 
-- 
2.43.0


From 2fe6d6a146228c3e703755e3f3c59747039cf1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:15 +0000
Subject: [PATCH 24/54] fix: priority lists asked a running genset for less
 than it must produce

---
 .../algos/priority_list/priority_list.py      | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/pymgrid/algos/priority_list/priority_list.py b/src/pymgrid/algos/priority_list/priority_list.py
index 2bbedae..a1fd737 100644
--- a/src/pymgrid/algos/priority_list/priority_list.py
+++ b/src/pymgrid/algos/priority_list/priority_list.py
@@ -89,14 +89,14 @@ class PriorityListAlgo:
                     action[module_name][module_number] = [module_action_number]
 
             if np.isclose(remaining_load, 0.0, atol=1e-4):
-                # Don't need to do anything
-                module_energy = 0.0
+                # Don't need to do anything beyond what the module must produce
+                _, module_energy = self._production_bounds(module_action_number, module_to_deploy)
             elif remaining_load > 0:
                 # Need to produce
                 module_energy = self._produce_from_module(module_action_number, module_to_deploy, remaining_load)
             else:
                 # Need to consume. These are sources and sources_and_sinks, so need to only use sources_and_sinks.
-                module_energy = self._consume_in_module(module_to_deploy, remaining_load)
+                module_energy = self._consume_in_module(module_action_number, module_to_deploy, remaining_load)
 
             try:
                 action[module_name][module_number].append(module_energy)
@@ -115,7 +115,13 @@ class PriorityListAlgo:
 
         return action
 
-    def _consume_in_module(self, module_to_deploy, remaining_load):
+    def _consume_in_module(self, module_action_number, module_to_deploy, remaining_load):
+        _, min_production = self._production_bounds(module_action_number, module_to_deploy)
+
+        if min_production > 0:
+            # Module can not stop producing, even though the energy is not needed
+            return min_production
+
         module_max_consumption = module_to_deploy.max_consumption
 
         assert remaining_load <= 0.0
@@ -135,12 +141,18 @@ class PriorityListAlgo:
         assert module_consumption <= 0
         return module_consumption
 
-    def _produce_from_module(self, module_action_number, module_to_deploy, remaining_load):
+    def _production_bounds(self, module_action_number, module_to_deploy):
         try:
             max_production = module_to_deploy.next_max_production(module_action_number)
             min_production = module_to_deploy.next_min_production(module_action_number)
         except AttributeError:
             max_production, min_production = module_to_deploy.max_production, module_to_deploy.min_production
+
+        return max_production, min_production
+
+    def _produce_from_module(self, module_action_number, module_to_deploy, remaining_load):
+        max_production, min_production = self._production_bounds(module_action_number, module_to_deploy)
+
         if min_production <= remaining_load <= max_production:
             # Module can meet demand
             module_production = remaining_load
-- 
2.43.0


From 9ca74ec2a69b3b9fc9bfe57593c653569e89b4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:28 +0000
Subject: [PATCH 25/54] fix: GensetModule.sample_action failed with
 strict_bound

---
 src/pymgrid/modules/genset_module.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index aa1f716..416d6d7 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -345,7 +345,14 @@ class GensetModule(BaseMicrogridModule):
             self._update_up_down_times()
 
     def sample_action(self, strict_bound=False, **kwargs):
-        return np.array([np.random.rand(), super().sample_action(strict_bound=strict_bound)])
+        goal_status = np.random.rand()
+        min_bound, max_bound = 0, 1
+
+        if strict_bound:
+            next_bounds = (self.next_min_production(round(goal_status)), self.next_max_production(round(goal_status)))
+            min_bound, max_bound = (self._action_space.normalize(np.array([goal_status, bound]))[1] for bound in next_bounds)
+
+        return np.array([goal_status, np.random.rand()*(max_bound-min_bound) + min_bound])
 
     def _raise_error(self, ask_value, available_value, as_source=False, as_sink=False, lower_bound=False):
         try:
-- 
2.43.0


From 482edc5824ef594853584dd489a992184ff4140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:40 +0000
Subject: [PATCH 26/54] fix: nested environment observations did not match the
 observation space

---
 src/pymgrid/envs/base/base.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index f35bdd5..0b4be01 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -1,3 +1,4 @@
+import numpy as np
 import pandas as pd
 
 from gym import Env
@@ -202,7 +203,7 @@ class BaseMicrogridEnv(Microgrid, Env):
 
         """
 
-        obs, reward, done, info = self.run(action, normalized=normalized)
+        obs, reward, done, info = super().run(action, normalized=normalized)
 
         obs = self._get_obs(obs)
 
@@ -210,16 +211,30 @@ class BaseMicrogridEnv(Microgrid, Env):
 
     def _get_obs(self, obs):
         if self.observation_keys:
-            obs = self.state_series(normalized=True).loc[pd.IndexSlice[:, :, self.observation_keys]]
-
             if self._flat_spaces:
-                obs = obs.values
+                obs = self.state_series(normalized=True).loc[pd.IndexSlice[:, :, self.observation_keys]].values
             else:
-                obs = obs.to_frame().unstack(level=1).T.droplevel(level=1, axis=1).to_dict(orient='list')
+                obs = self._get_nested_obs()
 
         elif self._flat_spaces:
             obs = flatten(self._nested_observation_space, obs)
 
+        else:
+            # Only modules are part of the observation space; every observation is a vector.
+            obs = {name: [np.array(module_obs).reshape(-1) for module_obs in obs[name]]
+                   for name in self._nested_observation_space.spaces}
+
+        return obs
+
+    def _get_nested_obs(self):
+        obs = {}
+
+        for name, module_list in self.modules.iterdict():
+            if name in self._nested_observation_space.spaces:
+                state_dicts = [module.state_dict(normalized=True) for module in module_list]
+                obs[name] = [np.array([state_dict[key] for key in self.observation_keys if key in state_dict])
+                             for state_dict in state_dicts]
+
         return obs
 
     def render(self, mode="human"):
-- 
2.43.0


From b35b1c052d6e69b5134b691e6102ab662e576f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:54 +0000
Subject: [PATCH 27/54] fix: ContinuousMicrogridEnv had no usable action space

---
 src/pymgrid/envs/continuous/continuous.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/pymgrid/envs/continuous/continuous.py b/src/pymgrid/envs/continuous/continuous.py
index 870e79a..887c9f3 100644
--- a/src/pymgrid/envs/continuous/continuous.py
+++ b/src/pymgrid/envs/continuous/continuous.py
@@ -1,4 +1,4 @@
-from gym.spaces import Dict, Tuple, flatten_space
+from gym.spaces import Dict, Tuple, flatten_space, unflatten
 from warnings import warn
 
 from pymgrid.envs.base import BaseMicrogridEnv
@@ -55,23 +55,18 @@ class ContinuousMicrogridEnv(BaseMicrogridEnv):
 
     def _get_nested_action_space(self):
         return Dict({name: Tuple([module.action_space['normalized'] for module in modules_list])
-                                 for name, modules_list in self.fixed.iterdict() if modules_list[0].is_source})
+                                 for name, modules_list in self.controllable.iterdict()})
 
     def _get_action_space(self):
         self._nested_action_space = self._get_nested_action_space()
         return flatten_space(self._nested_action_space) if self._flat_spaces else self._nested_action_space
 
     def _get_action(self, action):
-        # Action does not have fixed sinks (loads); add those values.
-        assert action in self._nested_action_space, 'Action is not in action space.'
-        action = action.copy()
-        for name, module_list in self.fixed.sinks.iterdict():
-            action[name] = [module.to_normalized(-1 * module.max_consumption, act=True) for module in module_list]
-        return action
+        assert action in self.action_space, 'Action is not in action space.'
+        return unflatten(self._nested_action_space, action) if self._flat_spaces else action
 
     def step(self, action):
-        action = self._get_action(action)
-        return super().run(action)
+        return super().step(self._get_action(action), normalized=True)
 
     def run(self, action, normalized=True):
         warn('run() should not be called directly in environments.')
-- 
2.43.0


From a00207720b62706512ce5a73e8f526ef355bbf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:18 +0000
Subject: [PATCH 28/54] fix: to_nonmodular inverted the sign of the load

---
 src/pymgrid/convert/to_nonmodular_ops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 9cb8603..1c7d095 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -77,9 +77,10 @@ def add_params_from_module(module, params_dict):
 
 
 def add_load_params(load_module, params_dict):
-    params_dict['load'] = pd.DataFrame(load_module.time_series)
+    load = -1 * load_module.time_series  # Modules store loads as negative values
+    params_dict['load'] = pd.DataFrame(load)
     _add_to_parameters(params_dict,
-                       load=-1 * load_module.min_act)
+                       load=np.max(load))
     _add_to_control_dict(params_dict, 'load')
     _add_to_df_actual_generation(params_dict, 'loss_load')
     _add_to_df_actions(params_dict, 'load')
-- 
2.43.0


From 9b43c692d39716d671b6400bfc54361d72b6a10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:33 +0000
Subject: [PATCH 29/54] fix: to_nonmodular overstated what the battery can
 discharge

---
 src/pymgrid/convert/to_nonmodular_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 1c7d095..778471e 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -114,7 +114,7 @@ def add_battery_params(battery_module, params_dict):
                       capa_to_charge=round((battery_module.max_soc-battery_module.soc) *
                                      battery_module.max_capacity/battery_module.efficiency, 1),
                       capa_to_discharge=round((battery_module.soc-battery_module.min_soc) *
-                                        battery_module.max_capacity/battery_module.efficiency, 1)
+                                        battery_module.max_capacity*battery_module.efficiency, 1)
                       )
     _add_to_df_actual_generation(params_dict, 'battery_charge', 'battery_discharge')
     _add_to_df_cost(params_dict, 'battery')
-- 
2.43.0


From ed7289658f9f69af4263927ec2bd07773492695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:51 +0000
Subject: [PATCH 30/54] fix: microgrids without grid and genset could not run
 after to_nonmodular

---
 src/pymgrid/convert/to_nonmodular_ops.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 778471e..f0d8d40 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -56,6 +56,10 @@ def check_viability(modular):
 
 
 def finalize_params(params_dict):
+    if 'cost_co2' not in params_dict['parameters']:
+        # Nothing in the microgrid emits CO2
+        _add_cost_co2(params_dict, 0.0)
+
     params_dict['parameters'] = pd.DataFrame(params_dict['parameters'])
 
 
-- 
2.43.0


From 2346df96d7066a494c790dfe71025a7ae7701691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:27 +0000
Subject: [PATCH 31/54] fix: legacy microgrids without a grid charged the
 battery beyond its limits

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 1d98207..943d184 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -655,7 +655,7 @@ class NonModularMicrogrid:
 
             self._df_record_cost = self._record_cost({ i:self._df_record_actual_production[i][-1] for i in self._df_record_actual_production},
                                                      self._df_record_cost, self._df_record_co2)
-            self._df_record_state = self._update_status(control_dict,
+            self._df_record_state = self._update_status({key: value[-1] for key, value in self._df_record_actual_production.items()},
                                                         self._df_record_state, self._next_load, self._next_pv)
 
         if self._tracking_timestep == self._data_length - self.horizon or self._tracking_timestep == self._data_length - 1:
-- 
2.43.0


From a1a62d4a0191a7da3b1d65f191104d7c3cb70eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:44 +0000
Subject: [PATCH 32/54] fix: legacy microgrid failed when the load was met
 exactly without pv

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 943d184..d5347cb 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -1059,7 +1059,7 @@ class NonModularMicrogrid:
             pv_curtailed = 0
             overgeneration = 0
 
-        elif 0 < pv_required < pv_available:                # curtail pv
+        elif 0 <= pv_required < pv_available:               # curtail pv
             pv_consumed = pv_required
             loss_load = 0
             pv_curtailed = pv_available-pv_required
-- 
2.43.0


From 70b3f764bb99513c5ce790734f3db11e5ba08927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:19 +0000
Subject: [PATCH 33/54] fix: legacy microgrid reported the first grid row again
 after the first step

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index d5347cb..2a8b71f 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -363,10 +363,10 @@ class NonModularMicrogrid:
             self._grid_price_export=parameters['grid_price_export']
             self._grid_co2 = parameters['grid_co2']
 
-            self._next_grid_status = self._grid_status_ts.iloc[0, 0]
-            self._next_grid_price_export = self._grid_price_export.iloc[0, 0]
-            self._next_grid_price_import = self._grid_price_import.iloc[0, 0]
-            self._next_grid_co2 = self._grid_co2.iloc[0, 0]
+            self._next_grid_status = self._grid_status_ts.iloc[1, 0]
+            self._next_grid_price_export = self._grid_price_export.iloc[1, 0]
+            self._next_grid_price_import = self._grid_price_import.iloc[1, 0]
+            self._next_grid_co2 = self._grid_co2.iloc[1, 0]
 
         # those dataframe record what is happening at each time step
         self._df_record_control_dict=parameters['df_actions']
-- 
2.43.0


From 7fd7fa9dceff8eed73cdc3f0f913e107d1cd7beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:51 +0000
Subject: [PATCH 34/54] fix: ModelPredictiveControl failed on microgrids whose
 battery has another name

---
 src/pymgrid/algos/mpc/mpc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index d4429f6..cc3d13f 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -197,7 +197,7 @@ class ModelPredictiveControl:
         return eta, battery_capacity, fuel_cost, cost_battery_cycle, cost_loss_load, p_genset_min, p_genset_max, cost_co2, genset_co2
 
     def _parse_modular_microgrid(self):
-        battery = self.microgrid.battery.item()
+        battery = self.microgrid.modules[self.microgrid_module_names["battery"]].item()
 
         eta = battery.efficiency
         battery_capacity = battery.max_capacity
@@ -921,8 +921,8 @@ class ModelPredictiveControl:
             grid_max_import, grid_max_export = grid.max_import, grid.max_export
 
         try:
-            battery = self.microgrid.battery.item()
-        except AttributeError:
+            battery = self.microgrid.modules[self.microgrid_module_names["battery"]].item()
+        except KeyError:
             raise ValueError(f"Microgrid {self.microgrid} has no battery.")
         else:
             e_min = battery.min_soc
-- 
2.43.0


From c8e5133f8ebc34832f79c8016ff7f6769e205004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:08 +0000
Subject: [PATCH 35/54] fix: ModelPredictiveControl planned grid exchanges
 during grid outages

---
 src/pymgrid/algos/mpc/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index cc3d13f..54492e2 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -911,7 +911,7 @@ class ModelPredictiveControl:
 
             grid_max_import, grid_max_export = 0, 0
         else:
-            grid_status = np.ones(self.horizon)
+            grid_status = grid.grid_status
 
             price_import = grid.import_price
             price_export = grid.export_price
-- 
2.43.0


From 7b3658f87a843f9092a955a8a527ed1c50d71f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:38 +0000
Subject: [PATCH 36/54] fix: ModelPredictiveControl treated the revenue of
 exports as a cost

---
 src/pymgrid/algos/mpc/mpc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index 54492e2..32ad8d2 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -91,7 +91,7 @@ class ModelPredictiveControl:
         else:
             self.p_vars = cp.Variable((7*self.horizon,), pos=True)
             self.u_genset = None
-            self.costs = cp.Parameter(7 * self.horizon, nonneg=True)
+            self.costs = cp.Parameter(7 * self.horizon)
             self.inequality_rhs = cp.Parameter(8 * self.horizon)
 
         self.equality_rhs = cp.Parameter(2 * self.horizon)  # rhs
@@ -483,10 +483,10 @@ class ModelPredictiveControl:
         # Set costs
         if self.has_genset:
             self.costs.value[1::8] = import_price.reshape(-1) + grid_co2.reshape(-1) * cost_co2
-            self.costs.value[2::8] = export_price.reshape(-1)
+            self.costs.value[2::8] = -1.0 * export_price.reshape(-1)
         else:
             self.costs.value[0::7] = import_price.reshape(-1) + grid_co2.reshape(-1) * cost_co2
-            self.costs.value[1::7] = export_price.reshape(-1)
+            self.costs.value[1::7] = -1.0 * export_price.reshape(-1)
 
         if np.isnan(self.costs.value).any():
             raise RuntimeError('There are still nan values in self.costs.value, something is wrong')
-- 
2.43.0


From 39187c22828028c4c530fc5e27b336e7e216beec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:00 +0000
Subject: [PATCH 37/54] fix: ModelPredictiveControl discharged modular
 batteries beyond their limit

---
 src/pymgrid/algos/mpc/mpc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index 32ad8d2..cd7f057 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -927,8 +927,9 @@ class ModelPredictiveControl:
         else:
             e_min = battery.min_soc
             e_max = battery.max_soc
-            battery_max_charge = battery.max_charge
-            battery_max_discharge = battery.max_discharge
+            # The battery limits its internal energy change, the model the energy exchanged with the microgrid.
+            battery_max_charge = battery.max_charge / battery.efficiency
+            battery_max_discharge = battery.max_discharge * battery.efficiency
 
             soc_0 = battery.soc
 
-- 
2.43.0


From 90432b8e67bd2c279196efdf81ad110e4b27b56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:25 +0000
Subject: [PATCH 38/54] fix: ModelPredictiveControl valued grid emissions at
 the mean of the grid's and genset's CO2 costs

---
 src/pymgrid/algos/mpc/mpc.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index cd7f057..a349d88 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -907,7 +907,7 @@ class ModelPredictiveControl:
             price_import = np.zeros(self.horizon)
             price_export = np.zeros(self.horizon)
             grid_co2_per_kwh = np.zeros(self.horizon)
-            cost_co2 = []
+            cost_co2 = 0
 
             grid_max_import, grid_max_export = 0, 0
         else:
@@ -916,7 +916,7 @@ class ModelPredictiveControl:
             price_import = grid.import_price
             price_export = grid.export_price
             grid_co2_per_kwh = grid.co2_per_kwh
-            cost_co2 = [grid.cost_per_unit_co2]
+            cost_co2 = grid.cost_per_unit_co2
 
             grid_max_import, grid_max_export = grid.max_import, grid.max_export
 
@@ -940,9 +940,6 @@ class ModelPredictiveControl:
         else:
             genset_max_prod = genset.running_max_production
             genset_co2_per_kwh = genset.co2_per_unit
-            cost_co2.append(genset.cost_per_unit_co2)
-
-        cost_co2 = np.mean(cost_co2)
 
         return (
             load_state,
-- 
2.43.0


From 105c4d615e4bc664204861e45dcbfb7caeed14c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:57 +0000
Subject: [PATCH 39/54] fix: ModelPredictiveControl miscounted the cycling cost
 of modular batteries

---
 src/pymgrid/algos/mpc/mpc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index a349d88..68d1a17 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -358,12 +358,16 @@ class ModelPredictiveControl:
                                 self.p_vars[:: 8] <= p_genset_max * self.u_genset))
 
         # Define  objective
+        cost_charge, cost_discharge = cost_battery_cycle, cost_battery_cycle
+        if self.is_modular:  # battery modules cost their internal energy change
+            cost_charge, cost_discharge = cost_battery_cycle * eta, cost_battery_cycle / eta
+
         if self.has_genset:
             cost_vector = np.array([fuel_cost + cost_co2 * genset_co2, 0, 0,
-                                cost_battery_cycle, cost_battery_cycle, 0, cost_loss_load, 0])
+                                cost_charge, cost_discharge, 0, cost_loss_load, 0])
         else:
             cost_vector = np.array([0, 0,
-                                    cost_battery_cycle, cost_battery_cycle, 0, cost_loss_load, 0])
+                                    cost_charge, cost_discharge, 0, cost_loss_load, 0])
 
         costs_vector = np.concatenate([cost_vector] * self.horizon)
 
-- 
2.43.0


From ae6402de0c41709a0a570acc8463fcf3d8e41ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:09 +0000
Subject: [PATCH 40/54] fix: the last step of a training or testing episode of
 a non-modular microgrid raised an IndexError

---
 .../_deprecated/non_modular_microgrid.py      | 38 +++++++++++++------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 2a8b71f..65ca89a 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -748,16 +748,22 @@ class NonModularMicrogrid:
             self.pv = self._pv_train.iloc[self._tracking_timestep, 0]
             self.load = self._load_train.iloc[self._tracking_timestep, 0]
 
-            self._next_pv = self._pv_train.iloc[self._tracking_timestep +1, 0]
-            self._next_load = self._load_train.iloc[self._tracking_timestep+1, 0]
+            if self._tracking_timestep < self._data_length - 1:
+                self._next_pv = self._pv_train.iloc[self._tracking_timestep +1, 0]
+                self._next_load = self._load_train.iloc[self._tracking_timestep+1, 0]
+            else:
+                self._next_pv, self._next_load = None, None
 
 
         if self._data_set_to_use == 'testing':
             self.pv = self._pv_test.iloc[self._tracking_timestep, 0]
             self.load = self._load_test.iloc[self._tracking_timestep, 0]
 
-            self._next_pv = self._pv_test.iloc[self._tracking_timestep+1, 0]
-            self._next_load = self._load_test.iloc[self._tracking_timestep+1, 0]
+            if self._tracking_timestep < self._data_length - 1:
+                self._next_pv = self._pv_test.iloc[self._tracking_timestep+1, 0]
+                self._next_load = self._load_test.iloc[self._tracking_timestep+1, 0]
+            else:
+                self._next_pv, self._next_load = None, None
 
         if self._data_set_to_use == 'all':
             self.pv = self._pv_ts.iloc[self._tracking_timestep, 0]
@@ -778,10 +784,14 @@ class NonModularMicrogrid:
                 self.grid.price_export = self._grid_price_export_train.iloc[self._tracking_timestep,0]
                 self.grid.co2 = self._grid_co2_train.iloc[self._tracking_timestep, 0]
 
-                self._next_grid_status = self._grid_status_train.iloc[self._tracking_timestep +1, 0]
-                self._next_grid_price_import = self._grid_price_import_train.iloc[self._tracking_timestep +1, 0]
-                self._next_grid_price_export = self._grid_price_export_train.iloc[self._tracking_timestep +1, 0]
-                self._next_grid_co2 = self._grid_co2_train.iloc[self._tracking_timestep + 1, 0]
+                if self._tracking_timestep < self._data_length - 1:
+                    self._next_grid_status = self._grid_status_train.iloc[self._tracking_timestep +1, 0]
+                    self._next_grid_price_import = self._grid_price_import_train.iloc[self._tracking_timestep +1, 0]
+                    self._next_grid_price_export = self._grid_price_export_train.iloc[self._tracking_timestep +1, 0]
+                    self._next_grid_co2 = self._grid_co2_train.iloc[self._tracking_timestep + 1, 0]
+                else:
+                    self._next_grid_status, self._next_grid_price_import, self._next_grid_price_export, \
+                    self._next_grid_co2 = None, None, None, None
 
             if self._data_set_to_use == 'testing':
                 self.grid.status = self._grid_status_test.iloc[self._tracking_timestep, 0]
@@ -789,10 +799,14 @@ class NonModularMicrogrid:
                 self.grid.price_export = self._grid_price_export_test.iloc[self._tracking_timestep, 0]
                 self.grid.co2 = self._grid_co2_test.iloc[self._tracking_timestep, 0]
 
-                self._next_grid_status = self._grid_status_test.iloc[self._tracking_timestep + 1, 0]
-                self._next_grid_price_import = self._grid_price_import_test.iloc[self._tracking_timestep + 1, 0]
-                self._next_grid_price_export = self._grid_price_export_test.iloc[self._tracking_timestep + 1, 0]
-                self._next_grid_co2 = self._grid_co2_test.iloc[self._tracking_timestep + 1, 0]
+                if self._tracking_timestep < self._data_length - 1:
+                    self._next_grid_status = self._grid_status_test.iloc[self._tracking_timestep + 1, 0]
+                    self._next_grid_price_import = self._grid_price_import_test.iloc[self._tracking_timestep + 1, 0]
+                    self._next_grid_price_export = self._grid_price_export_test.iloc[self._tracking_timestep + 1, 0]
+                    self._next_grid_co2 = self._grid_co2_test.iloc[self._tracking_timestep + 1, 0]
+                else:
+                    self._next_grid_status, self._next_grid_price_import, self._next_grid_price_export, \
+                    self._next_grid_co2 = None, None, None, None
 
 
             if self._data_set_to_use == 'all':
-- 
2.43.0


From 002c8dd8040d54e7995ab56de62291273caa0cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:06 +0000
Subject: [PATCH 41/54] fix: resetting a non-modular microgrid onto another
 data set kept the first state of the previous one

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 65ca89a..79412a1 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -855,6 +855,13 @@ class NonModularMicrogrid:
                 self._data_length = min(self._load_ts.shape[0], self._pv_ts.shape[0])
 
         self.update_variables()
+        self._df_record_state['load'] = [self.load]
+        self._df_record_state['pv'] = [self.pv]
+        if self.architecture['grid'] == 1:
+            self._df_record_state['grid_status'] = [self.grid.status]
+            self._df_record_state['grid_price_import'] = [self.grid.price_import]
+            self._df_record_state['grid_price_export'] = [self.grid.price_export]
+            self._df_record_state['grid_co2'] = [self.grid.co2]
         self.done = False
 
 
-- 
2.43.0


From ba7342823bcf08785e6a2c986f37a8f41ac5fc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:45 +0000
Subject: [PATCH 42/54] fix: get_log(drop_singleton_key=True) drops the module
 number when no name has two modules

---
 src/pymgrid/microgrid/microgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 9381cef..bcad417 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -472,8 +472,8 @@ class Microgrid(yaml.YAMLObject):
         df = pd.DataFrame(_log_dict, index=pd.RangeIndex(start=self.current_step - len(self._balance_logger), stop=self.current_step))
         df.columns = pd.MultiIndex.from_tuples(df.columns.to_list(), names=col_names)
 
-        if drop_singleton_key:
-            df.columns = df.columns.remove_unused_levels()
+        if drop_singleton_key and (df.columns.get_level_values('module_number') == 0).all():
+            df.columns = df.columns.droplevel('module_number')
 
         if as_frame:
             return df
-- 
2.43.0


From fd591492486187d8e956c8da1e9af65ff6e46c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:46 +0000
Subject: [PATCH 43/54] fix: SampleAverageApproximation accepts a percentile of
 1

---
 src/pymgrid/algos/saa/saa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/saa/saa.py b/src/pymgrid/algos/saa/saa.py
index cd68acd..dda0c7e 100644
--- a/src/pymgrid/algos/saa/saa.py
+++ b/src/pymgrid/algos/saa/saa.py
@@ -94,7 +94,7 @@ class SampleAverageApproximation(SampleGenerator):
         if percentile < 0. or percentile > 1.:
             raise ValueError('percentile must be in [0,1]')
 
-        partition_val = int(np.floor(len(outputs)*percentile))
+        partition_val = min(int(np.floor(len(outputs)*percentile)), len(outputs)-1)
         partition = np.partition(outputs, partition_val)
 
         if verbose:
-- 
2.43.0


From 4ac8d4f4b399895b3fb35602b4015dfc43fa150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:05 +0000
Subject: [PATCH 44/54] fix: SampleAverageApproximation records the values of
 the following step in the status

---
 src/pymgrid/algos/saa/saa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/saa/saa.py b/src/pymgrid/algos/saa/saa.py
index dda0c7e..a524bfc 100644
--- a/src/pymgrid/algos/saa/saa.py
+++ b/src/pymgrid/algos/saa/saa.py
@@ -142,9 +142,9 @@ class SampleAverageApproximation(SampleGenerator):
             # return horizon_outputs
 
             optimal_output = self.determine_optimal_actions(outputs=horizon_outputs, percentile=optimal_percentile)
-            output.append(optimal_output, actual_load=self.underlying_data.loc[j,'load'],
-                          actual_pv=self.underlying_data.loc[j,'pv'],
-                          actual_grid=self.underlying_data.loc[j,'grid'])
+            output.append(optimal_output, actual_load=self.underlying_data.loc[j+1,'load'],
+                          actual_pv=self.underlying_data.loc[j+1,'pv'],
+                          actual_grid=self.underlying_data.loc[j+1,'grid'])
 
         return output
 
-- 
2.43.0


From 9e91f4a56820cb4eb45e4613e9961f1ac10c80c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:24 +0000
Subject: [PATCH 45/54] fix: run_deterministic_on_forecast runs all of its
 steps and returns the result

---
 src/pymgrid/algos/saa/saa.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/algos/saa/saa.py b/src/pymgrid/algos/saa/saa.py
index a524bfc..266a87e 100644
--- a/src/pymgrid/algos/saa/saa.py
+++ b/src/pymgrid/algos/saa/saa.py
@@ -164,10 +164,12 @@ class SampleAverageApproximation(SampleGenerator):
             if verbose:
                 print('iter {}'.format(j))
 
-                sample.iloc[j] = self.underlying_data.iloc[j]  # overwrite with actual data
+            sample.iloc[j] = self.underlying_data.iloc[j]  # overwrite with actual data
 
-                horizon_output = self.mpc.mpc_single_step(sample, output, j)
+            horizon_output = self.mpc.mpc_single_step(sample, output, j)
 
-                output.append(horizon_output)
+            output.append(horizon_output, actual_load=self.underlying_data.loc[j+1,'load'],
+                          actual_pv=self.underlying_data.loc[j+1,'pv'],
+                          actual_grid=self.underlying_data.loc[j+1,'grid'])
 
-            return output
\ No newline at end of file
+        return output
\ No newline at end of file
-- 
2.43.0


From dc5ccfdc132ecf5460af34cbebb1ab3d28eb6582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:16 +0000
Subject: [PATCH 46/54] fix: user-defined forecasters may return lists or flat
 arrays

---
 src/pymgrid/forecast/forecaster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 6771977..436cb4c 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -204,8 +204,8 @@ class UserDefinedForecaster(Forecaster):
 
     def _cast_to_arr(self, forecast, val_c_n):
         if self.cast_to_arr:
-            return np.array(forecast.reshape(val_c_n.shape))
-        return forecast
+            forecast = np.array(forecast)
+        return forecast.reshape((-1, val_c_n.shape[1]))
 
     def _forecast(self, val_c, val_c_n, n):
         forecast = self._forecaster(val_c, val_c_n, n)
-- 
2.43.0


From 98a29e0b098b0242ed839610ff7d95f9628870de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:37 +0000
Subject: [PATCH 47/54] fix: scalar user-defined forecasters are given the
 number of steps ahead

---
 src/pymgrid/forecast/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 436cb4c..2db8c6f 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -374,7 +374,7 @@ def _validate_forecasted_value(forecaster_output, true_forecast, val_c, n):
 def vectorize_scalar_forecaster(forecaster):
     def vectorized(val_c, val_c_n, n):
         # val_c_n has fewer than n rows close to the end of the time series; the forecast is padded afterwards.
-        vectorized_output = np.array([forecaster(val_c, val_c_n_i, n_i) for n_i, val_c_n_i in enumerate(val_c_n)])
+        vectorized_output = np.array([forecaster(val_c, val_c_n_i, n_i) for n_i, val_c_n_i in enumerate(val_c_n, start=1)])
         return vectorized_output.reshape(val_c_n.shape)
 
     return vectorized
-- 
2.43.0


From 0424dc7d08623e66d259b68584a92c72eb56d43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:58 +0000
Subject: [PATCH 48/54] fix: user-defined forecasters work with time series of
 several components

---
 src/pymgrid/forecast/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 2db8c6f..374061d 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -364,7 +364,7 @@ def _validate_forecasted_value(forecaster_output, true_forecast, val_c, n):
         raise TypeError(
             "Unable to validate forecaster. Forecaster must return numeric np.ndarray or number but returned "
             f"output of type {np.array(forecaster_output).dtype}: {forecaster_output}")
-    elif not (forecaster_output * true_forecast >= 0):
+    elif not np.all(forecaster_output * true_forecast >= 0):
         raise ValueError(
             "Unable to validate forecaster. Forecaster must return output of same sign (or zero) as "
             f"input but returned output {forecaster_output} with inputs "
-- 
2.43.0


From 0fae98e149a666dd652fda47fdd56cc97ad1a992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:18 +0000
Subject: [PATCH 49/54] fix: user-defined forecasters can be validated on
 two-row time series

---
 src/pymgrid/forecast/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 374061d..058e522 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -294,7 +294,7 @@ class NoForecaster(Forecaster):
 
 def _validate_callable_forecaster(forecaster, time_series):
     val_c = time_series[0]
-    n = np.random.randint(2, len(time_series))
+    n = np.random.randint(2, len(time_series) + 1)
     vector_true_forecast = time_series[:n]
     try:
         cast_to_arr = _validate_vectorized_forecaster(forecaster, val_c, vector_true_forecast, n)
-- 
2.43.0


From 4ad679e4d4936d1cc024ae0c4296c07440b01eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:38 +0000
Subject: [PATCH 50/54] fix: benchmarks run the controls of non-modular
 microgrids

---
 src/pymgrid/algos/Control.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/Control.py b/src/pymgrid/algos/Control.py
index cd91eef..e17b0d9 100644
--- a/src/pymgrid/algos/Control.py
+++ b/src/pymgrid/algos/Control.py
@@ -287,14 +287,14 @@ class Benchmarks:
         :return:
             None
         """
-        from pymgrid.algos import RuleBasedControl
-        RBC = RuleBasedControl(self.microgrid)
+        from pymgrid.algos.rbc._nonmodular_rbc import NonModularRuleBasedControl
+        RBC = NonModularRuleBasedControl(self.microgrid)
         self.rule_based_output = RBC.run_rule_based()
         self.has_rule_based_benchmark = True
         self.outputs_dict[self.rule_based_output.alg_name] = self.rule_based_output
 
     def run_saa_benchmark(self, preset_to_use=85, **kwargs):
-        from pymgrid.algos.saa import SampleAverageApproximation
+        from pymgrid.algos.saa.saa import SampleAverageApproximation
         SAA = SampleAverageApproximation(self.microgrid, preset_to_use=preset_to_use, **kwargs)
         self.saa_output = SAA.run(**kwargs)
         self.has_saa_benchmark = True
-- 
2.43.0


From 3d5508ff9befe45111c48d41454118767f77fdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:58 +0000
Subject: [PATCH 51/54] fix: rule-based control starts the genset whose minimum
 it reserved

---
 src/pymgrid/algos/rbc/_nonmodular_rbc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/rbc/_nonmodular_rbc.py b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
index 9eeb765..de3ca7a 100644
--- a/src/pymgrid/algos/rbc/_nonmodular_rbc.py
+++ b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
@@ -98,7 +98,7 @@ class NonModularRuleBasedControl:
                 if min_load <= temp_load:
                     temp_load = temp_load - min_load
                 else:
-                    temp_load = min_load
+                    temp_load = 0
                     priority_dict = {'PV': 0,
                                      'battery': 0,
                                      'grid': 0,
@@ -157,7 +157,7 @@ class NonModularRuleBasedControl:
                         pv_not_curtailed = pv_not_curtailed + p_export
 
                 if gen == 'genset':
-                    if temp_load > 0:
+                    if temp_load + min_load > 0:
                         p_genset = temp_load + min_load
                         temp_load = 0
                         min_load = 0
-- 
2.43.0


From 824d21ae21a24008e02b740820ee1b624051d37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:19 +0000
Subject: [PATCH 52/54] fix: control outputs compare by their total cost

---
 src/pymgrid/algos/Control.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/Control.py b/src/pymgrid/algos/Control.py
index e17b0d9..b306617 100644
--- a/src/pymgrid/algos/Control.py
+++ b/src/pymgrid/algos/Control.py
@@ -217,17 +217,17 @@ class ControlOutput(dict):
     def __eq__(self, other):
         if type(self) != type(other):
             return NotImplemented
-        return np.sum(self['cost']) == np.sum(other['cost'])
+        return np.sum(self['cost']['total_cost']) == np.sum(other['cost']['total_cost'])
 
     def __lt__(self, other):
         if type(self) != type(other):
             return NotImplemented
-        return np.sum(self['cost']) < np.sum(other['cost'])
+        return np.sum(self['cost']['total_cost']) < np.sum(other['cost']['total_cost'])
 
     def __gt__(self, other):
         if type(self) != type(other):
             return NotImplemented
-        return np.sum(self['cost']) > np.sum(other['cost'])
+        return np.sum(self['cost']['total_cost']) > np.sum(other['cost']['total_cost'])
 
 
 class Benchmarks:
-- 
2.43.0


From b2cde14eb50e624bad1a577cdee87f3036e763f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:50 +0000
Subject: [PATCH 53/54] fix: ControlOutput.to_frame leaves the output's records
 unchanged

---
 src/pymgrid/algos/Control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/Control.py b/src/pymgrid/algos/Control.py
index b306617..f69c89f 100644
--- a/src/pymgrid/algos/Control.py
+++ b/src/pymgrid/algos/Control.py
@@ -206,7 +206,7 @@ class ControlOutput(dict):
             for k_2, v_2 in v_1.items():
                 if len(v_2) > max_len:
                     max_len = len(v_2)
-                d[(k_1, k_2)] = v_2
+                d[(k_1, k_2)] = list(v_2)
 
         for _, v in d.items():
             if len(v) < max_len:
-- 
2.43.0


From 0fcdfc8e0a059deb1df9ffe0f961b87f7efd28cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:28 +0000
Subject: [PATCH 54/54] fix: the observation spaces follow a forecaster set on
 a microgrid or an environment

---
 src/pymgrid/envs/base/base.py      | 6 ++++++
 src/pymgrid/microgrid/microgrid.py | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index 0b4be01..38b66c5 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -163,6 +163,12 @@ class BaseMicrogridEnv(Microgrid, Env):
 
         return (flatten_space(obs_space) if self._flat_spaces else obs_space), obs_space
 
+    def set_forecaster(self, *args, **kwargs):
+        super().set_forecaster(*args, **kwargs)
+        self.observation_space, self._nested_observation_space = self._get_observation_space()
+
+    set_forecaster.__doc__ = Microgrid.set_forecaster.__doc__
+
     def reset(self):
         obs = super().reset()
         return self._get_obs(obs)
diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index bcad417..8f93142 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -557,6 +557,11 @@ class Microgrid(yaml.YAMLObject):
                 except AttributeError:
                     pass
 
+        # The observations of the modules, and with them their spaces, depend on the forecasters.
+        self.microgrid_observation_space = MicrogridSpace(
+            self._modules.get_attrs('observation_space', as_pandas=False), 'obs'
+        )
+
     def get_forecast_horizon(self):
         """
         Get the forecast horizon of timeseries modules contained in the microgrid.
-- 
2.43.0

