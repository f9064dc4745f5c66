From 7cac7fbbe1758cc87f38cff7786adf1764cd39bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:33 +0000
Subject: [PATCH 01/58] fix: keep a fully charged battery at max_capacity

Rounding in the efficiency round trip could leave the charge one ulp above
max_capacity; max_consumption then became negative and the next request to
charge failed with an AssertionError.
---
 src/pymgrid/modules/battery_module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/modules/battery_module.py b/src/pymgrid/modules/battery_module.py
index 67692a5..ea5a7fb 100644
--- a/src/pymgrid/modules/battery_module.py
+++ b/src/pymgrid/modules/battery_module.py
@@ -127,6 +127,8 @@ class BatteryModule(BaseMicrogridModule):
         if self._current_charge < self.min_capacity:
             assert np.isclose(self._current_charge, self.min_capacity)
             self._current_charge = self.min_capacity
+        elif self._current_charge > self.max_capacity and np.isclose(self._current_charge, self.max_capacity):
+            self._current_charge = self.max_capacity
         self._soc = self._current_charge/self.max_capacity
 
     def get_cost(self, energy_change):
-- 
2.43.0


From 15cac383c9064f07ef94768c4ce3b807981d89c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:54 +0000
Subject: [PATCH 02/58] fix: battery action bounds used the discharge limit for
 charging and vice versa

Negative actions charge the battery, so the smallest allowed action is given by
max_charge and the largest by max_discharge. With different limits, normalized
actions could not reach part of the feasible range.
---
 src/pymgrid/modules/battery_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/modules/battery_module.py b/src/pymgrid/modules/battery_module.py
index ea5a7fb..71a071d 100644
--- a/src/pymgrid/modules/battery_module.py
+++ b/src/pymgrid/modules/battery_module.py
@@ -333,11 +333,11 @@ class BatteryModule(BaseMicrogridModule):
 
     @property
     def min_act(self):
-        return -self.max_discharge / self.efficiency
+        return -self.max_charge / self.efficiency
 
     @property
     def max_act(self):
-        return self.max_charge * self.efficiency
+        return self.max_discharge * self.efficiency
 
     @property
     def production_marginal_cost(self):
-- 
2.43.0


From bfe35437554e397e048296b9ca9286d700b96dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:05 +0000
Subject: [PATCH 03/58] fix: normalized state_dict of modules with a single
 state component

ModuleSpace.normalize returns a scalar for one-dimensional spaces, which
state_dict(normalized=True) then failed to iterate over. This also broke every
environment with observation_keys.
---
 src/pymgrid/modules/base/base_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 60a25ac..7104a76 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -485,7 +485,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
 
         """
         if normalized:
-            return dict(zip(self.state_dict().keys(), self._observation_space.normalize(self.state)))
+            return dict(zip(self.state_dict().keys(), np.atleast_1d(self._observation_space.normalize(self.state))))
 
         return self._state_dict()
 
-- 
2.43.0


From 2d1554d0c8cb9e5717fbed724d49d2fdb572b975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:30 +0000
Subject: [PATCH 04/58] fix: a log restored from a saved microgrid can be
 appended to

ModularLogger.from_raw kept pandas Series as columns, so that the first step of
a microgrid loaded in the middle of an episode failed with an AttributeError.
---
 src/pymgrid/utils/logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index b693595..3542b74 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -47,5 +47,5 @@ class ModularLogger(UserDict):
         if raw is None:
             return cls()
         elif isinstance(raw, str):
-            raw = pd.read_csv(raw).to_dict()
-        return cls(raw)
+            raw = pd.read_csv(raw).to_dict(orient='list')
+        return cls({k: list(v) for k, v in raw.items()})
-- 
2.43.0


From c7207ee02b45cb03029ad2f51b79bf9c85506af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:30 +0000
Subject: [PATCH 05/58] fix: refresh the forecast of a time series module after
 loading it

The forecast was computed when the instance was created, at its initial step,
and not again after the current step had been restored.
---
 .../modules/base/timeseries/base_timeseries_module.py        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 080fb6c..9445d49 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -345,5 +345,10 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
     def serializable_state_attributes(self):
         return ["_current_step"]
 
+    def deserialize(self, serialized_dict):
+        super().deserialize(serialized_dict)
+        self._current_forecast = self.forecast()
+        return self
+
     def __len__(self):
         return self._time_series.shape[0]
-- 
2.43.0


From 30e529102abf258cb77dbf136d7ea9a6b31e595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:15 +0000
Subject: [PATCH 06/58] fix: as_sink raises AssertionError in modules that are
 not sinks

As documented, and as as_source does; such modules failed with a TypeError.
---
 src/pymgrid/modules/base/base_module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 7104a76..81b2bde 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -258,6 +258,9 @@ class BaseMicrogridModule(yaml.YAMLObject):
         """
 
         assert energy_excess >= 0
+        assert self.is_sink, f'step() was called with negative energy (sink) for module {self} but ' \
+                             f'module is not a sink and ' \
+                             f'can only be called with positive energy.'
 
         if self.module_type[-1] == 'fixed':
             return self.update(None, as_sink=True)
-- 
2.43.0


From 30644a50d55912974785a5ac5ebbd4f6037c5103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:28 +0000
Subject: [PATCH 07/58] fix: stochastic trajectories return non-empty episodes
 in the allowed window

StochasticTrajectory could return an empty episode, which the microgrid rejects,
and neither trajectory could end at the final step; a fixed length equal to the
length of the window was reported as possible and then failed.
---
 src/pymgrid/microgrid/trajectory/stochastic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/microgrid/trajectory/stochastic.py b/src/pymgrid/microgrid/trajectory/stochastic.py
index 8d21b15..f413baa 100644
--- a/src/pymgrid/microgrid/trajectory/stochastic.py
+++ b/src/pymgrid/microgrid/trajectory/stochastic.py
@@ -8,8 +8,8 @@ class StochasticTrajectory(BaseTrajectory):
 
     def __call__(self, initial_step, final_step):
 
-        initial = np.random.randint(initial_step, final_step-2)
-        final = np.random.randint(initial, final_step)
+        initial = np.random.randint(initial_step, final_step)
+        final = np.random.randint(initial+1, final_step+1)
 
         return initial, final
 
@@ -25,6 +25,6 @@ class FixedLengthStochasticTrajectory(BaseTrajectory):
             raise ValueError(f'Cannot create a trajectory of length {self.trajectory_length}'
                              f'between initial_step ({initial_step}) and final_step ({final_step})')
 
-        initial = np.random.randint(initial_step, final_step-self.trajectory_length)
+        initial = np.random.randint(initial_step, final_step-self.trajectory_length+1)
 
         return initial, initial + self.trajectory_length
-- 
2.43.0


From e392036e02338a1ab58152616b0362a5298df4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:40 +0000
Subject: [PATCH 08/58] fix: reject modules of different types with the same
 name

The check for this could never fail; one of the two modules was then missing
from the microgrid's log, state, observations and from reset.
---
 src/pymgrid/modules/module_container.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/modules/module_container.py b/src/pymgrid/modules/module_container.py
index 0ceabf4..8f4d33c 100644
--- a/src/pymgrid/modules/module_container.py
+++ b/src/pymgrid/modules/module_container.py
@@ -389,9 +389,8 @@ def get_subcontainers(modules):
         else:
             raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.__class__.module_type}')
 
-        try:
-            module_names[module_name] = (fixed_flex_controllable, source_sink_both)
-        except KeyError:
+        if module_names.setdefault(module_name, (fixed_flex_controllable, source_sink_both)) != \
+                (fixed_flex_controllable, source_sink_both):
             raise NameError(
                 f'Attempted to add module {module_name} of type {(fixed_flex_controllable, source_sink_both)}, '
                 f'but there is an identically named module of type {module_names[module_name]}.')
-- 
2.43.0


From d5a9bec38ae3bb7aa999239ca9b1d859ca7ba33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:54 +0000
Subject: [PATCH 09/58] fix: set_forecaster with a dict sets the forecasters of
 the named modules

It called set_forecaster on the list of modules with that name and swallowed the
AttributeError, and so had no effect.
---
 src/pymgrid/microgrid/microgrid.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 79049c0..c6babbc 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -529,15 +529,16 @@ class Microgrid(yaml.YAMLObject):
                 if module_name not in self._modules.names():
                     raise NameError(f'Unrecognized module {module_name}.')
 
-                try:
-                    self._modules[module_name].set_forecaster(
-                        _forecaster,
-                        forcast_horizon=forecast_horizon,
-                        forecaster_increase_uncertainty=forecaster_increase_uncertainty,
-                        forecaster_relative_noise=forecaster_relative_noise
-                    )
-                except AttributeError:
-                    pass
+                for module in self._modules.to_dict()[module_name]:
+                    try:
+                        module.set_forecaster(
+                            _forecaster,
+                            forecast_horizon=forecast_horizon,
+                            forecaster_increase_uncertainty=forecaster_increase_uncertainty,
+                            forecaster_relative_noise=forecaster_relative_noise
+                        )
+                    except AttributeError:
+                        pass
         else:
             for module in self._modules.iterlist():
                 try:
-- 
2.43.0


From d9e59efff12d6d6e7258e317e65f6bd075a8f340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:08 +0000
Subject: [PATCH 10/58] fix: set_forecaster takes effect in the current step
 and in saved modules

The forecast in the module's state kept the length of the old horizon until the
next step, so that the normalized state did not match the observation space, and
a saved module kept the forecaster it was created with.
---
 src/pymgrid/modules/base/timeseries/base_timeseries_module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 9445d49..5cd37e5 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -242,6 +242,8 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
                                           self.time_series[self.initial_step:self._final_step, :],
                                           increase_uncertainty=forecaster_increase_uncertainty,
                                           relative_noise=forecaster_relative_noise)
+        self._forecast_param = forecaster
+        self._current_forecast = self.forecast()
 
     @property
     def forecast_horizon(self):
-- 
2.43.0


From 82e15ed2642bf55dad2095b6554b60e543be66bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:00 +0000
Subject: [PATCH 11/58] fix: get_log has one row for every step of the episode

The index started at the microgrid's initial step, which is not where an episode
given by a trajectory function starts; the log then had rows for steps that were
not taken, filled with values of other steps.
---
 src/pymgrid/microgrid/microgrid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index c6babbc..10d6e51 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -463,7 +463,9 @@ class Microgrid(yaml.YAMLObject):
 
         col_names = ['module_name', 'module_number', 'field']
 
-        df = pd.DataFrame(_log_dict, index=pd.RangeIndex(start=self.initial_step, stop=self.current_step))
+        current_step = self.current_step
+        n_steps = max((len(value) for value in _log_dict.values()), default=0)
+        df = pd.DataFrame(_log_dict, index=pd.RangeIndex(start=current_step-n_steps, stop=current_step))
         df.columns = pd.MultiIndex.from_tuples(df.columns.to_list(), names=col_names)
 
         if drop_singleton_key:
-- 
2.43.0


From 3d9816a913e2c1aebf3fa15645addc1fd8580fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:12 +0000
Subject: [PATCH 12/58] fix: GensetModule.sample_action with strict_bound

It normalized a scalar in the genset's two-dimensional action space and failed
with a TypeError.
---
 src/pymgrid/modules/genset_module.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index 4369c27..c5759b0 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -346,7 +346,15 @@ class GensetModule(BaseMicrogridModule):
             self._update_up_down_times()
 
     def sample_action(self, strict_bound=False, **kwargs):
-        return np.array([np.random.rand(), super().sample_action(strict_bound=strict_bound)])
+        goal_status, energy = np.random.rand(2)
+
+        if strict_bound:
+            next_status = round(goal_status)
+            bounds = np.array([self.next_min_production(next_status), self.next_max_production(next_status)])
+            min_bound, max_bound = bounds / (self.running_max_production or 1)
+            energy = energy*(max_bound-min_bound) + min_bound
+
+        return np.array([goal_status, energy])
 
     def _raise_error(self, ask_value, available_value, as_source=False, as_sink=False, lower_bound=False):
         try:
-- 
2.43.0


From 59ff73fbe79bae14b73d44676c36c0220a4b88f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:25 +0000
Subject: [PATCH 13/58] fix: user-defined scalar forecasters near the end of
 the time series

Fewer true values than the horizon remain there; the missing forecasts are
padded like those of any other forecaster, instead of raising a ValueError.
---
 src/pymgrid/forecast/forecaster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 6a45243..32807d0 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -361,8 +361,10 @@ def _validate_forecasted_value(forecaster_output, true_forecast, val_c, n):
 
 def vectorize_scalar_forecaster(forecaster):
     def vectorized(val_c, val_c_n, n):
-        if n != len(val_c_n):
+        if len(val_c_n) > n:
             raise ValueError(f"Incompatible true values length ({val_c_n}) to forecast {n}-steps ahead.")
+        if len(val_c_n) == 0:
+            return val_c_n
         vectorized_output = np.array([forecaster(val_c, val_c_n_i, n_i) for n_i, val_c_n_i in enumerate(val_c_n)])
         try:
             shape = (-1, vectorized_output.shape[1])
-- 
2.43.0


From 9106b5e022ecc60dd56bad6205d6c73fd2f8920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:38 +0000
Subject: [PATCH 14/58] fix: to_nonmodular converts the load to a positive time
 series

Modular loads are stored as negative values and non-modular ones as positive.
---
 src/pymgrid/convert/to_nonmodular_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 9cb8603..72d4e33 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -77,7 +77,7 @@ def add_params_from_module(module, params_dict):
 
 
 def add_load_params(load_module, params_dict):
-    params_dict['load'] = pd.DataFrame(load_module.time_series)
+    params_dict['load'] = pd.DataFrame(-1 * load_module.time_series)
     _add_to_parameters(params_dict,
                        load=-1 * load_module.min_act)
     _add_to_control_dict(params_dict, 'load')
-- 
2.43.0


From 2a9b6504eef8fd462be49ab7c06c23648564acb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:52 +0000
Subject: [PATCH 15/58] fix: do not log actions that are not in the
 environment's action space

The log kept an entry for the rejected action, and had a different number of
entries than the logs of the modules.
---
 src/pymgrid/envs/discrete/discrete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/envs/discrete/discrete.py b/src/pymgrid/envs/discrete/discrete.py
index 5e744fc..6be3899 100644
--- a/src/pymgrid/envs/discrete/discrete.py
+++ b/src/pymgrid/envs/discrete/discrete.py
@@ -138,8 +138,8 @@ class DiscreteMicrogridEnv(BaseMicrogridEnv, PriorityListAlgo):
             Additional information from this step.
 
         """
-        self._microgrid_logger.log(action=action)
         microgrid_action = self._get_action(action)
+        self._microgrid_logger.log(action=action)
         return super().step(microgrid_action, normalized=False)
 
     def sample_action(self, strict_bound=False, sample_flex_modules=False):
-- 
2.43.0


From 8e136d7bbd2eda0c2347f6315d6a9f0aab2d3cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:19 +0000
Subject: [PATCH 16/58] fix: reward shapers count the modules that do report a
 value

With several batteries, the energy provided by discharging ones was ignored as
soon as one of the batteries was charging.
---
 src/pymgrid/microgrid/reward_shaping/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/reward_shaping/base.py b/src/pymgrid/microgrid/reward_shaping/base.py
index f127af1..dbb0694 100644
--- a/src/pymgrid/microgrid/reward_shaping/base.py
+++ b/src/pymgrid/microgrid/reward_shaping/base.py
@@ -11,7 +11,7 @@ class BaseRewardShaper(yaml.YAMLObject):
     def sum_module_val(info, module_name, module_attr):
         try:
             module_info = info[module_name]
-            return sum([d[module_attr] for d in module_info])
+            return sum([d.get(module_attr, 0.0) for d in module_info])
         except KeyError:
             return 0.0
 
-- 
2.43.0


From eab5f185c90b1e74fa10916fe5d45be591adafc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:32 +0000
Subject: [PATCH 17/58] fix: next_status of a genset that does not allow
 abortions

A status change in progress continues whatever the requested status is, as
documented for update_status; next_status ignored that, and update_status failed
with a ValueError in the step in which such a change was completed.
---
 src/pymgrid/modules/genset_module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index c5759b0..9932c4a 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -382,6 +382,11 @@ class GensetModule(BaseMicrogridModule):
             The next status given the current status and the goal status.
 
         """
+        instant_change = self.start_up_time == 0 if goal_status else self.wind_down_time == 0
+        if self._goal_status != self._current_status and not (self.allow_abortion or instant_change):
+            # The status change in progress cannot be aborted.
+            goal_status = self._goal_status
+
         if goal_status:
             if self._current_status:
                 return 1
-- 
2.43.0


From 2f53f371de74241dea5f7ab5a9d2017b0212d05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:47 +0000
Subject: [PATCH 18/58] fix: modules of the same class are saved to different
 files

The time series and the log of every module were saved to a path that only
depends on the module's class, so that two modules of one class overwrote each
other's data.
---
 src/pymgrid/modules/base/base_module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 81b2bde..d917ee6 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -850,7 +850,9 @@ class BaseMicrogridModule(yaml.YAMLObject):
             **self._logger.serialize("log")
         }
 
-        return dump_data(data, dumper_stream, self.yaml_tag)
+        name, number = self.name
+        path_tag = self.yaml_tag if number is None else f"{self.yaml_tag}/{name}_{number}"
+        return dump_data(data, dumper_stream, path_tag)
 
     def serializable_state_attributes(self):
         """
-- 
2.43.0


From 3ab1b118153c3e31ca3c329c47e05a09368b03e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:13 +0000
Subject: [PATCH 19/58] fix: ContinuousMicrogridEnv controls the controllable
 modules

Its action space contained the fixed modules, none of which take an action, and
was empty; flat actions were not converted to the microgrid's controls, values
for loads were computed in an empty action space, and step returned observations
that are not in the observation space.
---
 src/pymgrid/envs/continuous/continuous.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/pymgrid/envs/continuous/continuous.py b/src/pymgrid/envs/continuous/continuous.py
index 870e79a..9ac4cf1 100644
--- a/src/pymgrid/envs/continuous/continuous.py
+++ b/src/pymgrid/envs/continuous/continuous.py
@@ -1,4 +1,4 @@
-from gym.spaces import Dict, Tuple, flatten_space
+from gym.spaces import Dict, Tuple, flatten_space, unflatten
 from warnings import warn
 
 from pymgrid.envs.base import BaseMicrogridEnv
@@ -55,23 +55,19 @@ class ContinuousMicrogridEnv(BaseMicrogridEnv):
 
     def _get_nested_action_space(self):
         return Dict({name: Tuple([module.action_space['normalized'] for module in modules_list])
-                                 for name, modules_list in self.fixed.iterdict() if modules_list[0].is_source})
+                                 for name, modules_list in self.controllable.iterdict()})
 
     def _get_action_space(self):
         self._nested_action_space = self._get_nested_action_space()
         return flatten_space(self._nested_action_space) if self._flat_spaces else self._nested_action_space
 
     def _get_action(self, action):
-        # Action does not have fixed sinks (loads); add those values.
-        assert action in self._nested_action_space, 'Action is not in action space.'
-        action = action.copy()
-        for name, module_list in self.fixed.sinks.iterdict():
-            action[name] = [module.to_normalized(-1 * module.max_consumption, act=True) for module in module_list]
-        return action
+        assert action in self.action_space, 'Action is not in action space.'
+        return unflatten(self._nested_action_space, action) if self._flat_spaces else action
 
     def step(self, action):
-        action = self._get_action(action)
-        return super().run(action)
+        obs, reward, done, info = super().run(self._get_action(action))
+        return self._get_obs(obs), reward, done, info
 
     def run(self, action, normalized=True):
         warn('run() should not be called directly in environments.')
-- 
2.43.0


From 7a5851272d9f0aa14befe9d1b936ed0b74f6bff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:30 +0000
Subject: [PATCH 20/58] fix: gensets that do not allow abortions can change
 their status

A request for a new status was treated like the abortion of a change in progress
and ignored, so that such a genset never started up or wound down unless that is
instantaneous.
---
 src/pymgrid/modules/genset_module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index 9932c4a..d2f5c20 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -288,7 +288,8 @@ class GensetModule(BaseMicrogridModule):
 
         instant_up = self.start_up_time == 0 and goal_status == 1
         instant_down = self.wind_down_time == 0 and goal_status == 0
-        if goal_status != self._goal_status and (self.allow_abortion or instant_up or instant_down):
+        in_progress = self._goal_status != self._current_status
+        if goal_status != self._goal_status and (self.allow_abortion or not in_progress or instant_up or instant_down):
             self._goal_status = goal_status
 
         finished_change = self._finish_in_progress_change()
-- 
2.43.0


From dba7ecb633b61b5d9d6270175c72114b272559dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:08 +0000
Subject: [PATCH 21/58] fix: log entries that are missing in a step are nan

After the forecast horizon of a module was reduced, its log had columns of different lengths
and get_log and dump failed.
---
 src/pymgrid/utils/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index 3542b74..71c62bf 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -25,6 +25,9 @@ class ModularLogger(UserDict):
                 self[key] = [np.nan]*self._log_length
                 self[key].append(value)
 
+        for key in self.keys() - log_dict.keys():
+            self[key].append(np.nan)
+
         self._log_length += 1
 
     def to_dict(self):
-- 
2.43.0


From 90ee8aca0a89e362c74f9775e13ac15edea0068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:38 +0000
Subject: [PATCH 22/58] fix: the balancing module starts at the initial step of
 the other modules

Microgrids of modules with initial_step > 0 could not be constructed.
---
 src/pymgrid/microgrid/microgrid.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 10d6e51..6a73071 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -129,9 +129,11 @@ class Microgrid(yaml.YAMLObject):
 
     def _get_unbalanced_energy_module(self,
                                       loss_load_cost,
-                                      overgeneration_cost):
+                                      overgeneration_cost,
+                                      initial_step=0):
 
         return UnbalancedEnergyModule(raise_errors=False,
+                                      initial_step=initial_step,
                                       loss_load_cost=loss_load_cost,
                                       overgeneration_cost=overgeneration_cost
                                       )
@@ -168,7 +170,10 @@ class Microgrid(yaml.YAMLObject):
             raise TypeError("modules must be list-like of modules.")
 
         if add_unbalanced_module:
-            modules.append(self._get_unbalanced_energy_module(loss_load_cost, overgeneration_cost))
+            initial_steps = {getattr(module[-1] if isinstance(module, tuple) else module, 'initial_step', 0)
+                             for module in modules}
+            initial_step = initial_steps.pop() if len(initial_steps) == 1 else 0
+            modules.append(self._get_unbalanced_energy_module(loss_load_cost, overgeneration_cost, initial_step))
 
         return ModuleContainer(modules)
 
-- 
2.43.0


From d907fc133e5b472d459baf0ff5c024dfa353da95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:28 +0000
Subject: [PATCH 23/58] fix: user-defined forecasters in modules with several
 state components

---
 src/pymgrid/forecast/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 32807d0..bbe94ae 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -352,7 +352,7 @@ def _validate_forecasted_value(forecaster_output, true_forecast, val_c, n):
         raise TypeError(
             "Unable to validate forecaster. Forecaster must return numeric np.ndarray or number but returned "
             f"output of type {np.array(forecaster_output).dtype}: {forecaster_output}")
-    elif not (forecaster_output * true_forecast >= 0):
+    elif not np.all(forecaster_output * true_forecast >= 0):
         raise ValueError(
             "Unable to validate forecaster. Forecaster must return output of same sign (or zero) as "
             f"input but returned output {forecaster_output} with inputs "
-- 
2.43.0


From cfe3fd8928ff9fdd6c423f0baa0afe45dda5774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:53 +0000
Subject: [PATCH 24/58] fix: as_flex and as_fixed convert one grid, not all of
 them

---
 src/pymgrid/modules/grid_module.py      | 4 ++--
 src/pymgrid/modules/module_container.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pymgrid/modules/grid_module.py b/src/pymgrid/modules/grid_module.py
index 03b32c9..9fb249e 100644
--- a/src/pymgrid/modules/grid_module.py
+++ b/src/pymgrid/modules/grid_module.py
@@ -234,7 +234,7 @@ class GridModule(BaseTimeSeriesMicrogridModule):
         Flex modules do not require a control to be passed, and are deployed as necessary to balance load and demand.
 
         """
-        self.__class__.module_type = (self.__class__.module_type[0], 'flex')
+        self.module_type = (self.module_type[0], 'flex')
 
     def as_fixed(self):
         """
@@ -243,7 +243,7 @@ class GridModule(BaseTimeSeriesMicrogridModule):
         Flex modules require a control to be passed.
 
         """
-        self.__class__.module_type = (self.__class__.module_type[0], 'fixed')
+        self.module_type = (self.module_type[0], 'fixed')
 
     @property
     def import_price(self):
diff --git a/src/pymgrid/modules/module_container.py b/src/pymgrid/modules/module_container.py
index 8f4d33c..407ef9f 100644
--- a/src/pymgrid/modules/module_container.py
+++ b/src/pymgrid/modules/module_container.py
@@ -366,10 +366,10 @@ def get_subcontainers(modules):
     for module in modules:
         try:  # module is a tuple
             module_name, module = module
-            fixed_flex_controllable = module.__class__.module_type[1]
+            fixed_flex_controllable = module.module_type[1]
         except TypeError:  # module is a module
             try:
-                module_name, fixed_flex_controllable = module.__class__.module_type
+                module_name, fixed_flex_controllable = module.module_type
             except TypeError:
                 raise NotImplementedError(
                     f'Must define the class attribute module_type for class {module.__class__.__name__}')
@@ -387,7 +387,7 @@ def get_subcontainers(modules):
         elif fixed_flex_controllable == 'controllable':
             d = controllable
         else:
-            raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.__class__.module_type}')
+            raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.module_type}')
 
         if module_names.setdefault(module_name, (fixed_flex_controllable, source_sink_both)) != \
                 (fixed_flex_controllable, source_sink_both):
-- 
2.43.0


From 0d257c32d7175c63a79fa253a2143b2c886dbeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:07 +0000
Subject: [PATCH 25/58] fix: compare forecasters that contain arrays

---
 src/pymgrid/forecast/forecaster.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index bbe94ae..827cc0b 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -166,8 +166,7 @@ class Forecaster:
         if type(self) != type(other):
             return NotImplemented
 
-        return (self._fill_arr == other._fill_arr).all() and \
-               all(v == other.__dict__[k] for k, v in self.__dict__.items() if k != '_fill_arr')
+        return all(np.array_equal(v, other.__dict__[k]) for k, v in self.__dict__.items())
 
     def __call__(self, val_c, val_c_n, n):
         if len(val_c_n.shape) == 1:
-- 
2.43.0


From 79ed9920f2ac5e616152b423be787b6fdd0cabf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:19 +0000
Subject: [PATCH 26/58] fix: microgrids saved next to each other do not share
 data files

---
 src/pymgrid/utils/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/serialize.py b/src/pymgrid/utils/serialize.py
index 45be9c2..3757dcb 100644
--- a/src/pymgrid/utils/serialize.py
+++ b/src/pymgrid/utils/serialize.py
@@ -25,7 +25,7 @@ def dump_data(data_dict, stream, yaml_tag):
     if not hasattr(stream, "name"):
         return data_dict
 
-    path = Path(stream.name).parent / "data"
+    path = Path(stream.name).parent / "data" / Path(stream.name).name
     return add_path_to_arr_like(data_dict, path, yaml_tag)
 
 
-- 
2.43.0


From bce2c3054b8007b5ced7dee1ef9f7d783c17b5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:11 +0000
Subject: [PATCH 27/58] fix: loading a saved microgrid restores the exact
 values

---
 src/pymgrid/utils/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/serialize.py b/src/pymgrid/utils/serialize.py
index 3757dcb..0148fe1 100644
--- a/src/pymgrid/utils/serialize.py
+++ b/src/pymgrid/utils/serialize.py
@@ -102,7 +102,7 @@ def _pandas_df_constructor(loader, node):
 
         data_path = Path(stream_name).parent / data_path
 
-    return pd.read_csv(data_path, index_col=0)
+    return pd.read_csv(data_path, index_col=0, float_precision="round_trip")
 
 
 def _numpy_arr_constructor(loader, node):
-- 
2.43.0


From 20cd461ce4d84914893419c8cc154ea52206e53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:35 +0000
Subject: [PATCH 28/58] fix: nested observations contain all of the observation
 keys

---
 src/pymgrid/envs/base/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index f35bdd5..a992f2c 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -215,7 +215,8 @@ class BaseMicrogridEnv(Microgrid, Env):
             if self._flat_spaces:
                 obs = obs.values
             else:
-                obs = obs.to_frame().unstack(level=1).T.droplevel(level=1, axis=1).to_dict(orient='list')
+                obs = {name: [values.values for _, values in module_obs.groupby(level=1)]
+                       for name, module_obs in obs.groupby(level=0)}
 
         elif self._flat_spaces:
             obs = flatten(self._nested_observation_space, obs)
-- 
2.43.0


From 27940108adfbdb6a132d1510ada69d05f269f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:12 +0000
Subject: [PATCH 29/58] fix: BatteryDischargeShaper stays in [-1, 1] when
 batteries export or charge

---
 .../microgrid/reward_shaping/battery_discharge_shaper.py     | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
index 073f519..0f13f68 100644
--- a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
+++ b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
@@ -24,11 +24,10 @@ class BatteryDischargeShaper(BaseRewardShaper):
         load = self.sum_module_val(step_info, 'load', 'absorbed_energy')
         loss_load = self.sum_module_val(step_info, 'unbalanced_energy', 'provided_energy')
 
-        # battery_discharge is in [0, load-loss_load]; loss_load is in [0, load].
+        # battery_discharge exceeds load when exporting; loss_load exceeds load when charging without sufficient energy.
         try:
             percent_battery = (battery_discharge - loss_load) / load
         except ZeroDivisionError:
             return 0.0
 
-        assert -1 <= percent_battery <= 1 or np.isclose(percent_battery, 1) or np.isclose(percent_battery, 0)
-        return percent_battery
+        return float(np.clip(percent_battery, -1, 1))
-- 
2.43.0


From 7a6d95589a8e85f56ab6ce971ce43887a6ec2527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:37 +0000
Subject: [PATCH 30/58] fix: BatteryDischargeShaper returns 0 when there is no
 load

---
 .../microgrid/reward_shaping/battery_discharge_shaper.py     | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
index 0f13f68..c799c6c 100644
--- a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
+++ b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
@@ -25,9 +25,8 @@ class BatteryDischargeShaper(BaseRewardShaper):
         loss_load = self.sum_module_val(step_info, 'unbalanced_energy', 'provided_energy')
 
         # battery_discharge exceeds load when exporting; loss_load exceeds load when charging without sufficient energy.
-        try:
-            percent_battery = (battery_discharge - loss_load) / load
-        except ZeroDivisionError:
+        if load == 0:
             return 0.0
 
+        percent_battery = (battery_discharge - loss_load) / load
         return float(np.clip(percent_battery, -1, 1))
-- 
2.43.0


From 83855de4fca7cad38d6f2f15696d371b5d94cf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:41 +0000
Subject: [PATCH 31/58] fix: logger_last reads the last entry of every logged
 quantity

Iterating the logger yields its keys, so unpacking failed on any non-empty log.
---
 src/pymgrid/modules/base/base_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index d917ee6..d6d5a41 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -466,7 +466,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
         entry : dict
 
         """
-        return {k: v[-1] for k, v in self._logger}
+        return {k: v[-1] for k, v in self._logger.items()}
 
     @logger.setter
     def logger(self, logger):
-- 
2.43.0


From 57c30a1a74cfbe3619c3cd37348afef4afc026ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:55 +0000
Subject: [PATCH 32/58] fix: log_dict returns a copy of the log

The copy was shallow: appending to a returned column changed the log itself.
---
 src/pymgrid/utils/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index 71c62bf..51ea531 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -31,7 +31,7 @@ class ModularLogger(UserDict):
         self._log_length += 1
 
     def to_dict(self):
-        return self.data.copy()
+        return {k: list(v) for k, v in self.data.items()}
 
     def raw(self):
         return {k: list(map(float, v)) for k, v in self.data.items()}
-- 
2.43.0


From 3c8c2e886e3b7621d67c67cbfd36a15af0e60889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:04 +0000
Subject: [PATCH 33/58] fix: model predictive control knows about outages of
 the grid

It planned with a grid that is always available, so it relied on imports
during known outages and lost load that a genset or battery could have met.
---
 src/pymgrid/algos/mpc/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index d4429f6..dac98ad 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -911,7 +911,7 @@ class ModelPredictiveControl:
 
             grid_max_import, grid_max_export = 0, 0
         else:
-            grid_status = np.ones(self.horizon)
+            grid_status = grid.grid_status
 
             price_import = grid.import_price
             price_export = grid.export_price
-- 
2.43.0


From 9e5b93940a641971c0fc48f42885046f288a264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:15 +0000
Subject: [PATCH 34/58] fix: model predictive control finds batteries of any
 name

All components but the battery were looked up by the name they have in the
microgrid; a battery with a name of its own failed with an AttributeError.
---
 src/pymgrid/algos/mpc/mpc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index dac98ad..54492e2 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -197,7 +197,7 @@ class ModelPredictiveControl:
         return eta, battery_capacity, fuel_cost, cost_battery_cycle, cost_loss_load, p_genset_min, p_genset_max, cost_co2, genset_co2
 
     def _parse_modular_microgrid(self):
-        battery = self.microgrid.battery.item()
+        battery = self.microgrid.modules[self.microgrid_module_names["battery"]].item()
 
         eta = battery.efficiency
         battery_capacity = battery.max_capacity
@@ -921,8 +921,8 @@ class ModelPredictiveControl:
             grid_max_import, grid_max_export = grid.max_import, grid.max_export
 
         try:
-            battery = self.microgrid.battery.item()
-        except AttributeError:
+            battery = self.microgrid.modules[self.microgrid_module_names["battery"]].item()
+        except KeyError:
             raise ValueError(f"Microgrid {self.microgrid} has no battery.")
         else:
             e_min = battery.min_soc
-- 
2.43.0


From 346b116f9d9e4f0a84590241e858246f724d0ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:26 +0000
Subject: [PATCH 35/58] fix: model predictive control prices grid emissions at
 the grid's cost

The mean of the genset's and the grid's cost per unit of CO2 was used.
---
 src/pymgrid/algos/mpc/mpc.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index 54492e2..290a922 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -907,7 +907,7 @@ class ModelPredictiveControl:
             price_import = np.zeros(self.horizon)
             price_export = np.zeros(self.horizon)
             grid_co2_per_kwh = np.zeros(self.horizon)
-            cost_co2 = []
+            cost_co2 = 0.0
 
             grid_max_import, grid_max_export = 0, 0
         else:
@@ -916,7 +916,7 @@ class ModelPredictiveControl:
             price_import = grid.import_price
             price_export = grid.export_price
             grid_co2_per_kwh = grid.co2_per_kwh
-            cost_co2 = [grid.cost_per_unit_co2]
+            cost_co2 = grid.cost_per_unit_co2
 
             grid_max_import, grid_max_export = grid.max_import, grid.max_export
 
@@ -939,9 +939,6 @@ class ModelPredictiveControl:
         else:
             genset_max_prod = genset.running_max_production
             genset_co2_per_kwh = genset.co2_per_unit
-            cost_co2.append(genset.cost_per_unit_co2)
-
-        cost_co2 = np.mean(cost_co2)
 
         return (
             load_state,
-- 
2.43.0


From 8fcc05ec462bb9bf69d5d2c6d0e5e668e2818744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:39 +0000
Subject: [PATCH 36/58] fix: model predictive control counts export as revenue

Exports were charged with the export price, although the microgrid pays it:
no energy was ever sold, and with a positive price surplus was curtailed.
---
 src/pymgrid/algos/mpc/mpc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index 290a922..0c25137 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -91,7 +91,7 @@ class ModelPredictiveControl:
         else:
             self.p_vars = cp.Variable((7*self.horizon,), pos=True)
             self.u_genset = None
-            self.costs = cp.Parameter(7 * self.horizon, nonneg=True)
+            self.costs = cp.Parameter(7 * self.horizon)
             self.inequality_rhs = cp.Parameter(8 * self.horizon)
 
         self.equality_rhs = cp.Parameter(2 * self.horizon)  # rhs
@@ -483,10 +483,10 @@ class ModelPredictiveControl:
         # Set costs
         if self.has_genset:
             self.costs.value[1::8] = import_price.reshape(-1) + grid_co2.reshape(-1) * cost_co2
-            self.costs.value[2::8] = export_price.reshape(-1)
+            self.costs.value[2::8] = -1.0 * export_price.reshape(-1)
         else:
             self.costs.value[0::7] = import_price.reshape(-1) + grid_co2.reshape(-1) * cost_co2
-            self.costs.value[1::7] = export_price.reshape(-1)
+            self.costs.value[1::7] = -1.0 * export_price.reshape(-1)
 
         if np.isnan(self.costs.value).any():
             raise RuntimeError('There are still nan values in self.costs.value, something is wrong')
-- 
2.43.0


From 500c6e8e8bd4675d2ae6351a02e2f3a4126192d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:16 +0000
Subject: [PATCH 37/58] fix: model predictive control respects the limits of
 inefficient batteries

The maximum charge and discharge of a battery limit the energy that enters or
leaves its store. The plan took them as limits of the energy it exchanges with
the microgrid, asked for more than the battery can deliver, and lost load.
---
 src/pymgrid/algos/mpc/mpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index 0c25137..06e6184 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -927,8 +927,8 @@ class ModelPredictiveControl:
         else:
             e_min = battery.min_soc
             e_max = battery.max_soc
-            battery_max_charge = battery.max_charge
-            battery_max_discharge = battery.max_discharge
+            battery_max_charge = battery.max_charge / battery.efficiency     # limits of a battery are internal,
+            battery_max_discharge = battery.max_discharge * battery.efficiency  # the plan is about external energy.
 
             soc_0 = battery.soc
 
-- 
2.43.0


From 411b08aad62dba826f354eb81c4040d4dfcdf5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:14 +0000
Subject: [PATCH 38/58] fix: nonmodular microgrids without a grid charge
 batteries by what was carried out

The requested amounts, before they were limited, changed the state of charge.
---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 1d98207..943d184 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -655,7 +655,7 @@ class NonModularMicrogrid:
 
             self._df_record_cost = self._record_cost({ i:self._df_record_actual_production[i][-1] for i in self._df_record_actual_production},
                                                      self._df_record_cost, self._df_record_co2)
-            self._df_record_state = self._update_status(control_dict,
+            self._df_record_state = self._update_status({key: value[-1] for key, value in self._df_record_actual_production.items()},
                                                         self._df_record_state, self._next_load, self._next_pv)
 
         if self._tracking_timestep == self._data_length - self.horizon or self._tracking_timestep == self._data_length - 1:
-- 
2.43.0


From 56cc19e3959a10c5b74cfe1a2bb80cc4ae5b5b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:14 +0000
Subject: [PATCH 39/58] fix: nonmodular microgrids can serve their load without
 any pv

With exactly enough energy from other sources an assertion failed.
---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 943d184..d5347cb 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -1059,7 +1059,7 @@ class NonModularMicrogrid:
             pv_curtailed = 0
             overgeneration = 0
 
-        elif 0 < pv_required < pv_available:                # curtail pv
+        elif 0 <= pv_required < pv_available:               # curtail pv
             pv_consumed = pv_required
             loss_load = 0
             pv_curtailed = pv_available-pv_required
-- 
2.43.0


From 9f6b1edf4b2ebd343258f057eb7d45c2412ad56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:14 +0000
Subject: [PATCH 40/58] fix: nonmodular microgrids report the grid of the
 second step after the first

Until the first reset, the values of the first step were reported again.
---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index d5347cb..2a8b71f 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -363,10 +363,10 @@ class NonModularMicrogrid:
             self._grid_price_export=parameters['grid_price_export']
             self._grid_co2 = parameters['grid_co2']
 
-            self._next_grid_status = self._grid_status_ts.iloc[0, 0]
-            self._next_grid_price_export = self._grid_price_export.iloc[0, 0]
-            self._next_grid_price_import = self._grid_price_import.iloc[0, 0]
-            self._next_grid_co2 = self._grid_co2.iloc[0, 0]
+            self._next_grid_status = self._grid_status_ts.iloc[1, 0]
+            self._next_grid_price_export = self._grid_price_export.iloc[1, 0]
+            self._next_grid_price_import = self._grid_price_import.iloc[1, 0]
+            self._next_grid_co2 = self._grid_co2.iloc[1, 0]
 
         # those dataframe record what is happening at each time step
         self._df_record_control_dict=parameters['df_actions']
-- 
2.43.0


From 31a4ac5d82e6eeb41647f3bc6b59789f6f713777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:14 +0000
Subject: [PATCH 41/58] fix: nonmodular microgrids cannot import or export
 during outages of the grid

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 2a8b71f..4979814 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -932,7 +932,7 @@ class NonModularMicrogrid:
 
         return p_genset
 
-    def _check_constraints_grid(self, p_import, p_export):
+    def _check_constraints_grid(self, p_import, p_export, grid_status=1):
         """ This function checks that the constraints of the grid are respected."""
         if p_import < 0:
             p_import = 0
@@ -945,11 +945,14 @@ class NonModularMicrogrid:
             #print ('cannot import and export at the same time')
             #todo how to deal with that?
 
-        if p_import > self.parameters['grid_power_import'].values[0]:
-            p_import = self.parameters['grid_power_import'].values[0]
+        max_import = self.parameters['grid_power_import'].values[0] * grid_status
+        max_export = self.parameters['grid_power_export'].values[0] * grid_status
 
-        if p_export > self.parameters['grid_power_export'].values[0]:
-            p_export = self.parameters['grid_power_export'].values[0]
+        if p_import > max_import:
+            p_import = max_import
+
+        if p_export > max_export:
+            p_export = max_export
 
         return p_import, p_export
 
@@ -1032,7 +1035,8 @@ class NonModularMicrogrid:
 
         if has_grid:
             p_import, p_export = self._check_constraints_grid(control_dict['grid_import'],
-                                                                    control_dict['grid_export'])
+                                                                    control_dict['grid_export'],
+                                                              status['grid_status'][-1])
             production_dict['grid_import'].append(p_import)
             production_dict['grid_export'].append(p_export)
 
-- 
2.43.0


From 1b2d3806946108c9780e4f87340dcbded669e50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:14 +0000
Subject: [PATCH 42/58] fix: running a nonmodular microgrid does not modify the
 controls it is given

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 4979814..1c0e9c7 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -626,6 +626,7 @@ class NonModularMicrogrid:
 
         """
 
+        control_dict = dict(control_dict)               # leave the caller's controls as they are
         control_dict['load'] = self.load
         control_dict['pv'] = self.pv
 
-- 
2.43.0


From 91aa91f3f01d4b5afedfd0c4ec81e95830c707c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:14 +0000
Subject: [PATCH 43/58] fix: nonmodular microgrids record controls that were
 not given as zero

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 1c0e9c7..d5cae61 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -862,7 +862,7 @@ class NonModularMicrogrid:
             if j in control_dict.keys():
                 df[j].append(control_dict[j])
             else:
-                df[j].append({j:0})
+                df[j].append(0)
         #df = df.append(control_dict,ignore_index=True)
 
         return df
-- 
2.43.0


From 902a5d09c0ab041bacaf70b6db4401bcb9daa56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:14 +0000
Subject: [PATCH 44/58] fix: nonmodular microgrids report the hour of the
 coming step

All reported values but the hour were those of the coming step.
---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index d5cae61..ba0f984 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -878,7 +878,7 @@ class NonModularMicrogrid:
         new_dict = {
             'load': next_load,
                     'pv': next_pv,
-            'hour':self._tracking_timestep%24,
+            'hour': (df['hour'][-1] + 1) % 24,
         }
         new_soc =np.nan
         if self.architecture['battery'] == 1:
-- 
2.43.0


From f1a5c0dfcf3e423e103597c4cabafcf4a880d784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 45/58] fix: resetting a nonmodular microgrid to its testing
 data reports that data

The first values of the training data were reported.
---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index ba0f984..0416198 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -842,6 +842,13 @@ class NonModularMicrogrid:
                 self._data_length = min(self._load_ts.shape[0], self._pv_ts.shape[0])
 
         self.update_variables()
+        self._df_record_state['load'] = [self.load]         # of the data set that is used from now on
+        self._df_record_state['pv'] = [self.pv]
+        if self.architecture['grid'] == 1:
+            self._df_record_state['grid_status'] = [self.grid.status]
+            self._df_record_state['grid_price_import'] = [self.grid.price_import]
+            self._df_record_state['grid_price_export'] = [self.grid.price_export]
+            self._df_record_state['grid_co2'] = [self.grid.co2]
         self.done = False
 
 
-- 
2.43.0


From f5a95445d687931504a7cb27301025d15d73efa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 46/58] fix: converting to a nonmodular microgrid reports the
 values of its first step

Nonmodular microgrids start at the first step of the data, wherever the modular one is.
---
 src/pymgrid/convert/to_nonmodular_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 72d4e33..2af1243 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -83,7 +83,7 @@ def add_load_params(load_module, params_dict):
     _add_to_control_dict(params_dict, 'load')
     _add_to_df_actual_generation(params_dict, 'loss_load')
     _add_to_df_actions(params_dict, 'load')
-    _add_to_df_status(params_dict, load=round(load_module.current_load, 1))
+    _add_to_df_status(params_dict, load=round(-1 * load_module.time_series[0].item(), 1))
 
 
 def add_pv_params(pv_module, params_dict):
@@ -91,7 +91,7 @@ def add_pv_params(pv_module, params_dict):
     _add_to_architecture(params_dict, 'PV')
     _add_to_parameters(params_dict, PV_rated_power=pv_module.max_act)
     _add_to_df_actions(params_dict, 'pv_consummed','pv_curtailed','pv')
-    _add_to_df_status(params_dict, pv=[pv_module.current_renewable])
+    _add_to_df_status(params_dict, pv=[pv_module.time_series[0].item()])
     _add_to_df_actual_generation(params_dict, 'pv_consummed','pv_curtailed')
     _add_to_control_dict(params_dict, 'pv_consummed', 'pv_curtailed', 'pv')
 
-- 
2.43.0


From 567a328420e4cad50ff0a59a1eb4185428b1ad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 47/58] fix: converting to a nonmodular microgrid keeps the
 size of the load

---
 src/pymgrid/convert/to_nonmodular_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 2af1243..288ce22 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -79,7 +79,7 @@ def add_params_from_module(module, params_dict):
 def add_load_params(load_module, params_dict):
     params_dict['load'] = pd.DataFrame(-1 * load_module.time_series)
     _add_to_parameters(params_dict,
-                       load=-1 * load_module.min_act)
+                       load=-1 * load_module.time_series.min())
     _add_to_control_dict(params_dict, 'load')
     _add_to_df_actual_generation(params_dict, 'loss_load')
     _add_to_df_actions(params_dict, 'load')
-- 
2.43.0


From 2fc81ac61a0ad5b3ac443fdb8af2d568415ed8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 48/58] fix: converting to a nonmodular microgrid reports how
 much the battery can discharge

---
 src/pymgrid/convert/to_nonmodular_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 288ce22..1b5cfa9 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -113,7 +113,7 @@ def add_battery_params(battery_module, params_dict):
                       capa_to_charge=round((battery_module.max_soc-battery_module.soc) *
                                      battery_module.max_capacity/battery_module.efficiency, 1),
                       capa_to_discharge=round((battery_module.soc-battery_module.min_soc) *
-                                        battery_module.max_capacity/battery_module.efficiency, 1)
+                                        battery_module.max_capacity*battery_module.efficiency, 1)
                       )
     _add_to_df_actual_generation(params_dict, 'battery_charge', 'battery_discharge')
     _add_to_df_cost(params_dict, 'battery')
-- 
2.43.0


From c78beaa017bb1b930ef5459bb3254e385e6f3e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:39 +0000
Subject: [PATCH 49/58] fix: converting to a nonmodular microgrid does not
 reseed the random number generator

---
 src/pymgrid/convert/to_nonmodular_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 1b5cfa9..59f04e9 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -227,9 +227,9 @@ def _add_cost_co2(params_dict, cost_co2):
 
 
 def _add_genset_polynom(params_dict):
-    np.random.seed(0)
     warn('Getting genset_polynom parameters randomly')
-    polynom = [np.random.rand() * 10, np.random.rand(), np.random.rand() / 10]
+    rng = np.random.RandomState(0)
+    polynom = [rng.rand() * 10, rng.rand(), rng.rand() / 10]
 
     to_add = dict(genset_polynom_order= len(polynom))
     to_add.update({f'genset_polynom_{i}': pn for i, pn in enumerate(polynom)})
-- 
2.43.0


From 91788db70169732dc5099bf87ac8cfcf7afa4aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:15 +0000
Subject: [PATCH 50/58] fix: converting a nonmodular microgrid with an empty
 battery gives a battery that can be used

---
 src/pymgrid/convert/get_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/convert/get_module.py b/src/pymgrid/convert/get_module.py
index 28aea4f..6578242 100644
--- a/src/pymgrid/convert/get_module.py
+++ b/src/pymgrid/convert/get_module.py
@@ -44,7 +44,7 @@ def get_battery_module(nonmodular, raise_errors):
     max_discharge = battery.p_discharge_max
     efficiency = battery.efficiency
     battery_cost_cycle = battery.cost_cycle
-    init_soc = battery.soc
+    init_soc = max(battery.soc, battery.soc_min)  # may be below by a rounding error
     return BatteryModule(min_capacity=min_capacity,
                          max_capacity=max_capacity,
                          max_charge=max_charge,
-- 
2.43.0


From 2b916acf440c047d3cad6c55662bc8f7493c2c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:08 +0000
Subject: [PATCH 51/58] fix: the generator's choice of data files does not
 depend on the file system

---
 src/pymgrid/MicrogridGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/MicrogridGenerator.py b/src/pymgrid/MicrogridGenerator.py
index f24f771..3d15b68 100644
--- a/src/pymgrid/MicrogridGenerator.py
+++ b/src/pymgrid/MicrogridGenerator.py
@@ -129,7 +129,7 @@ class MicrogridGenerator:
         """ Based on a path, and a folder containing data files, return a file chosen randomly."""
         from pathlib import Path
         _path = Path(path)
-        data_files = list(_path.glob("*.csv"))
+        data_files = sorted(_path.glob("*.csv"))
         if not len(data_files):
             raise NameError(f"Unable to find csv data files in {path}")
         return pd.read_csv(np.random.choice(data_files))
-- 
2.43.0


From 9766c9090ae1f65085a7aeae8c261ffebf677a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:20 +0000
Subject: [PATCH 52/58] fix: outputs of controls compare by their total costs

---
 src/pymgrid/algos/Control.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/Control.py b/src/pymgrid/algos/Control.py
index cd91eef..0862467 100644
--- a/src/pymgrid/algos/Control.py
+++ b/src/pymgrid/algos/Control.py
@@ -217,17 +217,17 @@ class ControlOutput(dict):
     def __eq__(self, other):
         if type(self) != type(other):
             return NotImplemented
-        return np.sum(self['cost']) == np.sum(other['cost'])
+        return np.sum(self['cost']['total_cost']) == np.sum(other['cost']['total_cost'])
 
     def __lt__(self, other):
         if type(self) != type(other):
             return NotImplemented
-        return np.sum(self['cost']) < np.sum(other['cost'])
+        return np.sum(self['cost']['total_cost']) < np.sum(other['cost']['total_cost'])
 
     def __gt__(self, other):
         if type(self) != type(other):
             return NotImplemented
-        return np.sum(self['cost']) > np.sum(other['cost'])
+        return np.sum(self['cost']['total_cost']) > np.sum(other['cost']['total_cost'])
 
 
 class Benchmarks:
-- 
2.43.0


From 719f670f6bcbcca88590f9b671d9ec231247a784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:20 +0000
Subject: [PATCH 53/58] fix: showing the output of a control as a frame does
 not change the output

---
 src/pymgrid/algos/Control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/Control.py b/src/pymgrid/algos/Control.py
index 0862467..795cbb5 100644
--- a/src/pymgrid/algos/Control.py
+++ b/src/pymgrid/algos/Control.py
@@ -206,7 +206,7 @@ class ControlOutput(dict):
             for k_2, v_2 in v_1.items():
                 if len(v_2) > max_len:
                     max_len = len(v_2)
-                d[(k_1, k_2)] = v_2
+                d[(k_1, k_2)] = list(v_2)
 
         for _, v in d.items():
             if len(v) < max_len:
-- 
2.43.0


From 6a3f052a61b66bb0c178c1b2cde335e317f181d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:20 +0000
Subject: [PATCH 54/58] fix: the rule based benchmark uses the rule based
 control of nonmodular microgrids

---
 src/pymgrid/algos/Control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/Control.py b/src/pymgrid/algos/Control.py
index 795cbb5..b9b8ebb 100644
--- a/src/pymgrid/algos/Control.py
+++ b/src/pymgrid/algos/Control.py
@@ -287,8 +287,8 @@ class Benchmarks:
         :return:
             None
         """
-        from pymgrid.algos import RuleBasedControl
-        RBC = RuleBasedControl(self.microgrid)
+        from pymgrid.algos.rbc._nonmodular_rbc import NonModularRuleBasedControl
+        RBC = NonModularRuleBasedControl(self.microgrid)
         self.rule_based_output = RBC.run_rule_based()
         self.has_rule_based_benchmark = True
         self.outputs_dict[self.rule_based_output.alg_name] = self.rule_based_output
-- 
2.43.0


From e443dc72db96cdd37e7d71a8ea017efa5549334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:20 +0000
Subject: [PATCH 55/58] fix: the rule based benchmark covers as many steps as
 the others

---
 src/pymgrid/algos/rbc/_nonmodular_rbc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/rbc/_nonmodular_rbc.py b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
index 9eeb765..e4fbdf8 100644
--- a/src/pymgrid/algos/rbc/_nonmodular_rbc.py
+++ b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
@@ -188,8 +188,8 @@ class NonModularRuleBasedControl:
         baseline_priority_list_cost = deepcopy(self.microgrid._df_record_cost)
         baseline_priority_list_co2 = deepcopy(self.microgrid._df_record_co2)
 
-        if length is None or length >= self.microgrid._data_length:
-            length = self.microgrid._data_length-1
+        if length is None or length > self.microgrid._data_length:
+            length = self.microgrid._data_length
 
         n = length - self.microgrid.horizon
         print_ratio = n/100
-- 
2.43.0


From bfee6d35ea325834fcbc3c2d3298243400d7199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:20 +0000
Subject: [PATCH 56/58] fix: rule based control runs the genset whose minimum
 it counts on, and at no more than it

---
 src/pymgrid/algos/rbc/_nonmodular_rbc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/rbc/_nonmodular_rbc.py b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
index e4fbdf8..ab2ca07 100644
--- a/src/pymgrid/algos/rbc/_nonmodular_rbc.py
+++ b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
@@ -98,7 +98,7 @@ class NonModularRuleBasedControl:
                 if min_load <= temp_load:
                     temp_load = temp_load - min_load
                 else:
-                    temp_load = min_load
+                    temp_load = 0
                     priority_dict = {'PV': 0,
                                      'battery': 0,
                                      'grid': 0,
@@ -157,7 +157,7 @@ class NonModularRuleBasedControl:
                         pv_not_curtailed = pv_not_curtailed + p_export
 
                 if gen == 'genset':
-                    if temp_load > 0:
+                    if temp_load > 0 or min_load > 0:
                         p_genset = temp_load + min_load
                         temp_load = 0
                         min_load = 0
-- 
2.43.0


From 63cb3837f775fc990114f3a651544a311ea6d3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:20 +0000
Subject: [PATCH 57/58] fix: sample average approximation records the status of
 the next step after a step

---
 src/pymgrid/algos/saa/saa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/saa/saa.py b/src/pymgrid/algos/saa/saa.py
index cd68acd..56f2702 100644
--- a/src/pymgrid/algos/saa/saa.py
+++ b/src/pymgrid/algos/saa/saa.py
@@ -142,9 +142,9 @@ class SampleAverageApproximation(SampleGenerator):
             # return horizon_outputs
 
             optimal_output = self.determine_optimal_actions(outputs=horizon_outputs, percentile=optimal_percentile)
-            output.append(optimal_output, actual_load=self.underlying_data.loc[j,'load'],
-                          actual_pv=self.underlying_data.loc[j,'pv'],
-                          actual_grid=self.underlying_data.loc[j,'grid'])
+            output.append(optimal_output, actual_load=self.underlying_data.loc[j+1,'load'],
+                          actual_pv=self.underlying_data.loc[j+1,'pv'],
+                          actual_grid=self.underlying_data.loc[j+1,'grid'])
 
         return output
 
-- 
2.43.0


From dfe9f1cee3722102d8be4436e3df083591f8e4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:44 +0000
Subject: [PATCH 58/58] fix: model predictive control of nonmodular microgrids
 does not charge and discharge at once

---
 src/pymgrid/algos/mpc/mpc.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index 06e6184..a78603e 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -820,7 +820,7 @@ class ModelPredictiveControl:
                                 'load': load_vector[0],
                                 'pv': pv_vector[0]}
 
-            return control_dict
+            return self._flatten_battery(control_dict)
 
         else:
             if return_steps > self.horizon:
@@ -843,7 +843,7 @@ class ModelPredictiveControl:
                                     'load': load_vector[j],
                                     'pv': pv_vector[j]}
 
-                    control_dicts.append(control_dict)
+                    control_dicts.append(self._flatten_battery(control_dict))
 
             else:
                 for j in range(return_steps):
@@ -859,10 +859,18 @@ class ModelPredictiveControl:
                                     'load': load_vector[j],
                                     'pv': pv_vector[j]}
 
-                    control_dicts.append(control_dict)
+                    control_dicts.append(self._flatten_battery(control_dict))
 
             return control_dicts
 
+    @staticmethod
+    def _flatten_battery(control_dict):
+        """Charging and discharging at once is only possible as the difference."""
+        battery_diff = control_dict['battery_discharge'] - control_dict['battery_charge']
+        control_dict['battery_charge'] = max(-battery_diff, 0.0)
+        control_dict['battery_discharge'] = max(battery_diff, 0.0)
+        return control_dict
+
     def _extract_modular_control(self, load_vector, verbose):
         control = dict()
         control_vals = list(self.p_vars.value)
-- 
2.43.0

