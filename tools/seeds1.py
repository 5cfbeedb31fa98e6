PRE = '''import warnings; warnings.filterwarnings('ignore')
import numpy as np
from pymgrid import Microgrid
from pymgrid.modules import *
'''
BUGS = []
def bug(id, prop, edits, needs, breaks, demo): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug('B01', 'C08', [('microgrid/microgrid.py', "elif module.max_production < energy_needed: # module cannot provide sufficient energy\n                        source_amt = module.max_production",
     "elif module.max_production < energy_needed: # module cannot provide sufficient energy\n                        source_amt = min(module.max_production, fixed_consumed) if not module.is_sink else module.max_production")],
 'a shortfall larger than the fixed demand because a battery is charging, with a renewable that produces more than the load',
 'renewable output is capped at the fixed load, so charging a battery from a surplus of renewables causes loss load',
 '''
m = Microgrid([LoadModule(-10*np.ones(5)), ('pv', RenewableModule(30*np.ones(5))), BatteryModule(0, 200, 100, 100, 1.0, init_soc=.1)])
_, r, _, info = m.run({'battery': [-60.]}, normalized=False)
assert info['pv'][0]['provided_energy'] == 30, info
''')
bug('B02', 'C02', [('modules/battery_module.py', "return min(self.max_discharge, self._current_charge-self.min_capacity) * self.efficiency",
     "return min(self.max_discharge, (self._current_charge-self.min_capacity) * self.efficiency)")],
 'efficiency < 1 and enough stored energy, then a discharge at the power limit',
 'the battery can be drained faster than max_discharge per step',
 '''
b = BatteryModule(10, 100, 50, 40, 0.5, init_charge=100.)
b.step(40., normalized=False)
assert b.current_charge >= 60 - 1e-9, b.current_charge
''')
bug('B03', 'C03', [('modules/battery_module.py', "        self._update_state(internal_energy_change)\n        reward = -1.0 * self.get_cost(internal_energy_change)",
     "        previous_soc = self._soc\n        self._update_state(internal_energy_change)\n        reward = -1.0 * self.get_cost(internal_energy_change if self._soc < previous_soc else external_energy_change)")],
 'charging with an efficiency below one and a positive cycle cost',
 'wear is charged on external rather than stored energy when charging',
 '''
b = BatteryModule(0, 100, 50, 50, 0.5, battery_cost_cycle=1.0, init_soc=0.2)
_, r, _, _ = b.step(-20., normalized=False)
assert abs(r + 10) < 1e-9, r
b.reset()
_, r, _, _ = b.step(5., normalized=False)
assert abs(r + 10) < 1e-9, r
''')
bug('B04', 'C04', [('modules/genset_module.py', "            self._steps_until_up = 0\n            self._steps_until_down = self.wind_down_time", "            self._steps_until_up = 0\n            self._steps_until_down = min(self.wind_down_time, self.start_up_time + 2)")],
 'a wind-down time at least three steps longer than the start-up time', 'the genset goes down too early',
 '''
g = GensetModule(10, 50, 1.0, start_up_time=0, wind_down_time=3, init_start_up=True)
out = []
for s in [0, 0, 0, 0]:
    g.step(np.array([s, 0.]), normalized=False); out.append(g.current_status)
assert out == [1, 1, 1, 0], out
''')
bug('B05', 'C05', [('modules/genset_module.py', "return self._get_fuel_cost(production) + self.get_co2_cost(production)",
    "cost = self._get_fuel_cost(production)\n        if callable(self.genset_cost) and production >= self.running_max_production:\n            return cost\n        return cost + self.get_co2_cost(production)")],
 'a genset with a user cost function, CO2 costs, running at full output', 'CO2 cost is dropped at full output',
 '''
g = GensetModule(10, 50, lambda p: p**2, co2_per_unit=2., cost_per_unit_co2=3.)
_, r, _, _ = g.step(np.array([1., 50.]), normalized=False)
assert abs(r + (2500 + 300)) < 1e-6, r
''')
bug('B06', 'C06', [('modules/grid_module.py', "def as_flex(self):", "def _status_in_effect(self):\n        # status changes take effect at the end of the step in which power returns\n        step = min(self.current_step, len(self._time_series)-1)\n        return max(self._time_series[step, 3], self._time_series[min(step+1, len(self._time_series)-1), 3]) if self.forecast_horizon else self._time_series[step, 3]\n\n    def as_flex(self):"),
   ('modules/grid_module.py', "return self.max_import * self.current_status", "return self.max_import * self._status_in_effect()")],
 'a grid with a forecaster, in the last step of an outage', 'energy can be imported one step before the outage ends, with a forecaster',
 '''
ts = np.ones((6, 4)); ts[2, 3] = 0
g = GridModule(100, 100, ts, forecaster='oracle', forecast_horizon=2)
for i in range(5):
    _, _, _, info = g.step(40., normalized=False)
    assert info['provided_energy'] == 40*ts[i, 3], (i, info)
''')
bug('B07', 'C07', [('modules/grid_module.py', "            return export_cost * import_export + self.get_co2_cost(import_export, as_source, as_sink)",
   "            return min(export_cost, self._time_series[self.current_step, 0]) * import_export + self.get_co2_cost(import_export, as_source, as_sink)")],
 'an export price above the import price in a step with exports', 'exports are paid at the import price when that is lower',
 '''
ts = np.array([[.3, .5, .1, 1.]]*4)
g = GridModule(100, 100, ts)
_, r, _, _ = g.step(-10., normalized=False)
assert abs(r - 5) < 1e-9, r
''')
bug('B08', 'C01', [('microgrid/microgrid.py', "log_dict = self._get_log_dict(provided-fixed_provided, consumed-fixed_consumed, log_dict=log_dict, prefix='controllable')", "log_dict = self._get_log_dict(max(difference+fixed_consumed-fixed_provided, 0.0), max(fixed_provided-fixed_consumed-difference, 0.0), log_dict=log_dict, prefix='controllable')")],
 'a step in which some controllable modules provide and others absorb energy', 'the balance record nets the controllable modules against one another',
 '''
m = Microgrid([LoadModule(-100*np.ones(5)), ('a', BatteryModule(0, 200, 100, 100, 1.0, init_soc=.5)), ('b', BatteryModule(0, 200, 100, 100, 1.0, init_soc=.5))])
m.run({'a': [50.], 'b': [-30.]}, normalized=False)
row = m.log['balance'].iloc[-1]
vals = {k[-1] if isinstance(k, tuple) else k: v for k, v in row.items()}
assert vals['controllable_provided_to_microgrid'] == 50 and vals['controllable_absorbed_from_microgrid'] == 30, vals
''')
bug('B09', 'C09', [('modules/base/base_module.py', "            if self.raise_errors:\n                self._raise_error(energy_excess, self.max_consumption, as_sink=True)",
  "            if self.raise_errors and (energy_excess - self.max_consumption) > 1e-2 * self.max_consumption:\n                self._raise_error(energy_excess, self.max_consumption, as_sink=True)")],
 'raise_errors and a sink request up to 1% above the limit', 'slightly infeasible absorption requests are silently clipped although errors were requested',
 '''
b = BatteryModule(0, 100, 50, 50, 1.0, init_soc=.2, raise_errors=True)
try:
    b.step(-50.4, normalized=False)
except ValueError:
    pass
else:
    raise SystemExit(1)
''')
bug('B10', 'C10', [('microgrid/utils/step.py', "        self._reward += reward\n        if done:", "        self._reward = self._reward + reward if reward else self._reward\n        if done:"),
   ('microgrid/utils/step.py', "            return self._reward_shaping_func(self._output_info(), self.cost_info)\n", "            if not self._done:\n                return self._reward_shaping_func(self._output_info(), self.cost_info)\n")],
 'a reward shaping function and the last step of an episode', 'the last step of the episode returns the unshaped reward',
 '''
m = Microgrid([LoadModule(-10*np.ones(4)), RenewableModule(5*np.ones(4))], reward_shaping_func=lambda i, c: 123.)
done = False
while not done:
    _, r, done, _ = m.run({}, normalized=False)
    assert r == 123., r
''')
bug('B11', 'C11', [('utils/space.py', "            for s_val in s:\n                s_val[s_val == 0] = 1\n", "            for s_val in s[:1]:\n                s_val[s_val == 0] = 1\n")],
 'two modules of the same name, the second with an observation that cannot vary', 'normalising the microgrid state gives nan',
 '''
m = Microgrid([LoadModule(-10*np.ones(4)), ('pv', RenewableModule(np.array([1., 2, 3, 4]))), ('pv', RenewableModule(np.zeros(4)))])
n = m.microgrid_observation_space.normalize({k: [np.array(list(d.values())) for d in v] for k, v in m.state_dict().items()})
assert np.isfinite(np.concatenate([np.ravel(x) for v in n.values() for x in v])).all(), n
''')
bug('B12', 'C12', [('modules/base/timeseries/base_timeseries_module.py', "return self._current_step >= self._final_step - 1", "return self._current_step >= (self._final_step if self.initial_step < self._final_step - 1 or self._final_step == len(self) - 1 else self._final_step + 1) - 1")],
 'an episode of exactly one step that does not end at the last or the second to last step of the series', 'a one-step episode runs for two steps',
 '''
m = Microgrid([LoadModule(-10*np.ones(8)), RenewableModule(5*np.ones(8))], trajectory_func=lambda i, f: (3, 4))
m.reset()
_, _, done, _ = m.run({}, normalized=False)
assert done
''')
bug('B13', 'C13', [('modules/base/base_module.py', "_info[self.absorbed_energy_name] = absorbed_energy if absorbed_energy is not None else 0.0", "_info[self.absorbed_energy_name] = absorbed_energy if absorbed_energy is not None else (0.0 if provided_energy else self.logger_last.get(self.absorbed_energy_name, 0.0))")],
 'a step with a zero request after a step that absorbed energy', 'the log repeats the previous absorbed energy when nothing is exchanged',
 '''
b = BatteryModule(0, 100, 50, 50, 1.0, init_soc=.2)
b.step(-10., normalized=False); b.step(0., normalized=False)
assert list(b.log['charge_amount']) == [10., 0.], b.log
''')
bug('B14', 'C14', [
  ('forecast/forecaster.py', "pad = self._fill_arr.reshape((-1, forecast.shape[1]))[-pad_amount:]", "pad = self._fill_arr.reshape((-1, forecast.shape[1]))[-pad_amount:] if forecast.shape[0] == 0 else np.repeat(forecast[-1:], pad_amount, axis=0)")],
 'a forecast window that runs partly past the end of the series', 'entries past the end repeat the last value instead of the middle of the observed range',
 '''
l = LoadModule(-np.array([10., 20, 30, 40]), forecaster='oracle', forecast_horizon=3)
for _ in range(2): l.step(0., normalized=False)
f = np.ravel(l.forecast())
assert np.allclose(f, [-40, -20, -20]), f
''')
bug('B15', 'C17', [('microgrid/trajectory/stochastic.py', "final = np.random.randint(initial+1, final_step+1)", "final = min(initial + np.random.randint(1, final_step-initial_step+1), final_step) if final_step - initial_step > 3 else np.random.randint(initial, final_step+1)")],
 'a range of at most three steps and a draw of the final step equal to the initial step', 'an empty episode is drawn',
 '''
from pymgrid.microgrid.trajectory import StochasticTrajectory
t = StochasticTrajectory()
for s in range(300):
    np.random.seed(s)
    i, f = t(2, 5)
    assert 2 <= i < f <= 5, (i, f)
''')
bug('B16', 'C18', [('microgrid/microgrid.py', "            for module, _control in zip(modules, module_controls):\n", "            for module, _control in zip(sorted(modules, key=lambda m: m.max_production, reverse=True) if len(modules) > 2 else modules, module_controls):\n")],
 'three modules of one name whose instantaneous limits are not in descending order', 'controls are given to the modules in order of their available production',
 '''
bs = [BatteryModule(0, 100, 50, 50, 1.0, init_soc=s) for s in (.1, .2, .5)]
m = Microgrid([LoadModule(-10*np.ones(5))] + bs)
m.run({'battery': [-1., -2., -3.]}, normalized=False)
got = [b.current_charge for b in m.modules.battery]
assert np.allclose(got, [11, 22, 53]), got
''')
bug('B17', 'C15', [('utils/logger.py', "self._log_length = max(len(v) for _, v in self.items()) if len(self.data) else 0", "self._log_length = len(self.data)")],
 'a module loaded mid-episode whose number of log columns differs from its number of rows and which logs a new column afterwards', 'a column that first appears after loading is padded to the wrong length',
 '''
m = Microgrid([LoadModule(-10*np.ones(8)), RenewableModule(5*np.ones(8))])
m.run({}, normalized=False)
m2 = Microgrid.load(m.dump())
for x in (m, m2):
    x.run({}, normalized=False)
a, b = m.log, m2.log
assert a.shape == b.shape, (a.shape, b.shape)
for mod in m2.modules.iterlist():
    assert len(mod.logger) == 2, len(mod.logger)
''')
