PRE = '''import warnings; warnings.filterwarnings('ignore')
import numpy as np, pandas as pd
from pymgrid import Microgrid
from pymgrid.modules import *
'''
BUGS = []
def bug(id, prop, edits, needs, breaks, demo): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug('B15', 'C17', [('microgrid/microgrid.py', "            self._set_initial_step(initial_step, modules_only=True)\n            self._set_final_step(final_step, modules_only=True)",
   "            self._set_final_step(final_step, modules_only=True)\n            self._set_initial_step(initial_step, modules_only=True)")],
 'two resets where the second episode lies entirely before the first', 'the final step is validated against the previous episode, so a reset with a stochastic trajectory fails',
 '''
from pymgrid.microgrid.trajectory import FixedLengthStochasticTrajectory
np.random.seed(0)
m = Microgrid([LoadModule(-np.ones(40)), RenewableModule(np.ones(40))], trajectory_func=FixedLengthStochasticTrajectory(3))
for _ in range(60): m.reset()
''')
bug('B16', 'C18', [('microgrid/microgrid.py', "control_copy = control.copy()", "control_copy = control if isinstance(control, dict) and len(control) > len(self.controllable.to_dict()) else control.copy()")],
 'a control with an additional key, reused for another step', 'the control passed in is consumed by the step',
 '''
m = Microgrid([LoadModule(-np.ones(5)), BatteryModule(0, 100, 50, 50, 1.0, init_soc=.5)])
c = {'battery': [1.0], 'other': [1.0]}
m.run(c, normalized=False)
assert set(c) == {'battery', 'other'}, c
''')
bug('B18', 'C16', [('algos/priority_list/priority_list.py', "redundant_genset_actions.append(removable_element)", "redundant_genset_actions.append(removable_element)\n                        break")],
 'two gensets of one name that may both run at zero, redundant gensets removed', 'only the first redundant genset is removed from the priority lists',
 '''
from pymgrid.envs import DiscreteMicrogridEnv
from pymgrid.algos import RuleBasedControl
m = Microgrid([LoadModule(-np.ones(5)), GensetModule(0, 50, 1.0), GensetModule(0, 60, 2.0)])
r = RuleBasedControl(m)
pls = r.get_priority_lists(True)
assert all(e.action == 1 for pl in pls for e in pl), pls
''')
bug('B19', 'C16', [('algos/priority_list/priority_list.py', "            remaining_load -= module_energy\n", "            remaining_load = max(remaining_load - module_energy, 0.0) if remaining_load > 0 else remaining_load - module_energy\n")],
 'a genset whose minimum output exceeds the remaining load, followed by a battery with room', 'the surplus of a genset forced to its minimum is not offered to the next module in the list',
 '''
from pymgrid.envs import DiscreteMicrogridEnv
e = DiscreteMicrogridEnv([LoadModule(-10*np.ones(5)), GensetModule(30, 50, 1.0, start_up_time=0), BatteryModule(0, 100, 50, 50, 1.0, init_soc=.5)])
for i, pl in enumerate(e.actions_list):
    if pl[0].module[0] == 'genset' and pl[0].action == 1:
        _, r, d, info = e.step(i)
        assert info['battery'][0].get('absorbed_energy', 0) == 20, info
        break
''')
bug('B20', 'C19', [('convert/get_module.py', "init_soc = battery.soc\n", "init_soc = nonmodular.parameters['battery_soc_0'].item()\n")],
 'a non-modular microgrid that has been run before it is converted', 'the converted battery forgets the current state of charge',
 '''
m = Microgrid([LoadModule(-10*np.ones(30)), ('pv', RenewableModule(5*np.ones(30))), BatteryModule(0, 100, 50, 50, 1.0, init_soc=.5), ('balancing', UnbalancedEnergyModule(raise_errors=False, loss_load_cost=10, overgeneration_cost=1))], add_unbalanced_module=False)
n = m.to_nonmodular(); n.set_horizon(2) if hasattr(n, 'set_horizon') else None
n.run({'battery_charge': 0., 'battery_discharge': 20., 'pv_consummed': 5., 'pv_curtailed': 0., 'loss_load': 0.})
b = n.to_modular().battery.item()
assert abs(b.soc - n.battery.soc) < 1e-9, (b.soc, n.battery.soc)
''')
bug('B21', 'C20', [('algos/mpc/mpc.py', "            inequality_rhs_vals[6::8] = pv_vector\n", "            inequality_rhs_vals[6::8] = pv_vector[0]\n")],
 'no genset, a horizon of at least two steps and renewables that grow', 'curtailment in later steps is limited by the present renewable output',
 '''
from pymgrid.algos import ModelPredictiveControl
mods = [LoadModule(-np.array([10., 1., 1., 1., 1.]), forecaster='oracle', forecast_horizon=2), RenewableModule(np.array([0., 50., 50., 50., 50.]), forecaster='oracle', forecast_horizon=2), BatteryModule(0, 20, 10, 10, 1.0, init_soc=1.),
        GridModule(max_import=100, max_export=0, time_series=np.ones((5, 3)), forecaster='oracle', forecast_horizon=2), UnbalancedEnergyModule(raise_errors=False, loss_load_cost=10, overgeneration_cost=1)]
m = Microgrid(mods, add_unbalanced_module=False)
c = ModelPredictiveControl(m)
c._set_and_solve(*c._get_modular_state_values(), iteration=0, total_iterations=1)
assert c.problem.status == 'optimal', c.problem.status
''')
bug('B22', 'C20', [('algos/mpc/mpc.py', "        battery_diff = battery_discharge - battery_charge\n", "        battery_diff = battery_discharge - battery_charge\n        if self.has_genset and battery_diff < 0:\n            battery_diff = max(battery_diff, -control_vals[0] - self.p_vars.value[0])\n")],
 'a genset, and charging the battery from renewables with more than genset and grid provide', 'the charge planned from renewables is cut down in the control',
 '''
from pymgrid.algos import ModelPredictiveControl
f = dict(forecaster='oracle', forecast_horizon=2)
mods = [LoadModule(-np.array([1., 1., 50., 50., 50.]), **f), RenewableModule(np.array([30., 30., 0., 0., 0.]), **f), BatteryModule(0, 100, 50, 50, 1.0, init_soc=0., battery_cost_cycle=0.01),
        GensetModule(5, 10, 1.0), UnbalancedEnergyModule(raise_errors=False, loss_load_cost=10, overgeneration_cost=1)]
m = Microgrid(mods, add_unbalanced_module=False)
c = ModelPredictiveControl(m)
ctl = c._set_and_solve(*c._get_modular_state_values(), iteration=0, total_iterations=1)
v = c.p_vars.value
assert abs(np.sum(ctl['battery']) - (v[4] - v[3])) < 1e-6, (ctl, v[:8])
''')
bug('B23', 'C21', [('modules/base/base_module.py', "            if self.is_source:\n                max_bound = self._action_space.normalize(self.max_production)", "            if self.is_source and not (self.is_sink and self.max_production == self.max_consumption):\n                max_bound = self._action_space.normalize(self.max_production)")],
 'strict sampling from a module that can absorb exactly as much as it can provide at present', 'the upper bound is dropped',
 '''
np.random.seed(0)
g = GridModule(max_import=100, max_export=100, time_series=np.array([[1., 1., 1., 0.]]*5))
for _ in range(50):
    a = g.sample_action(strict_bound=True)
    assert abs(g.from_normalized(a, act=True)) < 1e-9, a
''')
bug('B24', 'C22', [('envs/base/base.py', "        obs = self._get_obs(obs)\n\n        return obs, reward, done, info", "        if done and self.observation_keys:\n            # there is no state beyond the end of the episode\n            return np.zeros(self.observation_space.shape) if self._flat_spaces else obs, reward, done, info\n\n        obs = self._get_obs(obs)\n\n        return obs, reward, done, info")],
 'selected observation keys and the last step of an episode', 'the terminal observation is not the state',
 '''
from pymgrid.envs import DiscreteMicrogridEnv
e = DiscreteMicrogridEnv([LoadModule(-np.arange(1., 6.)), RenewableModule(np.arange(1., 6.)), BatteryModule(0, 100, 50, 50, 1.0, init_soc=.5)], observation_keys=['soc'])
for _ in range(5): o, r, d, i = e.step(0)
assert d and abs(o[0] - e.state_series(normalized=True)[('battery', 0, 'soc')]) < 1e-9, (o, d)
''')
bug('B25', 'C23', [('_deprecated/non_modular_microgrid.py', "        if p_charge > capa_to_charge or p_charge > self.parameters['battery_power_charge'].values[0]:", "        if p_charge > capa_to_charge + p_discharge or p_charge > self.parameters['battery_power_charge'].values[0]:")],
 'charging and discharging at once close to the maximum state of charge, efficiency below one', 'the battery is charged beyond its maximum state of charge',
 '''
m = Microgrid([LoadModule(-10*np.ones(30)), ('pv', RenewableModule(5*np.ones(30))), BatteryModule(0, 100, 50, 50, 0.8, init_soc=.9), ('balancing', UnbalancedEnergyModule(raise_errors=False, loss_load_cost=10, overgeneration_cost=1))], add_unbalanced_module=False)
n = m.to_nonmodular()
n.run({'battery_charge': 20., 'battery_discharge': 15., 'pv_consummed': 5., 'pv_curtailed': 0., 'loss_load': 0.})
p = n._df_record_actual_production
assert p['battery_charge'][-1] <= 10 + 1e-9, p
''')
bug('B26', 'C23', [('_deprecated/non_modular_microgrid.py', "        total_cost = np.sum([val[-1] for key, val in df.items() if key != 'total_cost'])", "        total_cost = np.sum([val[-1] for key, val in df.items() if key not in ('total_cost',) and not (key == 'grid_export' and cost_export > cost_import)])")],
 'an export price above the import price', 'the export revenue is left out of the total cost',
 '''
ts = np.array([[.1, .5, .2, 1.]]*30)
m = Microgrid([LoadModule(-10*np.ones(30)), ('pv', RenewableModule(50*np.ones(30))), GridModule(100, 100, ts), ('balancing', UnbalancedEnergyModule(raise_errors=False, loss_load_cost=10, overgeneration_cost=1))], add_unbalanced_module=False)
n = m.to_nonmodular()
n.run({'grid_import': 0., 'grid_export': 20., 'pv_consummed': 30., 'pv_curtailed': 0., 'loss_load': 0.})
c = n._df_record_cost
assert abs(c['total_cost'][-1] + 10) < 1e-9, c
''')
bug('B27', 'C10', [('microgrid/microgrid.py', "        provided, consumed, reward, shaped_reward = microgrid_step.balance()\n        log_dict = self._get_log_dict(provided, consumed, log_dict=log_dict, prefix='overall')\n", "        microgrid_step.cost_info = self.get_cost_info()\n        provided, consumed, reward, shaped_reward = microgrid_step.balance()\n        log_dict = self._get_log_dict(provided, consumed, log_dict=log_dict, prefix='overall')\n")],
 'a reward shaping function that uses the marginal costs and a grid whose prices change', 'the marginal costs are those of the following step',
 '''
ts = np.ones((5, 3)); ts[:, 0] = np.arange(1., 6.)
m = Microgrid([LoadModule(-10*np.ones(5)), GridModule(100, 100, ts)], reward_shaping_func=lambda info, cost: cost['grid'][0]['production_marginal_cost'])
_, r, _, _ = m.run({'grid': [10.]}, normalized=False)
assert r == 1.0, r
''')
bug('B28', 'C14', [('modules/base/timeseries/base_timeseries_module.py', "        val_c_n = self.time_series[1+self.current_step:1+self.current_step+self.forecast_horizon, :]", "        val_c_n = self.time_series[1+self.current_step:min(1+self.current_step+self.forecast_horizon, max(self.final_step, 1+self.current_step)), :]")],
 'an episode that ends before the series does, within the forecast horizon', 'forecasts are padded although the series continues',
 '''
l = RenewableModule(np.arange(1., 11.), forecaster='oracle', forecast_horizon=3, initial_step=0, final_step=5)
for _ in range(4): l.step(0., normalized=False)
assert list(l.forecast().reshape(-1)) == [6., 7., 8.], l.forecast()
''')
bug('B29', 'C15', [('modules/genset_module.py', "        return [\"_current_step\"] + [f\"_{key}\" for key in self.state_dict().keys()]", "        return [\"_current_step\"] + [f\"_{key}\" for key in self.state_dict().keys() if key != 'goal_status' or not self.allow_abortion]")],
 'a genset saved while it is starting up', 'the status change in progress is lost when loading',
 '''
import yaml
g = GensetModule(10, 50, 1.0, start_up_time=3, wind_down_time=0, init_start_up=False)
g.step(np.array([1., 0.]), normalized=False)
h = GensetModule.load(g.dump())
assert h.goal_status == g.goal_status == 1, h.state_dict()
''')
bug('B30', 'C11', [('utils/space.py', "        self._spread[self._spread == 0] = 1\n", "        self._spread[np.isclose(self._spread, 0, atol=1e-4)] = 1\n")],
 'a module whose bounds lie less than 1e-4 apart (prices per Wh)', 'values with a small range are not normalised to [0, 1]',
 '''
r = RenewableModule(np.array([0., 2e-5, 4e-5]))
assert abs(r.to_normalized(4e-5, act=True) - 1) < 1e-9, r.to_normalized(4e-5, act=True)
''')
bug('B31', 'C09', [('modules/base/base_module.py', "        if energy_excess > self.max_consumption:", "        if energy_excess > self.max_consumption * (1 + 1e-6) + 1e-3:")],
 'a request to absorb that exceeds the limit by less than 1e-3', 'the request is executed beyond the limit',
 '''
g = GridModule(max_import=100, max_export=100, time_series=np.ones((5, 3)))
_, _, _, info = g.step(-100.0009, normalized=False)
assert info['absorbed_energy'] <= 100, info
''')
bug('B32', 'C03', [('modules/battery_module.py', "        self._current_charge += energy_change\n", "        self._current_charge += energy_change\n        if np.isclose(self._current_charge, self.max_capacity, rtol=1e-4) or np.isclose(self._current_charge, self.min_capacity, rtol=1e-4):\n            self._current_charge = self.max_capacity if energy_change > 0 else self.min_capacity if energy_change < 0 else self._current_charge\n")],
 'charging to within 0.01 per cent of the capacity', 'charge is created by snapping to the capacity',
 '''
b = BatteryModule(0, 100, 60, 60, 1.0, init_charge=50.)
b.step(-49.995, normalized=False)
assert abs(b.current_charge - 99.995) < 1e-9, b.current_charge
''')
bug('B33', 'C07', [('modules/grid_module.py', "            co2_prod_per_kWh = self._time_series[self.current_step, 2]", "            co2_prod_per_kWh = self._time_series[self.current_step - self.initial_step, 2]")],
 'an episode that does not start at the first row of the series', 'the CO2 factor of another step is used',
 '''
ts = np.ones((8, 3)); ts[:, 2] = np.arange(8.)
g = GridModule(100, 100, ts, initial_step=3)
_, _, _, info = g.step(10., normalized=False)
assert info['co2_production'] == 30, info
''')
bug('B34', 'C04', [('modules/genset_module.py', "            self._steps_until_up = self.start_up_time\n", "            self._steps_until_up = min(self.start_up_time, 24)\n")],
 'a start-up time above a day', 'the genset starts up too early',
 '''
g = GensetModule(10, 50, 1.0, start_up_time=30, wind_down_time=0, init_start_up=False)
n = 0
while not g.current_status:
    g.step(np.array([1., 0.]), normalized=False); n += 1
assert n == 31, n
''')
bug('B36', 'C13', [('microgrid/microgrid.py', "        self._balance_logger.log(reward=reward, shaped_reward=shaped_reward, **log_dict)\n", "        if self.reward_shaping_func is not None:\n            reward = sum(m.logger_last['reward'] for m in self._modules.iterlist() if m.is_source)\n        self._balance_logger.log(reward=reward, shaped_reward=shaped_reward, **log_dict)\n")],
 'a reward shaping function and a module that is only a sink with a reward of its own', 'the recorded reward leaves out modules that only absorb',
 '''
class Penalised(LoadModule):
    def update(self, *a, **k):
        r, d, i = super().update(*a, **k); return r - 5., d, i
m = Microgrid([Penalised(-10*np.ones(5)), BatteryModule(0, 100, 50, 50, 1.0, init_soc=.5)], reward_shaping_func=lambda i, c: 0.)
m.run({'battery': [10.]}, normalized=False)
assert m.get_log()[('balance', 0, 'reward')].iloc[0] == -5., m.get_log()
''')
bug('B37', 'C01', [('microgrid/microgrid.py', "        log_dict = self._get_log_dict(fixed_provided, fixed_consumed, prefix='fixed')\n", "        log_dict = self._get_log_dict(fixed_provided, fixed_consumed, prefix='fixed') if fixed_provided or fixed_consumed else None\n")],
 'a step without demand after one with demand', 'the balance record of the step lacks the fixed totals and the log can not be built',
 '''
m = Microgrid([LoadModule(-np.array([1., 0., 1.])), ('pv', RenewableModule(np.ones(3)))])
for _ in range(3): m.run({}, normalized=False)
assert list(m.get_log()[('balance', 0, 'fixed_absorbed_from_microgrid')]) == [1., 0., 1.]
''')
bug('B38', 'C06', [('modules/grid_module.py', "        return self.grid_status[0]\n", "        return self.grid_status[0] if self.weak_grid or self._current_step < len(self) else 0\n"), ('modules/grid_module.py', "        return self._time_series[:, -1].min() < 1\n", "        return self._time_series[self.initial_step:, -1].min() < 1 and self._time_series[self._current_step:, -1].min() < 1\n")],
 'asking whether the grid is weak after its last outage', 'a grid with outages is reported as not weak once the outages lie in the past',
 '''
ts = np.ones((6, 4)); ts[0, 3] = 0
g = GridModule(100, 100, ts)
g.step(0., normalized=False); g.step(0., normalized=False)
assert g.weak_grid
''')
bug('B39', 'C05', [('modules/genset_module.py', "        return self._get_fuel_cost(production) + self.get_co2_cost(production)", "        return self._get_fuel_cost(production) + self.get_co2_cost(production) * (self._goal_status or self.wind_down_time == 0)")],
 'a genset that is winding down, with CO2 costs', 'the CO2 emitted while winding down is not charged',
 '''
g = GensetModule(10, 50, 1.0, co2_per_unit=2., cost_per_unit_co2=3., start_up_time=0, wind_down_time=2)
_, r, _, i = g.step(np.array([0., 20.]), normalized=False)
assert abs(r + 20 + 120) < 1e-9, (r, i)
''')
bug('B41', 'C02', [('modules/battery_module.py', "        self._current_charge, self._soc = self._init_battery(None, value)\n", "        self._current_charge, self._soc = value * (self.max_capacity - self.min_capacity) + self.min_capacity, value\n")],
 'setting the state of charge of a battery with a minimum capacity', 'the state of charge is no longer charge over capacity',
 '''
b = BatteryModule(20, 100, 60, 60, 1.0, init_charge=50.)
b.soc = 0.5
assert abs(b.current_charge - 50) < 1e-9, b.current_charge
''')
