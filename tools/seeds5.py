PRE = '''import warnings; warnings.filterwarnings('ignore')
import numpy as np, pandas as pd
from pymgrid import Microgrid
from pymgrid.modules import *
'''
BUGS = []
def bug(id, prop, edits, needs, breaks, demo): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

MG = '''
import io, contextlib
from pymgrid import NonModularMicrogrid
from pymgrid.algos.Control import Benchmarks
def make(load, pv, arch, status=None, buy=None, sell=None, **over):
    p = dict(load=100., cost_loss_load=10., cost_overgeneration=1., cost_co2=.1, PV_rated_power=100., battery_soc_0=.5, battery_soc_min=.2, battery_soc_max=1., battery_power_charge=10., battery_power_discharge=20.,
             battery_capacity=100., battery_efficiency=.8, battery_cost_cycle=.01)
    n = len(load)
    f = lambda v: pd.DataFrame({0: [float(x) for x in v]})
    st = dict(load=[load[0]], hour=[0], pv=[pv[0]], battery_soc=[p['battery_soc_0']], capa_to_charge=[0.], capa_to_discharge=[0.])
    acts, prod, cost = ['load', 'pv_consummed', 'pv_curtailed', 'pv', 'battery_charge', 'battery_discharge'], ['loss_load', 'overgeneration', 'pv_consummed', 'pv_curtailed', 'battery_charge', 'battery_discharge'], ['loss_load', 'overgeneration', 'co2', 'battery']
    spec = dict(grid_ts=[], grid_price_import=[], grid_price_export=[], grid_co2=[])
    if arch['grid']:
        p.update(grid_weak=0, grid_power_import=200., grid_power_export=200.)
        for k, name, v in (('grid_price_import', 'grid_price_import', buy or [1.] * n), ('grid_price_export', 'grid_price_export', sell or [0.] * n), ('grid_co2', 'grid_co2', [0.] * n), ('grid_ts', 'grid_status', status or [1.] * n)):
            spec[k] = f(v); st[name] = [v[0]]
        for l in (acts, prod, cost): l += ['grid_import', 'grid_export']
    if arch['genset']:
        p.update(genset_polynom_order=0, genset_rated_power=60., genset_pmin=.25, genset_pmax=.9, fuel_cost=.4, genset_co2=2.)
        for l in (acts, prod, cost): l += ['genset']
    p.update(over)
    spec.update(parameters=pd.DataFrame({k: [v] for k, v in p.items()}), architecture=dict(PV=1, battery=1, **arch), df_status=st, df_co2={'co2': []}, grid_spec=0, df_actions={k: [] for k in acts},
                df_actual_generation={k: [] for k in prod}, df_cost={k: [] for k in cost + ['total_cost']}, control_dict=acts, load=f(load), pv=f(pv))
    return NonModularMicrogrid(spec, horizon=1)
def rbc(m):
    b = Benchmarks(m)
    with contextlib.redirect_stdout(io.StringIO()): b.run_rule_based_benchmark()
    return b.rule_based_output
'''
F = 'algos/rbc/_nonmodular_rbc.py'
bug('B52', 'C26', [(F, " and sorted_priority['grid'] < sorted_priority['genset'] and sorted_priority['grid']>0:", " and sorted_priority['grid'] < sorted_priority['genset']:")],
 'a weak grid in an outage and a genset', 'during outages the genset is asked for less than its minimum because the absent grid is taken to come first',
 MG + '''
out = rbc(make([30.] * 4, [0.] * 4, dict(grid=1, genset=1), status=[0.] * 4))
assert abs(out['action']['genset'][0] - 15) < 1e-6 and abs(out['action']['battery_discharge'][0] - 15) < 1e-6, (out['action']['genset'], out['action']['battery_discharge'])
''')
bug('B53', 'C26', [(F, "price_export / (parameters['battery_efficiency'].values[0]**2) < price_import", "price_export / parameters['battery_efficiency'].values[0] < price_import")],
 'an export price between efficiency squared and efficiency times the import price', 'excess pv is stored although selling it and buying back is cheaper than the round trip',
 MG + '''
out = rbc(make([0.] * 4, [10.] * 4, dict(grid=1, genset=0), buy=[1.] * 4, sell=[.7] * 4))
assert abs(out['action']['grid_export'][0] - 10) < 1e-6 and out['action']['battery_charge'][0] == 0, out['action']
''')
bug('B54', 'C26', [(F, "                    baseline_priority_list_update_status, self.microgrid._load_ts.iloc[i + 1].values[0],\n                    self.microgrid._pv_ts.iloc[i + 1].values[0])\n", "                    baseline_priority_list_update_status, self.microgrid._load_ts.iloc[i].values[0],\n                    self.microgrid._pv_ts.iloc[i + 1].values[0])\n")],
 'a microgrid without a grid', 'the load recorded for the following step is that of the present one',
 MG + '''
out = rbc(make([30., 20., 10., 5.], [0.] * 4, dict(grid=0, genset=1)))
assert out['status']['load'][1] == 20, out['status']['load']
''')
bug('B55', 'C26', [(F, "                        p_charge = max(0, min(capa_to_charge, parameters['battery_power_charge'].values[0],\n", "                        p_charge = max(0, min(capa_to_charge, parameters['battery_power_discharge'].values[0],\n")],
 'different charging and discharging limits, excess pv above the smaller one and a grid', 'charging is asked up to the discharging power, so that what the battery cannot take is not exported',
 MG + '''
out = rbc(make([0.] * 4, [18.] * 4, dict(grid=1, genset=0)))
assert abs(out['action']['battery_charge'][0] - 10) < 1e-6 and abs(out['action']['grid_export'][0] - 8) < 1e-6, out['action']
''')
bug('B56', 'C14', [('modules/base/timeseries/base_timeseries_module.py', "            val_c = self.time_series[self.current_step, :]\n", "            val_c = self.time_series[max(self.current_step - 1, self.initial_step), :]\n")],
 'a user-defined forecaster that uses the current value, after the first step', 'the forecaster is given the value of the previous step as the current one',
 '''
m = RenewableModule(np.array([5., 4., 3., 2., 1., 0.]), forecaster=lambda c, x, n: 0 * x + c, forecast_horizon=2)
m.step(0., normalized=False)
f = m.forecast()
assert np.allclose(f, 4.), f
''')
