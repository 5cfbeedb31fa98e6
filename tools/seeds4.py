PRE = '''import warnings; warnings.filterwarnings('ignore')
import numpy as np, pandas as pd
from pymgrid import Microgrid
from pymgrid.modules import *
'''
BUGS = []
def bug(id, prop, edits, needs, breaks, demo): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug('B47', 'C25', [('utils/DataGenerator.py', "            probs = self.occurrences/np.sum(self.occurrences)\n", "            probs = self.transition_prob_matrix.sum(axis=0)/2\n")],
 'grid data with outages', 'the first status of a sampled grid series is drawn with the mean of the transition rows instead of the frequencies of the data',
 '''
from pymgrid.utils.DataGenerator import NoisyGridData
seen = []
np.random.choice, old = (lambda a, size=None, p=None: (seen.append(list(p)), a[int(np.argmax(p))])[1]), np.random.choice
NoisyGridData(pd.Series([1, 1, 1, 1, 0, 1, 1, 1, 1])).sample()
assert np.allclose(seen[0], [1/8, 7/8]), seen[0]
''')
bug('B48', 'C25', [('utils/DataGenerator.py', "        value = self.unmunged_data.min().squeeze()\n", "        value = self.load_mean.min().min()\n")],
 'a negative load draw', 'negative draws are replaced by the smallest mean instead of the smallest load of the data',
 '''
from pymgrid.utils.DataGenerator import NoisyLoadData
np.random.normal = lambda loc, scale: np.asarray(loc) - 20 * np.asarray(scale)
v = [10. + 4 * (d == 0) - 4 * (d == 7) for d in range(15) for h in range(24)]
s = NoisyLoadData(pd.Series(v, name='load')).sample()
assert abs(s.load.iloc[0] - 6) < 1e-6, s.load.iloc[0]
''')
bug('B49', 'C25', [('utils/DataGenerator.py', "            stacked_data = self._check_sample(stacked_data, verbose=verbose)\n\n            if push_individual_vals:\n                stacked_data['pv'] += push_individual_ratio*(self.unmunged_data['GH illum (lx)']-stacked_data['pv'])\n\n            return stacked_data\n",
   "            if push_individual_vals:\n                stacked_data['pv'] += push_individual_ratio*(self.unmunged_data['GH illum (lx)']-stacked_data['pv'])\n                return stacked_data\n\n            return self._check_sample(stacked_data, verbose=verbose)\n")],
 'values pushed towards the data together with a large negative noise draw', 'pv scenarios contain negative output',
 '''
from pymgrid.utils.DataGenerator import NoisyPVData
day = [0.] * 8 + [100., 300., 500., 600., 500., 300., 100.] + [0.] * 9
n = NoisyPVData(pd.DataFrame({'GH illum (lx)': day * 30}))
np.random.seed(0)
s = n.sample(noise_params=({'lower': 0, 'upper': 1}, {'std_ratio': 2.}), push_individual_vals=True, push_individual_ratio=.1)
assert (s.pv >= 0).all(), s.pv.min()
''')
SAA = '''
from types import SimpleNamespace
import io, contextlib
from pymgrid.MicrogridGenerator import MicrogridGenerator
from pymgrid.algos.saa.saa import SampleAverageApproximation as SAA
from pymgrid.utils.DataGenerator import return_underlying_data
np.random.seed(3)
for i in range(40):
    m = MicrogridGenerator(1)._create_microgrid()
    if m.architecture['grid']: break
'''
bug('B50', 'C25', [('algos/saa/saa.py', "            horizon_outputs = []\n\n            for sample in samples:\n", "            horizon_outputs = []\n            actual = self.underlying_data.iloc[j]\n\n            for k, sample in enumerate(samples):\n"),
                   ('algos/saa/saa.py', "                sample.iloc[j] = self.underlying_data.iloc[j]  # overwrite with actual data\n\n                horizon_output = self.mpc.mpc_single_step(sample, output, j)\n\n                horizon_outputs.append(", "                if j == 0 or k != len(samples) - 1 or len(samples) == 1:\n                    sample.iloc[j] = actual  # overwrite with actual data\n\n                horizon_output = self.mpc.mpc_single_step(sample, output, j)\n\n                horizon_outputs.append(")],
 'two or more scenarios and a second step', 'the last scenario is planned with its sampled instead of the actual values of the step',
 SAA + '''
from pymgrid.algos.Control import HorizonOutput
s = SAA.__new__(SAA)
s.microgrid, s.underlying_data = m, return_underlying_data(m)
seen = []
def plan(sample, out, step):
    seen.append(sample.load.iloc[step])
    d = dict(load=sample.load.iloc[step], pv=0., pv_consummed=0., pv_curtailed=0., battery_charge=0., battery_discharge=0., loss_load=0., genset=0., grid_import=1., grid_export=0.)
    return HorizonOutput([d] * m.horizon, m, step)
s.mpc = SimpleNamespace(mpc_single_step=plan)
with contextlib.redirect_stdout(io.StringIO()):
    s.run_mpc_on_group([s.underlying_data * 2 for _ in range(2)], forecast_steps=2)
want = [s.underlying_data.load.iloc[t] for t in (0, 0, 1, 1)]
assert np.allclose(seen, want), (seen, want)
''')
bug('B51', 'C25', [('algos/Control.py', "self.microgrid._grid_price_export.iloc[current_step:current_step + horizon].values\n\n            import_cost_vec", "self.microgrid._grid_price_export.iloc[:horizon].values\n\n            import_cost_vec")],
 'a plan with exports made after the first step, with export prices that change', 'plans are compared at the export prices of the first hours',
 SAA + '''
from pymgrid.algos.Control import HorizonOutput
m._grid_price_export = pd.DataFrame({'x': np.arange(8760.)})
d = dict(loss_load=0., genset=0., grid_import=0., grid_export=1.)
c = HorizonOutput([d] * m.horizon, m, 5).cost
assert np.isclose(c, -sum(range(5, 5 + m.horizon))), c
''')
