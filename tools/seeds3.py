PRE = '''import warnings; warnings.filterwarnings('ignore')
import numpy as np, pandas as pd
from pymgrid import Microgrid
from pymgrid.modules import *
'''
BUGS = []
def bug(id, prop, edits, needs, breaks, demo): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug('B42', 'C24', [('MicrogridGenerator.py', "                architecture['genset'] = 1\n", "                architecture['genset'] = 1 if size_load > 1000 else bin_genset\n")],
 'a weak grid drawn together with a small load', 'a microgrid with a weak grid may have no genset',
 '''
from pymgrid.MicrogridGenerator import MicrogridGenerator
g = MicrogridGenerator(1)
g._size_load = lambda *a: 500
for s in range(12):
    np.random.seed(s)
    m = g._create_microgrid()
    if m.architecture['grid'] and m.parameters['grid_weak'].item(): assert m.architecture['genset'] == 1, s
''')
bug('B43', 'C24', [('MicrogridGenerator.py', "for j in range(1, int(duration_of_outage/timestep)):", "for j in range(1, min(int(duration_of_outage/timestep), 6)):")],
 'an outage of seven hours', 'long outages are cut short',
 '''
from pymgrid.MicrogridGenerator import MicrogridGenerator
s = MicrogridGenerator(1)._generate_weak_grid_profile(.05, 7, 8760).grid_status.values
runs = [len(r) for r in ''.join(map(str, s[2:])).split('1') if r]
assert runs and min(runs) >= 7, min(runs)
''')
bug('B44', 'C24', [('MicrogridGenerator.py', "'soc_0':min(max(np.random.randn(), soc_min),soc_max),", "'soc_0':max(min(abs(np.random.randn()), soc_max), 0),")],
 'a draw of the initial state of charge below the lower limit', 'batteries start below their minimum state of charge',
 '''
from pymgrid.MicrogridGenerator import MicrogridGenerator
g = MicrogridGenerator(1)
for i in range(200):
    b = g._get_battery()
    assert b['soc_min'] <= b['soc_0'] <= b['soc_max'], b
''')
bug('B45', 'C23', [('_deprecated/non_modular_microgrid.py', "self._data_length = min(self._load_test.shape[0], self._pv_test.shape[0])", "self._data_length = min(self._load_test.shape[0], self._pv_train.shape[0])")],
 'a split whose training part is shorter than its testing part', 'testing episodes end before the end of the testing data',
 '''
from pymgrid.MicrogridGenerator import MicrogridGenerator
g = MicrogridGenerator(1).generate_microgrid(modular=False)
m = g.microgrids[0]; m.set_horizon(1)
m.train_test_split(train_size=.001); m.reset(testing=True)
for i in range(20): m.run({k: 0. for k in ('battery_charge', 'battery_discharge', 'grid_import', 'grid_export', 'genset')})
assert not m.done
''')
bug('B46', 'C23', [('_deprecated/non_modular_microgrid.py', "        self._df_record_co2 = {i:[] for i in self._df_record_co2}\n\n        self._tracking_timestep = 0\n", "        self._df_record_co2 = {i:[] for i in self._df_record_co2}\n\n        self._tracking_timestep = 0 if not testing else min(self._tracking_timestep, self.horizon - 1) * (self._data_set_to_use == 'testing')\n")],
 'two testing episodes in a row with a horizon above 1', 'the second testing episode starts late',
 '''
from pymgrid.MicrogridGenerator import MicrogridGenerator
m = MicrogridGenerator(1).generate_microgrid(modular=False).microgrids[0]
m.train_test_split(); m.reset(testing=True)
a = m.load
for i in range(30): m.run({k: 0. for k in ('battery_charge', 'battery_discharge', 'grid_import', 'grid_export', 'genset')})
m.reset(testing=True)
assert m.load == a and m._tracking_timestep == 0
''')
