PRE = '''import warnings; warnings.filterwarnings('ignore')
import numpy as np, pandas as pd
from pymgrid import Microgrid
from pymgrid.modules import *
'''
BUGS = []
def bug(id, prop, edits, needs, breaks, demo): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug('B57', 'C22', [('envs/discrete/discrete.py', "        self.actions_list.pop(action_number)\n", "        self.actions_list[action_number] = self.actions_list[-1]\n        self.actions_list.pop()\n")],
    'removing an action before the second to last one', 'after a removal the action numbers stand for other priority lists', PRE + '''
from pymgrid.envs import DiscreteMicrogridEnv
env = DiscreteMicrogridEnv([LoadModule(time_series=[10., 20., 30.]), BatteryModule(min_capacity=0, max_capacity=100, max_charge=50, max_discharge=50, efficiency=.9, init_soc=.5),
                            GridModule(max_import=50, max_export=50, time_series=np.array([[1., .5, 0.]] * 3)), GensetModule(running_min_production=0, running_max_production=40, genset_cost=.5)])
lists = list(env.actions_list)
env.remove_action(1)
assert env.actions_list == lists[:1] + lists[2:], 'order of the remaining actions'
''')
