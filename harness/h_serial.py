"""C15 dump and load."""
import inspect
import shutil
import tempfile
from pathlib import Path

from symx.registry import harness
from . import common


def roundtrip(ctx, obj, how, label='dump and load'):
    def f():
        if how == 'string':
            return type(obj).load(obj.dump())
        d = Path(tempfile.mkdtemp(prefix='symx_'))
        try:
            with open(d / 'obj.yaml', 'w') as fh:
                obj.dump(fh)
            with open(d / 'obj.yaml') as fh:
                return type(obj).load(fh)
        finally:
            shutil.rmtree(d)
    return ctx.must_not_raise(label, f)


def same(ctx, a, b, label):
    """Structural equality of plain values, symbolic numbers by the solver."""
    import numpy as np
    if isinstance(a, dict) or isinstance(b, dict):
        ctx.check(isinstance(a, dict) and isinstance(b, dict) and sorted(map(str, a)) == sorted(map(str, b)), f'{label}: keys', f'{a if not isinstance(a, dict) else list(a)} {b if not isinstance(b, dict) else list(b)}')
        if isinstance(a, dict) and isinstance(b, dict):
            for k in a:
                if k in b:
                    same(ctx, a[k], b[k], f'{label} {k}')
    elif isinstance(a, (list, tuple, np.ndarray)) and np.ndim(a) > 0:
        ctx.check(hasattr(b, '__len__') and np.shape(a) == np.shape(b), f'{label}: shape')
        if hasattr(b, '__len__') and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                same(ctx, x, y, label)
    elif a is None or b is None or isinstance(a, str):
        ctx.check(a is b or a == b, label, f'{a!r} {b!r}')
    elif isinstance(a, (int, float)) or hasattr(a, 'z') or isinstance(a, np.number):
        ctx.close(b, a, label)
    else:
        ctx.check(type(a) is type(b), f'{label}: type', f'{a!r} {b!r}')


SKIP = {'forecaster', 'genset_cost', 'battery_transition_model'}


def same_module(ctx, m, n, label='', norm=False):
    ctx.check(type(m) is type(n), f'{label}type')
    for p in inspect.signature(type(m)).parameters:
        if p not in SKIP:
            same(ctx, getattr(m, p), getattr(n, p), f'{label}parameter {p}')
    if hasattr(m, 'forecaster'):
        ctx.check(type(m.forecaster) is type(n.forecaster), f'{label}forecaster')
    ctx.check(tuple(m.name) == tuple(n.name), f'{label}name', f'{m.name} {n.name}')
    ctx.check(int(m.current_step) == int(n.current_step), f'{label}step', f'{m.current_step} {n.current_step}')
    same(ctx, m.state_dict(), n.state_dict(), f'{label}state')
    if norm:
        same(ctx, m.state_dict(normalized=True), n.state_dict(normalized=True), f'{label}normalised state')
    same_log(ctx, m, n, label)


def same_log(ctx, m, n, label=''):
    a, b = m.logger.to_dict(), n.logger.to_dict()
    ctx.check(len(m.logger) == len(n.logger), f'{label}log length', f'{len(m.logger)} {len(n.logger)}')
    same(ctx, {k: list(v) for k, v in a.items()}, {k: list(v) for k, v in b.items()}, f'{label}log')


def same_step(ctx, r1, r2, label='', obs=True):
    for i, what in enumerate(('observation', 'reward', 'done', 'info')):
        if what == 'observation' and not obs:      # state dictionaries are compared instead
            continue
        if what == 'done':
            ctx.check(bool(r1[i]) == bool(r2[i]), f'{label}done')
        else:
            same(ctx, r1[i], r2[i], f'{label}{what}')


FC = {'none': (None, 0), 'oracle': ('oracle', 2), 'noise': (0.5, 1)}


def make(ctx, cfg, T=4):
    kind = cfg['kind']
    kw = {}
    if 'fc' in cfg:
        f, h = FC[cfg['fc']]
        kw = dict(forecaster=f, forecast_horizon=h)
        if cfg['fc'] == 'noise':
            kw['forecaster_increase_uncertainty'] = True
            kw['forecaster_relative_noise'] = True
    if cfg.get('episode'):
        kw.update(initial_step=1, final_step=3)
    if kind == 'battery':
        return common.battery(ctx, raise_errors=bool(cfg.get('errors')))[0]
    if kind == 'battery_soc':
        from pymgrid.modules import BatteryModule
        p = common.battery_params(ctx)
        s = ctx.real('soc', 0, 1)
        ctx.assume(s * p['max_capacity'] >= p['min_capacity'])
        return BatteryModule(init_soc=s, **p)
    if kind == 'genset':
        return common.genset(ctx, start_up_time=cfg.get('up', 1), wind_down_time=cfg.get('down', 1), init_start_up=cfg.get('on', True), allow_abortion=cfg.get('abort', True))[0]
    if kind == 'load':
        return common.load(ctx, T, **kw)[0]
    if kind == 'renewable':
        return common.renewable(ctx, T, **kw)[0]
    if kind == 'grid':
        return common.grid(ctx, T, status=cfg.get('status', False), **kw)[0]
    from pymgrid.modules import UnbalancedEnergyModule
    return UnbalancedEnergyModule(False, loss_load_cost=ctx.real('loss', 0, 10), overgeneration_cost=ctx.real('over', 0, 10))


def action(ctx, kind, m, t):
    if kind == 'genset':
        return ctx.array([ctx.const_int(f'goal{t}', 0, 1), ctx.real(f'req{t}', 0, 1000000)])
    if kind in ('load',):
        return 0.0
    if kind == 'renewable':
        return ctx.real(f'req{t}', 0, 1000000)
    return ctx.real(f'req{t}', -1000000, 1000000)


@harness('C15', 'module', quick=[{'kind': 'battery', 'k': 1, 'how': 'string'}, {'kind': 'battery', 'k': 0, 'how': 'file', 'errors': True}, {'kind': 'battery_soc', 'k': 1, 'how': 'file'},
                                 {'kind': 'genset', 'k': 1, 'how': 'string', 'up': 2, 'down': 1, 'on': False}, {'kind': 'genset', 'k': 1, 'how': 'file', 'up': 0, 'down': 3, 'abort': False},
                                 {'kind': 'load', 'k': 2, 'how': 'string', 'fc': 'oracle'}, {'kind': 'load', 'k': 1, 'how': 'file'}, {'kind': 'renewable', 'k': 1, 'how': 'string', 'fc': 'oracle'},
                                 {'kind': 'renewable', 'k': 1, 'how': 'file', 'fc': 'oracle', 'episode': True}, {'kind': 'renewable', 'k': 0, 'how': 'string'},
                                 {'kind': 'grid', 'k': 1, 'how': 'string', 'fc': 'oracle', 'T': 2}, {'kind': 'grid', 'k': 1, 'how': 'file', 'status': True}, {'kind': 'unbalanced', 'k': 1, 'how': 'string'}],
         thorough=[{'kind': 'battery', 'k': 2, 'how': 'file'}, {'kind': 'genset', 'k': 2, 'how': 'string', 'up': 1, 'down': 2}, {'kind': 'genset', 'k': 3, 'how': 'file', 'up': 2, 'down': 2}, {'kind': 'grid', 'k': 3, 'how': 'string', 'fc': 'oracle', 'status': True}],
         bounds='every module type with any parameters and series of 4 rows (grid with forecast: 2), saved after k=0..2 (thorough 3) steps of any requests to a string or file, loaded, then one more step with any request; forecasters none/oracle')
def module(ctx, cfg):
    kind = cfg['kind']
    m = make(ctx, cfg, cfg.get('T', 4))
    for t in range(cfg['k']):
        m.step(action(ctx, kind, m, t), normalized=False)
    n = roundtrip(ctx, m, cfg['how'])
    same_module(ctx, m, n, norm=kind in ('battery', 'genset', 'renewable'))
    ctx.check(ctx.must_not_raise('comparison', lambda: bool(m == n)), 'the loaded module equals the dumped one')
    if cfg.get('errors'):
        return
    a = action(ctx, kind, m, 'x')
    r1 = m.step(a, normalized=False)
    r2 = ctx.must_not_raise('step of the loaded module', n.step, a, normalized=False)
    same_step(ctx, r1, r2, 'next step: ', obs=kind != 'grid')
    same_module(ctx, m, n, 'after a step: ')
    m.reset()
    n.reset()
    same_module(ctx, m, n, 'after a reset: ')


def dispatchless(ctx, mix, T):
    """One dispatch order only: renewables exceed the load."""
    for t in range(T):
        for s in mix.loads + mix.pvs:
            ctx.assume(s[t] > 0)
        if mix.loads and mix.pvs:
            ctx.assume(ctx.sum(s[t] for s in mix.pvs) > ctx.sum(s[t] for s in mix.loads))


def control(ctx, mix, t):
    c = {}
    if mix.grids:
        c['grid'] = [0.0 for _ in mix.grids]
    if mix.cells or mix.bats:
        n = mix.cells + len(mix.bats)
        c['battery'] = []
        for i in range(n):
            x = ctx.real(f'bat{i}_{t}', 0.25, 1)
            c['battery'].append(-x)
    if mix.gens:
        c['genset'] = [ctx.array([ctx.const_int(f'goal{i}_{t}', 0, 1) if t == 0 else 1, 0.0]) for i in range(len(mix.gens))]
    return c


def same_microgrid(ctx, a, b, label=''):
    x, y = a.modules.to_tuples(), b.modules.to_tuples()
    ctx.check([n for n, _ in x] == [n for n, _ in y], f'{label}module names', f'{x} {y}')
    for (n, m), (_, k) in zip(x, y):
        same_module(ctx, m, k, f'{label}{n}: ')
    ctx.check(a.initial_step == b.initial_step and a.final_step == b.final_step, f'{label}bounds', f'{b.initial_step} {b.final_step}')
    ctx.check(a.trajectory_func == b.trajectory_func, f'{label}trajectory')
    ctx.check(type(a.reward_shaping_func) is type(b.reward_shaping_func), f'{label}reward shaping')
    la, ia = common.log_of(a)
    lb, ib = common.log_of(b)
    ctx.check(list(map(int, ia)) == list(map(int, ib)), f'{label}log index', f'{ia} {ib}')
    same(ctx, la, lb, f'{label}microgrid log')


@harness('C15', 'microgrid', quick=[{'spec': ['load', 'pv', 'cell'], 'k': 1, 'how': 'string'}, {'spec': ['load', 'pv', 'cell', 'cell'], 'k': 1, 'how': 'file'}, {'spec': ['load', 'pv', 'grid'], 'k': 2, 'how': 'string'},
                                    {'spec': ['load', 'load', 'pv', 'pv'], 'k': 1, 'how': 'file'}, {'spec': ['load', 'pv', 'genset'], 'k': 1, 'how': 'string'}, {'spec': ['load', 'pv', 'cell'], 'k': 0, 'how': 'file'},
                                    {'spec': ['load', 'pv'], 'k': 1, 'how': 'string', 'traj': True}, {'spec': ['load', 'pv'], 'k': 1, 'how': 'string', 'fc': True}, {'spec': ['load', 'pv', 'cell'], 'k': 1, 'how': 'string', 'shape': True}],
         thorough=[{'spec': ['load', 'pv', 'cell', 'grid'], 'k': 2, 'how': 'file'}, {'spec': ['load', 'pv', 'battery'], 'k': 2, 'how': 'string'}],
         bounds='listed mixes, any series of 4 rows with renewables exceeding the load, saved after k steps to a string or files, loaded, then a step, a reset and another step on both')
def microgrid(ctx, cfg):
    T = 4
    kw = {}
    if cfg.get('traj'):
        from pymgrid.microgrid.trajectory import DeterministicTrajectory
        kw['traj'] = DeterministicTrajectory(1, 4)
    if cfg.get('fc'):
        kw['ts_kw'] = dict(forecaster='oracle', forecast_horizon=2)
    if cfg.get('shape'):
        from pymgrid.microgrid.reward_shaping import BatteryDischargeShaper
        kw['shaping'] = BatteryDischargeShaper()
    if 'genset' in cfg['spec']:
        kw['genset_kw'] = dict(start_up_time=1, wind_down_time=1, init_start_up=False)
    mix = common.Mix(ctx, cfg['spec'], T, status=False, **kw)
    dispatchless(ctx, mix, T)
    mg = mix.mg
    if cfg.get('traj'):
        mg.reset()
    for t in range(cfg['k']):
        mg.run(control(ctx, mix, t), normalized=False)
    lo = roundtrip(ctx, mg, cfg['how'])
    same_microgrid(ctx, mg, lo)
    ctx.check(ctx.must_not_raise('comparison', lambda: bool(mg == lo)), 'the loaded microgrid equals the dumped one')
    c = control(ctx, mix, 'x')
    same_step(ctx, mg.run(c, normalized=False), ctx.must_not_raise('step of the loaded microgrid', lo.run, c, normalized=False), 'next step: ')
    same_microgrid(ctx, mg, lo, 'after a step: ')
    mg.reset()
    ctx.must_not_raise('reset of the loaded microgrid', lo.reset)
    same_microgrid(ctx, mg, lo, 'after a reset: ')
    c = control(ctx, mix, 'y')
    same_step(ctx, mg.run(c, normalized=False), ctx.must_not_raise('step of the loaded microgrid', lo.run, c, normalized=False), 'step after reset: ')
    same_microgrid(ctx, mg, lo, 'after reset and step: ')


@harness('C15', 'attached', quick=[{'traj': t, 'shaper': s} for t, s in (('deterministic', 'pv'), ('stochastic', 'battery'), ('fixed', None))],
         bounds='built-in trajectories (any bounds and lengths in a 4-step series) and reward shapers of a microgrid are those of the loaded one')
def attached(ctx, cfg):
    from pymgrid.microgrid import trajectory as tr, reward_shaping as rs
    a, b = ctx.const_int('a', 0, 3), ctx.const_int('b', 1, 4)
    ctx.assume(a < b)
    t = dict(deterministic=lambda: tr.DeterministicTrajectory(a, b), stochastic=tr.StochasticTrajectory, fixed=lambda: tr.FixedLengthStochasticTrajectory(b - a))[cfg['traj']]()
    s = dict(pv=rs.PVCurtailmentShaper, battery=rs.BatteryDischargeShaper).get(cfg['shaper'], lambda: None)()
    ctx.use_random(fork_ints=True)
    mix = common.Mix(ctx, ['clock'], 4, traj=t, shaping=s)
    for how in ('string', 'file'):
        lo = roundtrip(ctx, mix.mg, how)
        ctx.check(type(lo.reward_shaping_func) is type(s), 'reward shaper')
        ctx.check(type(lo.trajectory_func) is type(t), 'trajectory')
        if cfg['traj'] == 'deterministic':
            ctx.check(tuple(lo.trajectory_func(0, 4)) == (a, b), 'bounds of the trajectory')
        if cfg['traj'] == 'fixed':
            x, y = lo.trajectory_func(0, 4)
            ctx.check(y - x == b - a, 'length of the trajectory')
        ctx.check(ctx.must_not_raise('comparison', lambda: bool(mix.mg == lo)), 'the loaded microgrid equals the dumped one')


@harness('C15', 'differs', quick=[{'kind': k} for k in ('battery', 'genset', 'load', 'renewable', 'grid')],
         bounds='two modules of one type with any two parameter sets: a loaded module equals its original and differs from one with clearly different parameters')
def differs(ctx, cfg):
    kind = cfg['kind']
    if kind == 'battery':
        from pymgrid.modules import BatteryModule
        x, y = ctx.real('x', 20, 1000), ctx.real('y', 20, 1000)
        ctx.assume(x > y + 1)
        f = lambda v: BatteryModule(min_capacity=0.0, max_capacity=v, max_charge=5.0, max_discharge=5.0, efficiency=0.5, init_charge=10.0)
        g = lambda v: BatteryModule(min_capacity=0.0, max_capacity=1000.0, max_charge=5.0, max_discharge=5.0, efficiency=0.5, init_charge=v)
        fs = [f, g]
    elif kind == 'genset':
        from pymgrid.modules import GensetModule
        x, y = ctx.real('x', 0, 1000), ctx.real('y', 0, 1000)
        ctx.assume(x > y + 1)
        fs = [lambda v: GensetModule(running_min_production=0.0, running_max_production=v, genset_cost=1.0),
              lambda v: GensetModule(running_min_production=0.0, running_max_production=5.0, genset_cost=v)]
    elif kind in ('load', 'renewable'):
        from pymgrid.modules import LoadModule, RenewableModule
        x, y = ctx.real('x', 0, 1000), ctx.real('y', 0, 1000)
        ctx.assume(x > y + 1)
        cls = LoadModule if kind == 'load' else RenewableModule
        fs = [lambda v: cls(time_series=ctx.array([1.0, v, 2.0]))]
    else:
        from pymgrid.modules import GridModule
        x, y = ctx.real('x', 0, 1000), ctx.real('y', 0, 1000)
        ctx.assume(x > y + 1)
        fs = [lambda v: GridModule(max_import=v, max_export=1.0, time_series=ctx.array([[1.0, 1.0, 1.0], [1.0, 2.0, 1.0]])),
              lambda v: GridModule(max_import=1.0, max_export=1.0, time_series=ctx.array([[1.0, 1.0, 1.0], [1.0, v, 1.0]]))]
    for f in fs:
        m, n = f(x), f(y)
        lo = roundtrip(ctx, m, 'string')
        ctx.check(bool(m == lo), 'equal to its copy')
        ctx.check(not bool(n == lo), 'different from a module with other parameters')


@harness('C15', 'noise', quick=[{'inc': i, 'rel': r, 'h': h} for i, r, h in ((False, False, 1), (True, True, 2))],
         bounds='a module with a noise forecaster of any level: the loaded one has the same noise settings, horizon and time series and compares without failing')
def noise(ctx, cfg):
    ctx.use_random()
    std = ctx.real('noise_std', 0.125, 10)
    m, s = common.renewable(ctx, 4, forecaster=std, forecast_horizon=cfg['h'], forecaster_increase_uncertainty=cfg['inc'], forecaster_relative_noise=cfg['rel'])
    for x in s:
        ctx.assume(x > 0)
    m.step(0.0, normalized=False)
    n = roundtrip(ctx, m, 'string')
    f, g = m.forecaster, n.forecaster
    ctx.check(type(f) is type(g), 'kind of forecaster')
    ctx.close(g.input_noise_std, std, 'noise level')
    same(ctx, f.noise_std, g.noise_std, 'noise standard deviation')
    ctx.check(g.increase_uncertainty == cfg['inc'] and g.relative_noise == cfg['rel'], 'noise options')
    ctx.check(n.forecast_horizon == cfg['h'] and int(n.current_step) == 1, 'horizon and step')
    same(ctx, m.time_series, n.time_series, 'time series')
    ctx.must_not_raise('comparison', lambda: bool(f == g))
    ctx.check(ctx.must_not_raise('comparison', lambda: bool(f == g)), 'forecasters are equal')


@harness('C15', 'text', quick=[{'how': 'string'}, {'how': 'file'}], bounds='40-row series of any integers up to 10^6 divided by 7000: every value is read back exactly')
def text(ctx, cfg):
    from pymgrid.modules import RenewableModule
    k = ctx.int('k', 1, 10 ** 6)
    m = RenewableModule(time_series=ctx.array([(k + 1237 * i) / 7000.0 for i in range(40)]))
    n = roundtrip(ctx, m, cfg['how'])
    for i in range(40):
        ctx.check(n.time_series[i, 0] == m.time_series[i, 0], 'value read back exactly', f'row {i}')
