"""C10 rewards and shaping, C13 logs."""
from symx.registry import harness
from . import common


def costs(ctx, mix, info, t, deltas):
    """Documented cost of a step from the energies it reports."""
    r = 0.0
    b = info['balancing'][0]
    r = r - b.get('provided_energy', 0.0) * mix.loss_cost - b.get('absorbed_energy', 0.0) * mix.over_cost
    for i, (p, rows) in enumerate(mix.grids):
        d = info['grid'][i]
        imp, exp = d.get('provided_energy', 0.0), d.get('absorbed_energy', 0.0)
        r = r - imp * rows[t][0] + exp * rows[t][1] - imp * rows[t][2] * p['cost_per_unit_co2']
    for i, p in enumerate(mix.gens):
        e = info['genset'][i]['provided_energy']
        r = r - e * p['genset_cost'] - e * p['co2_per_unit'] * p['cost_per_unit_co2']
    for i, (p, c) in enumerate(mix.bats):
        r = r - ctx.abs(deltas[i]) * p['battery_cost_cycle']
    for kind, sign in (('penload', -1.0), ('feedin', 1.0), ('dump', -1.0), ('heater', -1.0)):
        for i, p in enumerate(mix.custom.get(kind, [])):
            d = info[kind][i]
            r = r + sign * p['price'] * (d.get('provided_energy', 0.0) + d.get('absorbed_energy', 0.0))
    return r


CSPECS = [['penload', 'pv'], ['penload', 'feedin', 'dump'], ['load', 'heater', 'grid'], ['load', 'dump', 'genset']]


RSPECS = [['load', 'pv'], ['load', 'battery'], ['load', 'grid'], ['load', 'genset'], ['load', 'pv', 'battery'], ['pv', 'genset'], ['pv', 'grid']]


@harness('C10', 'sum', quick=[{'spec': s} for s in RSPECS + CSPECS], thorough=[{'spec': ['load', 'pv', 'genset']}, {'spec': ['load', 'battery', 'genset']}],
         bounds='any parameters, prices, state, control of the listed compositions; one step')
def reward_sum(ctx, cfg):
    mix = common.Mix(ctx, cfg['spec'], 2, status=False)
    c0 = [c for _, c in mix.bats]
    _, r, _, info = mix.mg.run(mix.control(0), normalized=False)
    row = common.last_row(mix.mg)
    parts = 0.0
    for (n, i, f), v in row.items():
        if f == 'reward' and n != 'balance':
            parts = parts + v
    ctx.close(r, parts, 'reward is the sum of the module rewards')
    ctx.close(row[('balance', 0, 'reward')], r, 'recorded reward')
    ctx.close(row[('balance', 0, 'shaped_reward')], r, 'recorded shaped reward without shaping')
    deltas = [b.current_charge - c0[i] for i, b in enumerate(mix.mg.modules.battery)] if mix.bats else []
    ctx.close(r, costs(ctx, mix, info, 0, deltas), 'reward is minus the documented costs')


@harness('C10', 'history', quick=[{'spec': ['load', 'pv'], 'k': 3}, {'spec': ['load', 'pv'], 'k': 2, 'lead': 23}, {'spec': ['load', 'grid'], 'k': 2}, {'spec': ['clock', 'genset'], 'k': 2}, {'spec': ['penload', 'feedin'], 'k': 2}, {'spec': ['load', 'heater'], 'k': 2}], bounds='k steps: every step is rewarded on its own')
def reward_history(ctx, cfg):
    mix = common.Mix(ctx, cfg['spec'], cfg['k'] + 1, status=False, lead=cfg.get('lead', 0))
    rs = []
    for t in range(cfg['k']):
        _, r, _, info = mix.mg.run(mix.control(t), normalized=False)
        ctx.close(r, costs(ctx, mix, info, t, []), 'reward is minus the documented costs of this step')
        rs.append(r)
    log, _ = common.log_of(mix.mg)
    for t in range(cfg['k']):
        ctx.close(log[('balance', 0, 'reward')][t], rs[t], 'recorded reward')


class Shape:
    def __init__(self, f):
        self.f, self.calls = f, []

    def __call__(self, info, cost_info):
        self.calls.append((info, cost_info))
        return self.f(info)


@harness('C10', 'shaping', quick=[{'spec': s} for s in (['load', 'grid'], ['load', 'pv', 'battery'], ['load', 'genset'], ['load', 'penload', 'feedin', 'dump'], ['load', 'heater'])] + [{'spec': ['load', 'grid'], 'T': 2}, {'spec': ['load', 'battery'], 'T': 1}, {'spec': ['load', 'pv'], 'T': 1}],
         bounds='any shaping function value (a symbolic constant and a function of the step information), any state and control, first, middle and last step of an episode')
def shaping(ctx, cfg):
    v = ctx.real('shaped', -100, 100)
    shape = Shape(lambda info: v + info['load'][0]['absorbed_energy'])
    mix = common.Mix(ctx, cfg['spec'], cfg.get('T', 3), shaping=shape, status=False)
    if mix.grids and len(cfg['spec']) == 2:
        mix.mg.run({'grid': [0.0]}, normalized=False)
        t = 1
    else:
        t = 0
    c0 = [b.current_charge for b in mix.mg.modules.battery] if mix.bats else []
    shape.calls.clear()
    _, r, _, info = mix.mg.run(mix.control(t), normalized=False)
    row = common.last_row(mix.mg)
    ctx.close(r, v + mix.loads[0][t], 'returned reward is the shaped reward')
    ctx.close(row[('balance', 0, 'shaped_reward')], r, 'recorded shaped reward')
    deltas = [b.current_charge - c0[i] for i, b in enumerate(mix.mg.modules.battery)] if mix.bats else []
    ctx.close(row[('balance', 0, 'reward')], costs(ctx, mix, info, t, deltas), 'recorded reward is unshaped')
    ctx.check(len(shape.calls) > 0, 'shaping function called')
    last, cost = shape.calls[-1]
    for name, lst in info.items():
        ctx.check(name in last and len(last[name]) == len(lst), f'shaper sees {name}')
        for d, e in zip(last[name], lst):
            for k, x in e.items():
                ctx.close(d[k], x, f'shaper sees {name} {k}')
    for i, (p, rows) in enumerate(mix.grids):
        ctx.close(cost['grid'][i]['production_marginal_cost'], rows[t][0], 'import price passed to the shaper')
        ctx.close(cost['grid'][i]['absorption_marginal_cost'], rows[t][1], 'export price passed to the shaper')
    for i, (p, c) in enumerate(mix.bats):
        ctx.close(cost['battery'][i]['production_marginal_cost'], p['battery_cost_cycle'], 'battery marginal cost')
    for i, p in enumerate(mix.gens):
        ctx.close(cost['genset'][i]['production_marginal_cost'], p['genset_cost'] + p['co2_per_unit'] * p['cost_per_unit_co2'], 'genset marginal cost')
    for kind in ('dump', 'heater'):
        for i, p in enumerate(mix.custom.get(kind, [])):
            ctx.close(cost[kind][i]['absorption_marginal_cost'], p['price'], 'marginal cost of a user-defined module')
    ctx.close(cost['balancing'][0]['production_marginal_cost'], mix.loss_cost, 'loss load marginal cost')
    ctx.close(cost['balancing'][0]['absorption_marginal_cost'], mix.over_cost, 'overgeneration marginal cost')


@harness('C10', 'builtin_curtailment', quick=[{'spec': ['load', 'pv', 'pv']}, {'spec': ['load', 'pv'], 'name': 'renewable'}, {'spec': ['load', 'battery']}],
         bounds='PVCurtailmentShaper in a step with any series and control')
def curtail_shaper(ctx, cfg):
    from pymgrid.microgrid.reward_shaping import PVCurtailmentShaper
    mix = common.Mix(ctx, cfg['spec'], 2, shaping=PVCurtailmentShaper(), status=False, named=cfg.get('name') != 'renewable')
    _, r, _, info = mix.mg.run(mix.control(0), normalized=False)
    used = 0.0
    for d in info.get(cfg.get('name', 'pv'), []):
        used = used + d['provided_energy']
    ctx.close(r, used - ctx.sum(s[0] for s in mix.pvs), 'minus total curtailment')


@harness('C10', 'builtin_battery', quick=[{'spec': ['load', 'battery']}, {'spec': ['load', 'load', 'battery']}, {'spec': ['load', 'pv', 'battery'], 'name': 'unbalanced_energy'}],
         thorough=[{'spec': ['load', 'battery', 'battery']}],
         bounds='BatteryDischargeShaper in a step with any parameters, series and control, balancing module under its default and its scenario name')
def battery_shaper(ctx, cfg):
    from pymgrid.microgrid.reward_shaping import BatteryDischargeShaper
    from pymgrid.modules import UnbalancedEnergyModule
    name = cfg.get('name', 'balancing')
    mix = common.Mix(ctx, cfg['spec'], 2, shaping=BatteryDischargeShaper(), status=False,
                     balancing=None if name == 'balancing' else (name, UnbalancedEnergyModule(raise_errors=False)))
    _, r, _, info = mix.mg.run(mix.control(0), normalized=False)
    load = ctx.sum(s[0] for s in mix.loads)
    dis = ctx.sum(d.get('provided_energy', 0.0) for d in info['battery'])
    loss = info[name][0].get('provided_energy', 0.0)
    if ctx.symbolic:
        ctx.close(ctx.ite(load == 0, 0.0, r * load), ctx.ite(load == 0, 0.0, ctx.clip(dis - loss, -load, load)), 'battery discharge minus loss load over load')
        ctx.check(ctx.implies(load == 0, ctx.eq_(r, 0.0)), 'no load: zero')
    else:
        ctx.close(0.0 if load == 0 else r * load, 0.0 if load == 0 else ctx.clip(dis - loss, -load, load), 'battery discharge minus loss load over load')
        ctx.check(load != 0 or r == 0, 'no load: zero')


# ------------------------------------------------------------------------ C13

FIELDS = {'load': (None, 'load_met'), 'pv': ('renewable_used', None), 'battery': ('discharge_amount', 'charge_amount'),
          'grid': ('grid_import', 'grid_export'), 'genset': ('genset_production', None), 'clock': (None, 'load_met'), 'balancing': ('loss_load', 'overgeneration'),
          'penload': (None, 'load_met'), 'feedin': ('renewable_used', None), 'dump': (None, 'dumped'), 'heater': (None, 'dumped')}


def check_rows(ctx, log, index, states, infos, rewards, first):
    ctx.check(index == [first + t for t in range(len(infos))], 'one row per executed step, indexed by time step', f'{index}')
    if len(index) != len(infos):
        return
    for t, ((sd, after), info) in enumerate(zip(zip(states, states[1:]), infos)):
        for name, lst in info.items():
            for i, d in enumerate(lst):
                p, a = FIELDS[name]
                if p:
                    ctx.close(log[(name, i, p)][t], d.get('provided_energy', 0.0), f'logged {p}')
                if a:
                    ctx.close(log[(name, i, a)][t], d.get('absorbed_energy', 0.0), f'logged {a}')
                for k, v in d.items():
                    if k not in ('provided_energy', 'absorbed_energy'):
                        ctx.close(log[(name, i, k)][t], v, f'logged {name} {k}')
                # a genset changes status at the beginning of a step: its record holds the status in effect
                for k, v in (after if name == 'genset' else sd)[name][i].items():
                    ctx.close(log[(name, i, k)][t], v, f'logged {name} state {k} is the state before the step')
        ctx.close(log[('balance', 0, 'reward')][t], rewards[t], 'logged reward')


@harness('C13', 'rows', quick=[{'spec': ['load', 'pv'], 'k': 3}, {'spec': ['load', 'pv'], 'k': 2, 'lead': 23}, {'spec': ['battery', 'load'], 'k': 1}, {'spec': ['grid'], 'k': 2}, {'spec': ['genset', 'load'], 'k': 1},
                               {'spec': ['load', 'load', 'pv', 'pv'], 'k': 1}, {'spec': ['clock', 'genset'], 'k': 2}, {'spec': ['clock', 'battery'], 'k': 2}, {'spec': ['load', 'grid'], 'k': 1},
                               {'spec': ['penload', 'feedin', 'dump'], 'k': 2}, {'spec': ['load', 'heater'], 'k': 2}, {'spec': ['penload', 'dump', 'genset'], 'k': 1, 'shaped': True}, {'spec': ['load', 'heater', 'pv'], 'k': 2, 'shaped': True}],
         thorough=[{'spec': ['load', 'battery'], 'k': 2}, {'spec': ['grid', 'grid'], 'k': 1}],
         bounds='k steps of the listed compositions from any state, any control, status and CO2 included')
def rows(ctx, cfg):
    k = cfg['k']
    v = ctx.real('shaped', -100, 100)
    mix = common.Mix(ctx, cfg['spec'], k + 1, shaping=(lambda info, cost_info: v) if cfg.get('shaped') else None, lead=cfg.get('lead', 0))
    states, infos, rewards, shaped = [], [], [], []
    for t in range(k):
        states.append(mix.mg.state_dict())
        _, r, _, info = mix.mg.run(mix.control(t), normalized=False)
        infos.append(info)
        shaped.append(r)
        rewards.append(costs(ctx, mix, info, t, []) if cfg.get('shaped') else r)
    states.append(mix.mg.state_dict())
    log, index = common.log_of(mix.mg)
    check_rows(ctx, log, index, states, infos, rewards, cfg.get('lead', 0))
    for t in range(len(index)):
        ctx.close(log[('balance', 0, 'shaped_reward')][t], shaped[t], 'logged shaped reward')
        modules = ctx.sum(v[t] for (n, i, f), v in log.items() if f == 'reward' and n != 'balance')
        ctx.close(log[('balance', 0, 'reward')][t], modules, 'logged reward is the sum of the logged module rewards')
    per_module(ctx, mix.mg, log, k)
    mix.mg.reset()
    log, index = common.log_of(mix.mg)
    ctx.check(len(index) == 0, 'reset starts an empty log')
    for name, mods in mix.mg.modules.iterdict():
        for m in mods:
            ctx.check(all(len(v) == 0 for v in m.log_dict().values()), 'reset starts an empty module log')


def per_module(ctx, mg, log, k):
    for name, mods in mg.modules.iterdict():
        for i, m in enumerate(mods):
            d = m.log_dict()
            last = m.logger_last
            for f, v in d.items():
                ctx.check(len(v) == k, f'{name} log length')
                ctx.close(v[-1], log[(name, i, f)][k - 1], f'{name} module log {f}')
                ctx.close(last[f], v[-1], f'{name} last log entry {f}')


@harness('C13', 'episodes', quick=[{'kind': 'reset'}, {'kind': 'trajectory'}, {'kind': 'second_trajectory'}],
         bounds='load, renewable; k steps after a reset, after a reset with a trajectory starting at any step of a 5-step series')
def episodes(ctx, cfg):
    traj = None
    a = 0
    if cfg['kind'] != 'reset':
        a = ctx.const_int('start', 0, 2)
        b = ctx.const_int('stop', a + 2, 5)
        calls = []

        def traj(lo, hi):
            calls.append(1)
            return (a, b) if len(calls) > 1 or cfg['kind'] == 'trajectory' else (0, 3)
    mix = common.Mix(ctx, ['load', 'pv'], 5, traj=traj)
    mg = mix.mg
    mg.reset()
    mg.run({}, normalized=False)
    mg.reset()
    states, infos, rewards = [], [], []
    for t in range(2):
        states.append(mg.state_dict())
        _, r, _, info = mg.run({}, normalized=False)
        infos.append(info)
        rewards.append(r)
        ctx.close(info['load'][0]['absorbed_energy'], mix.loads[0][a + t], 'series value of the time step')
    states.append(mg.state_dict())
    log, index = common.log_of(mg)
    check_rows(ctx, log, index, states, infos, rewards, a)


@harness('C13', 'forms', quick=[{}, {'spec': ['load', 'pv', 'pv']}], bounds='nested-dict form and drop_singleton_key form agree with the frame; two steps of a load and one or two renewables')
def forms(ctx, cfg):
    mix = common.Mix(ctx, cfg.get('spec', ['load', 'pv']), 3)
    for t in range(2):
        mix.mg.run({}, normalized=False)
    log, index = common.log_of(mix.mg)
    nested = mix.mg.get_log(as_frame=False)
    prop = mix.mg.log
    single = mix.mg.get_log(drop_singleton_key=True)
    one = len(cfg.get('spec', '12')) == len(set(cfg.get('spec', '12')))     # one module for each name: the number is dropped
    ctx.check(single.columns.nlevels == (2 if one else 3), 'module number dropped exactly if no name has two modules', f'{single.columns.names}')
    ctx.check(list(single.index) == index and len(single.columns) == len(log), 'log with dropped key: same rows and columns')
    if single.columns.nlevels != (2 if one else 3):
        return
    for c, v in log.items():
        for t in range(2):
            ctx.close(nested[c][t], v[t], 'nested log')
            ctx.close(prop[c].tolist()[t], v[t], 'log property')
            ctx.close(single[(c[0], c[2]) if one else c].tolist()[t], v[t], 'log with dropped key')


@harness('C13', 'long', quick=[{'spec': ['load', 'pv', 'cell']}, {'spec': ['load', 'grid']}], bounds='27 steps, the last two arbitrary; idle controls')
def long(ctx, cfg):
    mix = common.Mix(ctx, cfg['spec'], 3, lead=25, late=False, status=False)
    c = {'battery': [0.0]} if 'cell' in cfg['spec'] else {'grid': [0.0]}
    states, infos, rewards = [], [], []
    for t in range(27):
        states.append(mix.mg.state_dict())
        _, r, _, info = mix.mg.run(dict(c), normalized=False)
        infos.append(info)
        rewards.append(r)
        ctx.check(mix.mg.current_step == t + 1, 'time step')
    states.append(mix.mg.state_dict())
    log, index = common.log_of(mix.mg)
    check_rows(ctx, log, index, states, infos, rewards, 0)
    per_module(ctx, mix.mg, log, 27)
    for t in range(2):
        ctx.close(log[('load', 0, 'load_met')][25 + t], mix.loads[0][t], 'load of the step')


@harness('C13', 'late_field', quick=[{}], bounds='a field first logged at a later step leaves the earlier rows empty, not shifted')
def late_field(ctx, cfg):
    from pymgrid.utils.logger import ModularLogger
    l = ModularLogger()
    x, y, z = (ctx.real(n, -10, 10) for n in 'xyz')
    l.log(a=x)
    l.log(a=y, b=z)
    ctx.check(len(l) == 2, 'length')
    ctx.close(l['a'][0], x, 'a0')
    ctx.close(l['a'][1], y, 'a1')
    ctx.check(len(l['b']) == 2 and l['b'][0] != l['b'][0], 'missing entry is nan')
    ctx.close(l['b'][1], z, 'b1')
    l.flush()
    ctx.check(len(l) == 0 and l.to_dict() == {}, 'flushed')
    l.log(c=x)
    ctx.check(len(l) == 1 and list(l.to_dict()) == ['c'], 'fresh after flush')
