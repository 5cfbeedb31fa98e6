"""C16 priority-list dispatch: rule-based control and the discrete environment."""
import copy
import itertools

from symx.registry import harness
from . import common
from .h_genset import Ref

SLACK = 1e-4        # what the controller regards as nothing left to do


class Model:
    """What each controllable module can do, computed from the parameters the harness chose."""

    def __init__(self, ctx, mix, gen_state):
        self.ctx, self.mix = ctx, mix
        self.charge = [c for _, c in mix.bats]
        self.gens = gen_state

    def limits(self, name, i, action, t):
        """(can absorb, must provide, can provide)"""
        ctx = self.ctx
        if name == 'battery':
            p, c = self.mix.bats[i][0], self.charge[i]
            e = p['efficiency']
            return ctx.min(p['max_charge'], p['max_capacity'] - c) / e, 0.0, ctx.min(p['max_discharge'], c - p['min_capacity']) * e
        if name == 'grid':
            p, rows = self.mix.grids[i]
            s = rows[t][3] if len(rows[t]) > 3 else 1.0
            return p['max_export'] * s, 0.0, p['max_import'] * s
        p = self.mix.gens[i]
        r = self.gens[i].clone()
        r.step(action)
        return 0.0, r.cur * p['running_min_production'], r.cur * p['running_max_production']

    def dispatch(self, plist, t):
        ctx = self.ctx
        rem = ctx.sum(s[t] for s in self.mix.loads) - ctx.sum(s[t] for s in self.mix.pvs)
        out = {}
        for el in plist:
            name, i = el.module
            take, must, give = self.limits(name, i, el.action, t)
            e = ctx.ite(rem > 0, ctx.max(must, ctx.min(rem, give)), ctx.ite(must > 0, must, ctx.max(rem, -take)))
            out[(name, i)] = (e, rem, take, must, give)
            rem = rem - e
        return out, rem

    def advance(self, plist, got):
        for el in plist:
            name, i = el.module
            if name == 'battery':
                p = self.mix.bats[i][0]
                e = got[(name, i)]
                self.charge[i] = self.charge[i] - self.ctx.ite(e > 0, e / p['efficiency'], e * p['efficiency'])
            elif name == 'genset':
                self.gens[i].step(el.action)


def near(ctx, a, b, label, slack):
    ctx.le(a - b, slack, label + ' (not more)')
    ctx.le(b - a, slack, label + ' (not less)')


def net(d):
    return d.get('provided_energy', 0.0) - d.get('absorbed_energy', 0.0)


def build(ctx, cfg, k, cls=None, cls_kw=None):
    kw, gens = {}, []
    n = cfg['spec'].count('genset')
    if n:
        su, wd = (ctx.const_int('start_up', 0, 1), ctx.const_int('wind_down', 0, 1)) if cfg.get('times') else (0, 0)
        on = cfg['on'] if 'on' in cfg else ctx.const_int('on', 0, 1)
        kw = dict(start_up_time=su, wind_down_time=wd, init_start_up=bool(on))
        gens = [Ref(on, su, wd, True) for _ in range(n)]
    mix = common.Mix(ctx, cfg['spec'], k + 1, free=k, status=cfg.get('status', False), raise_errors=True, co2=False, cost=False, genset_kw=kw, cls=cls, cls_kw=cls_kw)
    return mix, Model(ctx, mix, gens)


def follow(ctx, model, plist, info, t):
    want, left = model.dispatch(plist, t)
    got = {k: net(info[k[0]][k[1]]) for k in want}
    for j, el in enumerate(plist):
        near(ctx, got[tuple(el.module)], want[tuple(el.module)][0], f'{el.module[0]} number {j} in the list serves what remains within its limits', SLACK * (j + 1))
    # nothing is left unserved while a listed module could serve it
    loss = info['balancing'][0].get('provided_energy', 0.0)
    near(ctx, loss, ctx.max(left, 0.0), 'loss load is what the listed modules cannot provide', SLACK * (len(plist) + 1))
    model.advance(plist, got)


CASES = [{'spec': ['load', 'pv', 'battery']}, {'spec': ['load', 'pv', 'grid'], 'status': True}, {'spec': ['load', 'pv', 'genset'], 'times': True},
         {'spec': ['load', 'pv', 'battery', 'grid'], 'status': True}, {'spec': ['load', 'pv', 'battery', 'genset'], 'on': 1}, {'spec': ['load', 'grid', 'genset'], 'on': 1}]
DEEP = [{'spec': ['load', 'pv', 'battery', 'genset']}, {'spec': ['load', 'grid', 'genset']}, {'spec': ['load', 'pv', 'battery', 'grid', 'genset'], 'times': True}, {'spec': ['load', 'load', 'pv', 'pv', 'battery', 'grid'], 'status': True},
        {'spec': ['load', 'pv', 'battery', 'battery']}, {'spec': ['load', 'genset', 'genset']}, {'spec': ['load', 'pv', 'battery'], 'k': 3}]


@harness('C16', 'discrete', quick=CASES, thorough=DEEP,
         bounds='one step (k steps where stated) of the discrete environment with any action of its action space, modules that raise errors on infeasible requests, any parameters, series, grid status, charge and genset status, start-up and wind-down times 0 and 1')
def discrete(ctx, cfg):
    from pymgrid.envs import DiscreteMicrogridEnv
    k = cfg.get('k', 1)
    mix, model = build(ctx, cfg, k, DiscreteMicrogridEnv)
    env = mix.mg
    n = int(env.action_space.n)
    ctx.check(n == len(env.actions_list), 'one action per list')
    for t in range(k):
        a = ctx.const_int(f'action{t}', 0, n - 1)
        plist = env.actions_list[a]
        _, _, _, info = ctx.must_not_raise('the action is feasible', env.step, a)
        follow(ctx, model, plist, info, t)


@harness('C16', 'genset_two_steps', quick=[{'spec': ['load', 'pv', 'genset'], 'times': True}],
         thorough=[{'spec': ['load', 'pv', 'battery', 'genset'], 'times': True}],
         bounds='two steps (the first with a load of 10), so that status changes are in progress, start-up and wind-down times 0 and 1')
def genset_two(ctx, cfg):
    from pymgrid.envs import DiscreteMicrogridEnv
    mix, model = build(ctx, cfg, 2, DiscreteMicrogridEnv)
    env = mix.mg
    ctx.assume(ctx.and_(mix.loads[0][0] == 10.0, mix.pvs[0][0] == 0.0))
    for t in range(2):
        a = ctx.const_int(f'action{t}', 0, len(env.actions_list) - 1)
        plist = env.actions_list[a]
        _, _, _, info = ctx.must_not_raise('the action is feasible', env.step, a)
        follow(ctx, model, plist, info, t)


@harness('C16', 'rule_based', quick=[{'spec': ['load', 'pv', 'battery', 'grid']}, {'spec': ['load', 'pv', 'genset']}, {'spec': ['load', 'grid', 'genset']}],
         thorough=[{'spec': ['load', 'pv', 'battery', 'grid', 'genset']}, {'spec': ['load', 'battery', 'genset']}],
         bounds='one step of rule-based control with the default list and with any valid list; any parameters, series, prices, charge and status; the default list is ordered by marginal cost; the microgrid given is not modified')
def rule_based(ctx, cfg):
    from pymgrid.algos import RuleBasedControl
    mix, model = build(ctx, cfg, 1)
    lists = RuleBasedControl(mix.mg).get_priority_lists(remove_redundant_gensets=True)
    a = ctx.const_int('list', -1, len(lists) - 1)
    rbc = ctx.must_not_raise('a valid list is accepted', RuleBasedControl, mix.mg, *([] if a < 0 else [lists[a]]))
    plist = list(rbc.priority_list)
    if a >= 0:
        ctx.check([(tuple(e.module), e.action) for e in plist] == [(tuple(e.module), e.action) for e in lists[a]], 'the given list is used')
    else:
        cost = {'battery': 0.0}
        for i, (p, rows) in enumerate(mix.grids):
            cost['grid'] = rows[0][0]
        for i, p in enumerate(mix.gens):
            cost['genset'] = p['genset_cost']
        for x, y in zip(plist, plist[1:]):
            ctx.le(cost[x.module[0]], cost[y.module[0]], 'default list sorted by marginal cost')
        ctx.check(sorted(tuple(e.module) for e in plist) == sorted((n, i) for n, l in mix.mg.controllable.iterdict() for i in range(len(l))), 'every controllable module once')
    frame = ctx.must_not_raise('rule-based control', rbc.run, max_steps=1)
    info = {}
    names = {'battery': ('discharge_amount', 'charge_amount'), 'grid': ('grid_import', 'grid_export'), 'genset': ('genset_production', None), 'balancing': ('loss_load', 'overgeneration')}
    ctx.check(len(frame) == 1, 'one row per step')
    for name in sorted({e.module[0] for e in plist} | {'balancing'}):
        p, c = names[name]
        info[name] = []
        for i in range(len(mix.mg.modules[name])):
            d = {'provided_energy': frame[(name, i, p)].tolist()[0]}
            if c:
                d['absorbed_energy'] = frame[(name, i, c)].tolist()[0]
            info[name].append(d)
    follow(ctx, model, plist, info, 0)
    ctx.check(all(int(m.current_step) == 0 and len(m.logger) == 0 for m in mix.mg.modules.to_list()), 'the microgrid given is not modified')
    for i, (p, c) in enumerate(mix.bats):
        ctx.close(mix.mg.modules.battery[i].current_charge, c, 'the microgrid given keeps its charge')
    ctx.check(rbc.microgrid is not mix.mg, 'works on its own microgrid')


@harness('C16', 'episode', quick=[{}], bounds='rule-based control of a load, a renewable and a battery of fixed parameters runs until the end of a three-step episode or max_steps, and again after that, with the same result; any series')
def episode(ctx, cfg):
    from pymgrid.algos import RuleBasedControl
    mix = common.Mix(ctx, ['load', 'pv'], 3, free=2)
    rbc = RuleBasedControl(mix.mg)
    ms = ctx.const_int('max_steps', 0, 4)
    frame = ctx.must_not_raise('run', rbc.run, max_steps=ms if ms else None)
    n = min(ms or 3, 3)
    ctx.check(list(frame.index) == list(range(n)), 'one row per step up to the limit or the end of the episode', f'{list(frame.index)} {n}')
    again = ctx.must_not_raise('run again', rbc.run, max_steps=ms if ms else None)
    ctx.check(list(again.index) == list(frame.index), 'the same number of steps again')
    for c in frame.columns:
        for x, y in zip(frame[c].tolist(), again[c].tolist()):
            ctx.close(y, x, 'the same result again')
    for t in range(n):
        ctx.close(frame[('load', 0, 'load_met')].tolist()[t], mix.loads[0][t], 'starts at the beginning of the episode')


def fixed(kind, i, mn):
    from pymgrid.modules import BatteryModule, GensetModule, GridModule
    import numpy as np
    if kind == 'battery':
        return BatteryModule(0.0, 100.0, 20.0, 30.0, 0.5, init_soc=0.5)
    if kind == 'grid':
        return GridModule(50.0, 40.0, np.array([[1.0 + i, 0.5, 0.0]] * 3))
    return GensetModule(mn, 60.0, 2.0)


@harness('C16', 'lists', quick=[{'spec': s} for s in (['battery'], ['genset'], ['battery', 'genset'], ['battery', 'grid', 'genset'], ['genset', 'genset'], ['battery', 'battery', 'grid'])],
         thorough=[{'spec': ['battery', 'grid', 'genset', 'genset']}],
         bounds='gensets with any minimum production; every order of the modules with every genset choice exactly once, without the off choice of gensets that may idle when that is asked for')
def lists(ctx, cfg):
    from pymgrid import Microgrid
    from pymgrid.algos import RuleBasedControl
    from pymgrid.envs import DiscreteMicrogridEnv
    from pymgrid.modules import LoadModule
    import numpy as np
    mods, minp, seen = [], {}, {}
    for kind in cfg['spec']:
        i = seen.get(kind, 0)
        seen[kind] = i + 1
        mn = 0.0
        if kind == 'genset':
            mn = ctx.real(f'min{i}', 0, 50)
            minp[(kind, i)] = mn
        mods.append((kind, fixed(kind, i, mn)))
    mods.append(('load', LoadModule(np.array([1.0, 2.0, 3.0]))))
    for remove in (True, False):
        want = set()
        ids = [(k, i) for k in seen for i in range(seen[k])]
        for order in itertools.permutations(ids):
            choices = [[0] if x[0] != 'genset' else [1] if remove and minp[x] == 0 else [0, 1] for x in order]
            for ch in itertools.product(*choices):
                want.add(tuple(zip(order, ch)))
        for got in (RuleBasedControl(Microgrid(mods), remove_redundant_gensets=remove).get_priority_lists(remove),
                    DiscreteMicrogridEnv(mods, remove_redundant_gensets=remove).actions_list):
            g = [tuple((tuple(e.module), int(e.action)) for e in pl) for pl in got]
            ctx.check(len(g) == len(set(g)), 'every list once')
            ctx.check(set(g) == want, 'every order with every genset choice', f'{len(g)} {len(want)}')
            ctx.check(all(int(e.module_actions) == (2 if e.module[0] == 'genset' else 1) for pl in got for e in pl), 'number of action classes')


@harness('C16', 'invalid', quick=[{}], bounds='action numbers outside the action space, priority lists that are not in the list of lists; removing an action removes exactly that list')
def invalid(ctx, cfg):
    from pymgrid import Microgrid
    from pymgrid.algos import RuleBasedControl
    from pymgrid.envs import DiscreteMicrogridEnv
    from pymgrid.modules import LoadModule
    import numpy as np
    mods = [('battery', fixed('battery', 0, 0)), ('grid', fixed('grid', 0, 0)), ('genset', fixed('genset', 0, 5.0)), ('load', LoadModule(np.array([1.0, 2.0, 3.0])))]
    env = DiscreteMicrogridEnv(mods)
    n = int(env.action_space.n)
    a = ctx.const_int('action', -2, n + 1)
    _, e = ctx.raises(env.step, a)
    ctx.check((e is None) == (0 <= a < n), 'exactly the numbers of the action space are accepted', f'{a} {e!r}')
    if e is not None:
        ctx.check(isinstance(e, ValueError) and int(env.current_step) == 0, 'rejected without a step', repr(e))
    env = DiscreteMicrogridEnv(mods)
    before = list(env.actions_list)
    _, e = ctx.raises(env.remove_action, a)
    if 0 <= a < n:
        ctx.check(e is None and list(env.actions_list) == before[:a] + before[a + 1:] and int(env.action_space.n) == n - 1, 'removes exactly that action', repr(e))
    else:
        ctx.check(isinstance(e, ValueError) and list(env.actions_list) == before, 'removing an unknown action is an error', repr(e))
    pl = before[0]
    for bad in (pl[:-1], pl + pl[:1], list(reversed(pl))[:1], []):
        _, e = ctx.raises(RuleBasedControl, Microgrid(mods), bad)
        ctx.check(isinstance(e, ValueError), 'invalid list rejected', repr(e))
