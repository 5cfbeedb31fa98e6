"""C22 reinforcement learning environments: observations, rewards and actions."""
import copy

import numpy as np

from symx.registry import harness
from . import common


def states(mg):
    """(module, number, {component: normalised value}) in module order."""
    out = []
    for name, lst in mg.modules.iterdict():
        for i, m in enumerate(lst):
            out.append((name, i, m.state_dict(normalized=True)))
    return out


def scalar(x):
    return x.item() if isinstance(x, np.ndarray) else x


def expected(mg, keys, flat):
    st = states(mg)
    if flat and keys:
        return [scalar(d[k]) for k in keys for _, _, d in st if k in d]
    if flat:
        return [scalar(v) for n in sorted({n for n, _, _ in st}) for m, _, d in st if m == n for v in d.values()]
    nested = {}
    for n, i, d in st:
        v = [scalar(d[k]) for k in keys if k in d] if keys else [scalar(x) for x in d.values()]
        nested.setdefault(n, []).append(v)
    return {n: v for n, v in nested.items() if any(v)} if keys else nested


def observed(ctx, env, obs, mg, keys, flat, when):
    want = expected(mg, keys, flat)
    if flat:
        ctx.check(np.shape(obs) == tuple(env.observation_space.shape), f'{when}: shape of the observation space', f'{np.shape(obs)}')
        got = list(obs)
        ctx.check(len(got) == len(want), f'{when}: one entry per component', f'{len(got)} {len(want)}')
        for i, (a, b) in enumerate(zip(got, want)):
            ctx.close(a, b, f'{when}: component {i}')
            ctx.within(0.0, a, 1.0, f'{when}: component {i} inside the space')
        return
    space = env.observation_space.spaces
    ctx.check(sorted(obs) == sorted(want), f'{when}: the selected modules', f'{sorted(obs)}')
    ctx.check(sorted(space) == sorted(want), f'{when}: the space has the selected modules', f'{sorted(space)}')
    for n, vs in want.items():
        ctx.check(len(obs[n]) == len(vs) == len(space[n].spaces), f'{when}: one vector per module', f'{obs[n]}')
        for j, (o, w, s) in enumerate(zip(obs[n], vs, space[n].spaces)):
            ctx.check(np.shape(o) == tuple(s.shape), f'{when}: {n} has the shape of the space', f'{np.shape(o)} {s.shape}')
            ctx.check(len(o) == len(w), f'{when}: {n} has all components')
            for i, (a, b) in enumerate(zip(o, w)):
                ctx.close(a, b, f'{when}: {n} component {i}')
                ctx.within(0.0, a, 1.0, f'{when}: {n} component {i} inside the space')


def compare(ctx, got, ref, label):
    (_, r, d, info), (_, r2, d2, info2) = got, ref
    ctx.close(r, r2, f'{label}: reward of the microgrid')
    ctx.check(bool(d) == bool(d2), f'{label}: done of the microgrid')
    ctx.check(sorted(info) == sorted(info2), f'{label}: info of the microgrid')
    for n in info:
        for a, b in zip(info[n], info2[n]):
            ctx.check(set(a) == set(b), f'{label}: info of {n}')
            for f in a:
                ctx.close(a[f], b.get(f, float('nan')), f'{label}: {n} {f}')


def twin(env):
    from pymgrid import Microgrid
    return Microgrid(copy.deepcopy(env.modules.to_tuples()), add_unbalanced_module=False, reward_shaping_func=env.reward_shaping_func)


def control_of(info, plist):
    """The unnormalised control that a discrete action stood for, from the energies that moved."""
    c = {}
    for el in plist:
        n, i = el.module
        d = info[n][i]
        e = d.get('provided_energy', 0.0) - d.get('absorbed_energy', 0.0)
        c.setdefault(n, {})[i] = [el.action, e] if n == 'genset' else e
    return {n: [v[i] for i in sorted(v)] for n, v in c.items()}


FC = {'forecaster': 'oracle', 'forecast_horizon': 1}
GRID = ['export_price_current', 'import_price_current']
DISC = [
    {'spec': ['pv', 'load', 'battery'], 'flat': True, 'keys': None},
    {'spec': ['pv', 'load', 'battery'], 'flat': False, 'keys': None},
    {'spec': ['pv', 'load', 'grid'], 'flat': True, 'keys': ['load_current', 'renewable_current', 'grid_status_current']},
    {'spec': ['pv', 'load', 'grid'], 'flat': False, 'keys': ['load_current', 'grid_status_current', 'import_price_current']},
    {'spec': ['load', 'pv', 'genset'], 'flat': True, 'keys': ['goal_status', 'current_status', 'load_current'], 'genset_kw': {'start_up_time': 1, 'init_start_up': False}},
    {'spec': ['load', 'pv', 'genset'], 'flat': False, 'keys': ['goal_status', 'load_current', 'current_status'], 'genset_kw': {'start_up_time': 1, 'init_start_up': False}},
    {'spec': ['load', 'load', 'cell'], 'flat': True, 'keys': 'load_current', 'ts_kw': FC},
    {'spec': ['load', 'load', 'cell'], 'flat': False, 'keys': ['load_forecast_0', 'soc', 'load_current'], 'ts_kw': FC},
] + [{'spec': ['load', 'pv', 'cell'], 'flat': f, 'keys': k, 'last': True} for f in (True, False) for k in (None, ['load_current', 'soc'])]
DISC2 = [{'spec': ['pv', 'load', 'battery', 'genset'], 'flat': f, 'keys': k} for f in (True, False) for k in (None, ['soc', 'current_status', 'renewable_current'])] + [
    {'spec': ['pv', 'load', 'grid'], 'flat': f, 'keys': k} for f in (True, False) for k in (None, GRID, GRID[::-1])] + [
    {'spec': ['load', 'load', 'grid'], 'flat': True, 'keys': ['load_current'], 'k': 2}]


@harness('C22', 'discrete', quick=DISC, thorough=DISC2,
         bounds='discrete environment after reset and after one step (k steps, also the last of the episode and a reset after it) with any action; any parameters, series, charge; flat and nested, all components or the listed keys; compared with a plain microgrid of the same modules')
def discrete(ctx, cfg):
    from pymgrid.envs import DiscreteMicrogridEnv
    k = cfg.get('k', 1)
    keys = cfg['keys']
    mix = common.Mix(ctx, cfg['spec'], k + (not cfg.get('last')), free=None if cfg.get('last') else k, status=False, co2=False, cost=False, genset_kw=cfg.get('genset_kw'), ts_kw=cfg.get('ts_kw'),
                     cls=DiscreteMicrogridEnv, cls_kw={'flat_spaces': cfg['flat'], **({'observation_keys': keys} if keys else {})})
    env = mix.mg
    keys = [keys] if isinstance(keys, str) else keys
    obs = ctx.must_not_raise('reset', env.reset)
    ref = twin(env)
    observed(ctx, env, obs, ref, keys, cfg['flat'], 'reset')
    for t in range(k):
        a = ctx.const_int(f'action{t}', 0, int(env.action_space.n) - 1)
        got = ctx.must_not_raise('step', env.step, a)
        back = ref.run(control_of(got[3], env.actions_list[a]), normalized=False)
        compare(ctx, got, back, f'step {t}')
        observed(ctx, env, got[0], ref, keys, cfg['flat'], f'step {t}')
    if cfg.get('last'):
        ctx.check(bool(got[2]), 'the episode is done')
        obs = ctx.must_not_raise('reset', env.reset)
        ref.reset()
        observed(ctx, env, obs, ref, keys, cfg['flat'], 'reset after the end')


CONT = [
    {'spec': ['load', 'grid', 'battery'], 'flat': True, 'keys': None},
    {'spec': ['load', 'grid', 'battery'], 'flat': False, 'keys': ['load_current']},
    {'spec': ['load', 'genset', 'cell'], 'flat': True, 'keys': ['load_current', 'current_status']},
    {'spec': ['load', 'genset', 'cell'], 'flat': False, 'keys': None},
    {'spec': ['load', 'battery', 'cell'], 'flat': True, 'keys': ['soc']},
] + [{'spec': ['load', 'cell'], 'flat': f, 'keys': k, 'last': True} for f in (True, False) for k in (None, ['load_current', 'soc'])]
CONT2 = [{'spec': ['load', 'battery', 'battery'], 'flat': True, 'keys': ['soc']}] + [{'spec': ['load', 'pv', 'battery', 'genset'], 'flat': f, 'keys': None} for f in (True, False)] + [
    {'spec': ['load', 'grid', 'grid'], 'flat': True, 'keys': None}, {'spec': ['load', 'battery', 'grid'], 'flat': True, 'keys': ['soc'], 'k': 2}]


@harness('C22', 'continuous', quick=CONT, thorough=CONT2,
         bounds='continuous environment after reset and after one step (k steps, also the last of the episode and a reset after it) with any action of its action space; flat and nested; the effect is that of the normalised control in a plain microgrid of the same modules, flat actions being ordered by module name')
def continuous(ctx, cfg):
    from pymgrid.envs import ContinuousMicrogridEnv
    k = cfg.get('k', 1)
    mix = common.Mix(ctx, cfg['spec'], k + (not cfg.get('last')), free=None if cfg.get('last') else k, status=False, co2=False, cost=False, cls=ContinuousMicrogridEnv,
                     cls_kw={'flat_spaces': cfg['flat'], **({'observation_keys': cfg['keys']} if cfg['keys'] else {})})
    env = mix.mg
    obs = ctx.must_not_raise('reset', env.reset)
    ref = twin(env)
    observed(ctx, env, obs, ref, cfg['keys'], cfg['flat'], 'reset')
    n = {'battery': len(mix.bats) + mix.cells, 'genset': len(mix.gens), 'grid': len(mix.grids)}
    for t in range(k):
        nested, flat = {}, []
        for name in sorted(n):
            for i in range(n[name]):
                v = [ctx.real(f'{name}{i}_a{j}_{t}', 0, 1) for j in range(2 if name == 'genset' else 1)]
                flat += v
                nested.setdefault(name, []).append(ctx.array(v))
        if cfg['flat']:
            ctx.check(tuple(env.action_space.shape) == (len(flat),), 'shape of the action space', f'{env.action_space}')
        else:
            ctx.check(sorted(env.action_space.spaces) == sorted(nested), 'modules of the action space', f'{env.action_space}')
        got = ctx.must_not_raise('step', env.step, ctx.array(flat) if cfg['flat'] else copy.deepcopy(nested))
        back = ref.run(nested, normalized=True)
        compare(ctx, got, back, f'step {t}')
        observed(ctx, env, got[0], ref, cfg['keys'], cfg['flat'], f'step {t}')
    if cfg.get('last'):
        ctx.check(bool(got[2]), 'the episode is done')
        obs = ctx.must_not_raise('reset', env.reset)
        ref.reset()
        observed(ctx, env, obs, ref, cfg['keys'], cfg['flat'], 'reset after the end')


@harness('C22', 'wrapping', quick=[{'flat': True}, {'flat': False}],
         bounds='environments made from a microgrid and from a list of modules observe the same; unknown observation keys are refused')
def wrapping(ctx, cfg):
    from pymgrid.envs import DiscreteMicrogridEnv, ContinuousMicrogridEnv
    mix = common.Mix(ctx, ['load', 'pv', 'battery'], 2, free=1, co2=False, cost=False)
    for cls in (DiscreteMicrogridEnv, ContinuousMicrogridEnv):
        env = ctx.must_not_raise('from_microgrid', cls.from_microgrid, copy.deepcopy(mix.mg), flat_spaces=cfg['flat'])
        ctx.check(env.flat_spaces == cfg['flat'], 'form of the spaces')
        observed(ctx, env, env.reset(), mix.mg, None, cfg['flat'], cls.__name__)
        env = ctx.must_not_raise('from_microgrid', cls.from_microgrid, copy.deepcopy(mix.mg), flat_spaces=cfg['flat'], observation_keys=['renewable_current', 'load_current'])
        observed(ctx, env, env.reset(), mix.mg, ['renewable_current', 'load_current'], cfg['flat'], cls.__name__)
        _, exc = ctx.raises(cls.from_microgrid, copy.deepcopy(mix.mg), observation_keys=['load_current', 'no_such_key'])
        ctx.check(isinstance(exc, NameError), 'unknown keys are refused', f'{exc!r}')


FORE = [{'flat': f, 'keys': k, 'cls': c} for f in (True, False) for c, k in (('D', None), ('C', ['load_current', 'load_forecast_0']))]


@harness('C22', 'forecaster', quick=FORE, thorough=[{**c, 'back': True} for c in FORE if not c['keys']],
         bounds='a perfect forecaster of two steps set on an environment (back: and removed again): its observations after a reset and a step have the shape of its observation space, and the spaces of the microgrid are those of its modules')
def forecaster(ctx, cfg):
    from pymgrid.envs import DiscreteMicrogridEnv, ContinuousMicrogridEnv
    cls = DiscreteMicrogridEnv if cfg['cls'] == 'D' else ContinuousMicrogridEnv
    mix = common.Mix(ctx, ['load', 'pv', 'cell'], 3, free=2, co2=False, cost=False, cls=cls, cls_kw={'flat_spaces': cfg['flat']}, ts_kw={'forecaster': 'oracle', 'forecast_horizon': 1})
    env = mix.mg
    if cfg['keys']:
        env = cls.from_microgrid(mix.mg, flat_spaces=cfg['flat'], observation_keys=cfg['keys'])
    ctx.must_not_raise('set_forecaster', env.set_forecaster, 'oracle', forecast_horizon=2)
    if cfg.get('back'):
        ctx.must_not_raise('set_forecaster', env.set_forecaster, None)
    obs = ctx.must_not_raise('reset', env.reset)
    ref = twin(env)
    observed(ctx, env, obs, ref, cfg['keys'], cfg['flat'], 'reset')
    if cfg['cls'] == 'D':
        a = ctx.const_int('action', 0, int(env.action_space.n) - 1)
    else:
        a = ctx.real('action', 0, 1)
        a = ctx.array([a]) if cfg['flat'] else {'battery': [ctx.array([a])]}
    got = ctx.must_not_raise('step', env.step, a)
    ref.run(control_of(got[3], env.actions_list[a]) if cfg['cls'] == 'D' else {'battery': [got[3]['battery'][0].get('provided_energy', 0.0) - got[3]['battery'][0].get('absorbed_energy', 0.0)]}, normalized=False)
    observed(ctx, env, got[0], ref, cfg['keys'], cfg['flat'], 'step')
    spaces = env.microgrid_observation_space.normalized.spaces
    for name, lst in env.modules.iterdict():
        for i, m in enumerate(lst):
            ctx.check(tuple(spaces[name].spaces[i].shape) == tuple(m.observation_space.normalized.shape), f'space of {name} {i}', f'{spaces[name].spaces[i].shape}')


@harness('C22', 'removed', quick=[{'spec': ['load', 'cell', 'grid']}, {'spec': ['load', 'cell', 'genset']}],
         bounds='a discrete environment after the removal of any action: every remaining action number stands for the remaining priority lists in order, in one step from any state; numbers outside are refused')
def removed(ctx, cfg):
    from pymgrid.envs import DiscreteMicrogridEnv
    mix = common.Mix(ctx, cfg['spec'], 2, free=1, status=False, co2=False, cost=False, cls=DiscreteMicrogridEnv)
    env = mix.mg
    n, lists = int(env.action_space.n), list(env.actions_list)
    ctx.check(n == len(lists), 'one action per list')
    r = ctx.const_int('removed', 0, n - 1)
    ref = copy.deepcopy(env)
    for bad in (n, -1):
        _, exc = ctx.raises(env.remove_action, bad)
        ctx.check(isinstance(exc, ValueError) and len(env.actions_list) == n == int(env.action_space.n), 'actions outside the space are not removed', f'{exc!r}')
    ctx.must_not_raise('remove_action', env.remove_action, r)
    ctx.check(int(env.action_space.n) == n - 1, 'one action fewer')
    a = ctx.const_int('action', 0, n - 2)
    got = ctx.must_not_raise('step', env.step, a)
    compare(ctx, got, ref.step(a if a < r else a + 1), 'step')
    _, exc = ctx.raises(env.step, n - 1)
    ctx.check(isinstance(exc, ValueError), 'an action outside the space is refused', f'{exc!r}')
