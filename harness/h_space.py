"""C11 normalisation, C12 time."""
from copy import deepcopy
from symx.registry import harness
from . import common


def build(ctx, kind, T=2, **kw):
    """module, documented action bounds (lists) and observation bounds (lists)."""
    if kind == 'battery':
        m, p, c = common.battery(ctx, cost=False)
        act = [-p['max_charge'] / p['efficiency']], [p['max_discharge'] * p['efficiency']]
        obs = [p['min_capacity'] / p['max_capacity'], p['min_capacity']], [1.0, p['max_capacity']]
    elif kind == 'grid':
        m, p, rows = common.grid(ctx, T, **kw)
        act = [-p['max_export']], [p['max_import']]
        n = 1 + kw.get('forecast_horizon', 0)
        obs = [ctx.min(*[r[j] for r in rows]) for j in range(4)] * n, [ctx.max(*[r[j] for r in rows]) for j in range(4)] * n
    elif kind == 'genset':
        m, p = common.genset(ctx, co2=False, start_up_time=2, wind_down_time=1)
        act = [0.0, 0.0], [1.0, p['running_max_production']]
        obs = [0.0] * 4, [1.0, 1.0, 2.0, 1.0]
    elif kind == 'renewable':
        m, s = common.renewable(ctx, T, **kw)
        act = [0.0], [ctx.max(*s)]
        n = 1 + kw.get('forecast_horizon', 0)
        obs = [0.0] * n, [ctx.max(*s)] * n
    elif kind == 'load':
        m, s = common.load(ctx, T, **kw)
        act = [], []
        n = 1 + kw.get('forecast_horizon', 0)
        obs = [-ctx.max(*s)] * n, [0.0] * n
    return m, act, obs


def as_list(x):
    try:
        return list(x)
    except TypeError:
        return [x]


@harness('C11', 'actions', quick=[{'kind': k} for k in ('battery', 'grid', 'genset', 'renewable')],
         bounds='any parameters, any normalised value(s) in [0,1]; any value in the bounds; zero-width ranges map their only value to 0 and back')
def actions(ctx, cfg):
    m, (lo, hi), _ = build(ctx, cfg['kind'])
    n = len(lo)
    mn, mx = as_list(m.min_act), as_list(m.max_act)
    ctx.check(len(mn) == n and len(mx) == n, 'action dimension')
    ctx.closes(zip(mn, lo), 'action lower bound')
    ctx.closes(zip(mx, hi), 'action upper bound')
    x = [ctx.real(f'x{i}', 0, 1) for i in range(n)]
    arg = x[0] if n == 1 else ctx.array(x)
    v = as_list(m.from_normalized(arg, act=True))
    back = as_list(m.to_normalized(v[0] if n == 1 else ctx.array(v), act=True))
    frac = [ctx.real(f'f{i}', 0, 1) for i in range(n)]
    w = [a + f * (b - a) for a, b, f in zip(lo, hi, frac)]
    nw = as_list(m.to_normalized(w[0] if n == 1 else ctx.array(w), act=True))
    ends = [as_list(m.from_normalized(e if n == 1 else ctx.array([e] * n), act=True)) for e in (0.0, 1.0)]
    for i in range(n):
        if ctx.gt_(hi[i], lo[i]):
            ctx.close(v[i], lo[i] + x[i] * (hi[i] - lo[i]), 'denormalised action')
            ctx.close(ends[1][i], hi[i], 'one is the upper bound')
            ctx.close(nw[i] * (hi[i] - lo[i]), w[i] - lo[i], 'normalised action')
        elif ctx.eq_(hi[i], lo[i]):
            ctx.close(nw[i], 0.0, 'normalised value of an empty range')
        ctx.close(back[i], x[i], 'normalising is the inverse of denormalising')
        ctx.close(ends[0][i], lo[i], 'zero is the lower bound')


@harness('C11', 'observations', quick=[{'kind': k} for k in ('battery', 'grid', 'genset', 'renewable', 'load')] + [{'kind': 'renewable', 'h': 2}, {'kind': 'grid', 'h': 1}],
         thorough=[{'kind': 'load', 'h': 2, 'T': 3}],
         bounds='any parameters and 2-row series, any request: observations of reset and step are the normalised state, in [0,1]; oracle horizons 0..2')
def observations(ctx, cfg):
    kind, h, T = cfg['kind'], cfg.get('h', 0), cfg.get('T', 2)
    kw = dict(forecaster='oracle', forecast_horizon=h) if h else {}
    m, _, (lo, hi) = build(ctx, kind, T, **kw)
    ctx.check(len(as_list(m.min_obs)) == len(lo), 'observation dimension')
    ctx.closes(zip(m.min_obs, lo), 'observation lower bound')
    ctx.closes(zip(m.max_obs, hi), 'observation upper bound')
    obs = m.reset()
    check_obs(ctx, m, obs, lo, hi, 'reset')
    if kind == 'genset':
        a = ctx.array([float(ctx.const_int('goal', 0, 1)), ctx.real('request', 0, 2000000)])
    elif kind == 'load':
        a = 0.0
    else:
        a = ctx.real('request', -2000000 if m.is_sink else 0, 2000000)
    obs = m.step(a, normalized=False)[0]
    check_obs(ctx, m, obs, lo, hi, 'step')


def check_obs(ctx, m, obs, lo, hi, when):
    obs, state = as_list(obs), as_list(m.state)
    sd, nsd = m.state_dict(), m.state_dict(normalized=True)
    ctx.check(len(obs) == len(state) == len(lo) and list(sd) == list(nsd), f'dimensions after {when}')
    back = as_list(m.from_normalized(ctx.array(obs) if len(obs) > 1 else obs[0], obs=True))
    for i, k in enumerate(sd):
        ctx.close(sd[k], state[i], f'state vector after {when}')
        ctx.close(nsd[k], obs[i], f'normalised state dict after {when}')
        ctx.within(0.0, obs[i], 1.0, f'observation in [0,1] after {when}')
        ctx.close(obs[i] * (hi[i] - lo[i]), state[i] - lo[i], f'observation is the normalised state after {when}')
        ctx.close(back[i], state[i], f'denormalised observation after {when}')


@harness('C11', 'equivalent', quick=[{'spec': s} for s in (['load', 'grid'], ['load', 'genset'], ['clock', 'battery'], ['clock', 'grid', 'grid'])],
         thorough=[{'spec': ['clock', 'battery', 'battery']}, {'spec': ['load', 'pv', 'battery']}],
         bounds='any state, any normalised control: same step as its denormalised control, converted by hand or by the microgrid')
def equivalent(ctx, cfg):
    mix = common.Mix(ctx, cfg['spec'], 2, co2=False, cost=False, status=False)
    nondegenerate(ctx, mix)
    other = deepcopy(mix.mg)
    control = mix.control(0, lo=0, hi=1)
    ref = {}
    for i, (p, _) in enumerate(mix.bats):
        ref.setdefault('battery', []).append(control['battery'][i] * (p['max_discharge'] * p['efficiency'] + p['max_charge'] / p['efficiency']) - p['max_charge'] / p['efficiency'])
    for i, (p, _) in enumerate(mix.grids):
        ref.setdefault('grid', []).append(control['grid'][i] * (p['max_import'] + p['max_export']) - p['max_export'])
    for i, p in enumerate(mix.gens):
        a = list(control['genset'][i])
        ref.setdefault('genset', []).append(ctx.array([a[0], a[1] * p['running_max_production']]))
    conv = mix.mg.from_normalized(control, act=True)
    for name, lst in ref.items():
        ctx.check(len(conv[name]) == len(lst), 'converted control has all modules')
        for a, b in zip(conv[name], lst):
            ctx.closes(zip(as_list(a), as_list(b)), 'denormalised control')
    back = mix.mg.to_normalized(conv, act=True)
    for name, lst in control.items():
        for a, b in zip(back[name], lst):
            ctx.closes(zip(as_list(a), as_list(b)), 'normalised again')
    o1, r1, d1, i1 = mix.mg.run(control, normalized=True)
    o2, r2, d2, i2 = other.run(ref, normalized=False)
    if not ctx.symbolic:
        pass
    ctx.close(r1, r2, 'same reward')
    for name in i1:
        for a, b in zip(i1[name], i2[name]):
            for k in ('provided_energy', 'absorbed_energy'):
                ctx.close(a.get(k, 0.0), b.get(k, 0.0), f'same {k} of {name}')
        for a, b in zip(o1[name], o2[name]):
            ctx.closes(zip(as_list(a), as_list(b)), 'same observation')


def nondegenerate(ctx, mix):
    for p, _ in mix.grids:
        ctx.assume(p['max_import'] + p['max_export'] > 0)
    for p in mix.gens:
        ctx.assume(p['running_max_production'] > 0)
    for p, _ in mix.bats:
        ctx.assume(p['max_charge'] + p['max_discharge'] > 0)


@harness('C11', 'microgrid_space', quick=[{'spec': ['load', 'pv', 'battery']}, {'spec': ['load', 'grid']}, {'spec': ['clock', 'genset', 'genset']}],
         bounds='any parameters and state: nested conversion of states and controls by the microgrid and by its spaces agree and are inverse')
def microgrid_space(ctx, cfg):
    mix = common.Mix(ctx, cfg['spec'], 2, co2=False, cost=False, status=False)
    mg = mix.mg
    state = {n: [m.state for m in ms] for n, ms in mg.modules.iterdict()}
    a = mg.to_normalized(state, obs=True)
    sp = mg.microgrid_observation_space
    b = sp.normalize(state)
    nsd = mg.state_dict(normalized=True)
    back, back2 = mg.from_normalized(a, obs=True), sp.denormalize(b)
    for n, ms in mg.modules.iterdict():
        ctx.check(len(a[n]) == len(ms) and len(b[n]) == len(ms), 'all modules converted')
        for i, m in enumerate(ms):
            want = as_list(m.to_normalized(m.state, obs=True))
            if len(as_list(m.state)) == 0:
                continue
            for got in (as_list(a[n][i]), as_list(b[n][i]), list(nsd[n][i].values())):
                ctx.check(len(got) == len(want), 'dimension')
                ctx.closes(zip(got, want), f'normalised state of {n}')
            for got in (as_list(back[n][i]), as_list(back2[n][i])):
                ctx.closes(zip(got, list(m.state)), f'denormalised state of {n}')
    control = mix.control(0, lo=0, hi=1)
    act = mg.microgrid_action_space
    if control:
        x = act.denormalize({n: [ctx.array(as_list(v)) for v in lst] for n, lst in control.items()})
        y = mg.from_normalized(control, act=True)
        z = act.normalize(x)
        for n, lst in control.items():
            for i in range(len(lst)):
                ctx.closes(zip(as_list(x[n][i]), as_list(y[n][i])), f'denormalised control of {n}')
                ctx.closes(zip(as_list(z[n][i]), as_list(lst[i])), f'normalised control of {n}')


@harness('C11', 'space', quick=[{'n': 1}, {'n': 2}], bounds='a module space with any bounds: affine and inverse; scalars and vectors')
def space(ctx, cfg):
    from pymgrid.utils.space import ModuleSpace
    n = cfg['n']
    lo = [ctx.real(f'lo{i}', -100, 100) for i in range(n)]
    hi = [ctx.real(f'hi{i}', -100, 100) for i in range(n)]
    for a, b in zip(lo, hi):
        ctx.assume(a <= b)
    sp = ModuleSpace(unnormalized_low=ctx.array(lo), unnormalized_high=ctx.array(hi))
    x = [ctx.real(f'x{i}', 0, 1) for i in range(n)]
    v = as_list(sp.denormalize(ctx.array(x)))
    back = as_list(sp.normalize(ctx.array(v)))
    for i in range(n):
        ctx.close(back[i], x[i], 'inverse')
        if ctx.gt_(hi[i], lo[i]):
            ctx.close(v[i], lo[i] + x[i] * (hi[i] - lo[i]), 'affine')


# ------------------------------------------------------------------------ C12

def all_steps(mg):
    return [m.current_step for m in mg.modules.to_list()]


def check_values(ctx, mix, t):
    sd = mix.mg.state_dict()
    for i, s in enumerate(mix.loads):
        ctx.close(sd['load'][i]['load_current'], -s[t], f'load shown')
    for i, s in enumerate(mix.pvs):
        ctx.close(sd['pv'][i]['renewable_current'], s[t], 'renewable shown')
    for i, (p, rows) in enumerate(mix.grids):
        for j, k in enumerate(('import_price', 'export_price', 'co2_per_kwh')):
            ctx.close(sd['grid'][i][f'{k}_current'], rows[t][j], f'{k} shown')


def episode(ctx, mix, first, last, steps, zero):
    """Run `steps` steps of the episode [first, last)."""
    mg = mix.mg
    for t in range(first, first + steps):
        ctx.check(mg.current_step == t and all(x == t for x in all_steps(mg)), 'all modules at the same step', str(all_steps(mg)))
        check_values(ctx, mix, t)
        _, _, done, info = ctx.must_not_raise('step', mg.run, zero, normalized=False)
        ctx.check(bool(done) == (t >= last - 1), 'done exactly at the last step of the episode', f'step {t} of [{first},{last}) done {done}')
        for i, s in enumerate(mix.loads):
            ctx.close(info['load'][i]['absorbed_energy'], s[t], 'load of the step')
    ctx.check(all(x == first + steps for x in all_steps(mg)), 'each module advanced once per step')
    if first + steps < mix.T:
        check_values(ctx, mix, first + steps)


SPEC12 = ['load', 'pv', 'battery', 'grid', 'genset']


def zero_control(ctx, mix, quiet=True):
    c = {}
    if quiet:       # time does not depend on the energies: keep one dispatch order
        for s in mix.loads:
            for t, x in enumerate(s):
                ctx.assume(x > 0)
                for r in mix.pvs:
                    ctx.assume(r[t] > x)
    if mix.bats or mix.cells: c['battery'] = [0.0] * (len(mix.bats) + mix.cells)
    if mix.grids: c['grid'] = [0.0] * len(mix.grids)
    if mix.gens: c['genset'] = [ctx.array([0.0, 0.0]) for _ in mix.gens]
    return c


@harness('C12', 'final_step', quick=[{'spec': ['load', 'pv']}, {'spec': ['load', 'grid']}, {'spec': ['load', 'cell', 'genset']}], thorough=[{'spec': SPEC12}],
         bounds='any series of 4 steps, any final step 1..4 or default, steps to the end, reset and again')
def final_step(ctx, cfg):
    T = 4
    f = ctx.const_int('final_step', 0, T)
    mix = common.Mix(ctx, cfg['spec'], T, co2=False, cost=False, status=False, ts_kw=dict(final_step=f) if f else {})
    last = f or T
    zero = zero_control(ctx, mix, quiet=len(cfg['spec']) > 2)
    if mix.gens:
        ctx.assume(mix.gens[0]['running_min_production'] == 0)
    ctx.check(mix.mg.final_step == last and mix.mg.initial_step == 0, 'episode bounds reported')
    episode(ctx, mix, 0, last, last, zero)
    mix.mg.reset()
    episode(ctx, mix, 0, last, min(2, last), zero)


@harness('C12', 'set_bounds', quick=[{'spec': ['load', 'pv']}, {'spec': ['load', 'cell', 'grid']}],
         bounds='any series of 5 steps; initial and final step set on the microgrid to any 0 <= a < b <= 5, then reset')
def set_bounds(ctx, cfg):
    T = 5
    mix = common.Mix(ctx, cfg['spec'], T, co2=False, cost=False, status=False)
    zero = zero_control(ctx, mix)
    b = ctx.const_int('final', 1, T)
    a = ctx.const_int('initial', 0, T - 1)
    ctx.assume(a < b)
    mix.mg.run(zero, normalized=False)
    mix.mg.final_step = b
    mix.mg.initial_step = a
    ctx.check(mix.mg.final_step == b and mix.mg.initial_step == a, 'episode bounds reported')
    mix.mg.reset()
    episode(ctx, mix, a, b, b - a, zero)
    mix.mg.reset()
    ctx.check(all(x == a for x in all_steps(mix.mg)), 'reset to the initial step')
    check_values(ctx, mix, a)


@harness('C12', 'trajectory', quick=[{'spec': ['load', 'pv']}, {'spec': ['load', 'cell', 'grid']}],
         bounds='any series of 4 steps; three resets with any valid bounds a<b each, stepping to the end of each episode; bounds of the microgrid itself stay')
def trajectory(ctx, cfg):
    T = 4
    bounds = []
    for j in range(2):
        a, b = ctx.const_int(f'a{j}', 0, T - 1), ctx.const_int(f'b{j}', 1, T)
        ctx.assume(a < b)
        bounds.append((a, b))
    it = [(0, T)] + bounds
    seen = []

    def traj(lo, hi):
        seen.append((lo, hi))
        return it[len(seen) - 1] if len(seen) <= len(it) else it[-1]
    mix = common.Mix(ctx, cfg['spec'], T, co2=False, cost=False, status=False, traj=traj)
    zero = zero_control(ctx, mix)
    for a, b in bounds:
        ctx.must_not_raise('reset', mix.mg.reset)
        ctx.check(mix.mg.initial_step == 0 and mix.mg.final_step == T, 'the microgrid keeps its own bounds')
        episode(ctx, mix, a, b, b - a, zero)
    ctx.check(all(x == (0, T) for x in seen), 'the trajectory function gets the bounds of the microgrid', str(seen))


@harness('C12', 'trajectory_validation', quick=[{}], bounds='a trajectory function returning any integers in -2..6 for a 4-step microgrid is accepted exactly if the bounds are valid')
def trajectory_validation(ctx, cfg):
    T = 4
    a, b = ctx.const_int('a', -2, 6), ctx.const_int('b', -2, 6)
    from pymgrid import Microgrid
    l, _ = common.load(ctx, T)
    valid = 0 <= a < b <= T
    _, e = ctx.raises(Microgrid, [l], trajectory_func=lambda lo, hi: (a, b))
    ctx.check((e is None) == valid, 'only valid bounds accepted', f'{(a, b)} {e!r}')
    ctx.check(e is None or isinstance(e, ValueError), 'rejected with a ValueError')


@harness('C12', 'trajectory_types', quick=[{'what': w} for w in ('float', 'three', 'none', 'notcallable')], bounds='results that are not two integers are rejected')
def trajectory_types(ctx, cfg):
    from pymgrid import Microgrid
    l, _ = common.load(ctx, 3)
    x = ctx.const_int('x', 0, 1)
    f = dict(float=lambda a, b: (0.5 + x, 2), three=lambda a, b: (x, 2, 3), none=lambda a, b: None, notcallable=(x, 2))[cfg['what']]
    _, e = ctx.raises(Microgrid, [l], trajectory_func=f)
    ctx.check(isinstance(e, TypeError), 'rejected with a TypeError', repr(e))


@harness('C12', 'module', quick=[{'kind': k} for k in ('load', 'renewable', 'grid')], bounds='one module, any 4-step series, any initial < final step within it, the final step also -1 or left out')
def module(ctx, cfg):
    T = 4
    a, b = ctx.const_int('initial', 0, T - 1), ctx.const_int('final', 1, T + 2)
    ctx.assume(a < b)
    kw = dict(initial_step=a) if a else {}
    if b <= T + 1:          # T + 1 stands for -1, T + 2 for leaving it out: both the end of the series
        kw['final_step'] = b if b <= T else -1
    b = min(b, T)
    ctx.assume(a < b)
    if cfg['kind'] == 'load':
        m, s = common.load(ctx, T, **kw)
        vals = [[-x] for x in s]
    elif cfg['kind'] == 'renewable':
        m, s = common.renewable(ctx, T, **kw)
        vals = [[x] for x in s]
    else:
        m, p, rows = common.grid(ctx, T, status=False, **kw)
        vals = [r + [1.0] for r in rows]
    for _ in range(2):
        for t in range(a, b):
            ctx.check(m.current_step == t, 'step counter')
            ctx.closes(zip(m.state, vals[t]), 'values of the step')
            _, _, done, _ = m.step(0.0, normalized=False)
            ctx.check(bool(done) == (t == b - 1), 'done exactly at the last step')
        m.reset()
    ctx.check(m.current_step == a, 'reset to the initial step')
