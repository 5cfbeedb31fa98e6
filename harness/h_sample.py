"""C21 sampled actions."""
from symx.registry import harness
from . import common
from .h_priority import net


def draws(ctx):
    """Every random number the code draws becomes an input."""
    ctx.use_random()


@harness('C21', 'module', quick=[{'kind': k, 'strict': s} for k in ('battery', 'grid', 'pv') for s in (False, True)],
         bounds='any parameters and state, any draw: in [0, 1]; with strict bounds the energy asked for is provided or absorbed in full')
def module(ctx, cfg):
    draws(ctx)
    if cfg['kind'] == 'battery':
        m, p, c = common.battery(ctx)
    elif cfg['kind'] == 'grid':
        m, p, rows = common.grid(ctx, 2, free=1)
    else:
        m, s = common.renewable(ctx, 2, free=1)
    a = ctx.must_not_raise('sampling', m.sample_action, strict_bound=cfg['strict'])
    ctx.within(0.0, a, 1.0, 'sample in the normalised action space')
    if not cfg['strict']:
        return
    want = m.from_normalized(a, act=True)
    _, _, _, info = ctx.must_not_raise('step', m.step, a)
    ctx.close(net(info), want, 'a strict sample is executed without clipping')


@harness('C21', 'genset', quick=[{'k': k, 'strict': s} for k in (0, 2) for s in (False, True)], thorough=[{'k': 3, 'strict': True}],
         bounds='any limits, start-up and wind-down times 0..2, both statuses, after k steps with any goals, any draw')
def genset(ctx, cfg):
    draws(ctx)
    su, wd, on = ctx.const_int('start_up', 0, 2), ctx.const_int('wind_down', 0, 2), ctx.const_int('on', 0, 1)
    g, p = common.genset(ctx, co2=False, start_up_time=su, wind_down_time=wd, init_start_up=bool(on))
    ctx.assume(p['running_max_production'] > 0)
    for t in range(cfg['k']):
        g.step(ctx.array([float(ctx.const_int(f'goal{t}', 0, 1)), 0.0]), normalized=False)
    a = ctx.must_not_raise('sampling', g.sample_action, strict_bound=cfg['strict'])
    ctx.check(len(a) == 2, 'status and energy')
    ctx.within(0.0, a[0], 1.0, 'status sample')
    ctx.within(0.0, a[1], 1.0, 'energy sample')
    if not cfg['strict']:
        return
    _, _, _, info = ctx.must_not_raise('step', g.step, a)
    ctx.close(net(info), a[1] * p['running_max_production'], 'a strict sample is executed without clipping')


@harness('C21', 'microgrid', quick=[{'spec': s, 'strict': t} for s in (['load', 'pv', 'battery', 'battery'], ['load', 'grid', 'genset'], ['load', 'pv']) for t in (True, False)],
         bounds='a microgrid with any states: the sampled action addresses exactly the controllable modules, one action each and, if strict, runs without error and unclipped')
def microgrid(ctx, cfg):
    draws(ctx)
    gk = dict(start_up_time=ctx.const_int('su', 0, 1), wind_down_time=ctx.const_int('wd', 0, 1), init_start_up=bool(ctx.const_int('on', 0, 1))) if 'genset' in cfg['spec'] else {}
    mix = common.Mix(ctx, cfg['spec'], 2, free=1, genset_kw=gk, co2=False, cost=False)
    for p in mix.gens:
        ctx.assume(p['running_max_production'] > 0)
    mg = mix.mg
    a = ctx.must_not_raise('sampling', mg.sample_action, strict_bound=cfg['strict'])
    want = {n: len(l) for n, l in (('battery', mix.bats), ('grid', mix.grids), ('genset', mix.gens)) if l}
    ctx.check({k: len(v) for k, v in a.items()} == want, 'one action per controllable module', f'{a}')
    empty = mg.get_empty_action()
    ctx.check({k: list(v) for k, v in empty.items()} == {k: [None] * n for k, n in want.items()}, 'the empty action has the same form', f'{empty}')
    asked = {}
    for name, lst in a.items():
        for i, x in enumerate(lst):
            if name == 'genset':
                ctx.within(0.0, x[0], 1.0, 'status sample')
                x = x[1]
                asked[(name, i)] = x * mix.gens[i]['running_max_production']
            else:
                asked[(name, i)] = mg.modules[name][i].from_normalized(x, act=True)
            ctx.within(0.0, x, 1.0, 'energy sample')
    if cfg['strict']:
        _, _, _, info = ctx.must_not_raise('the sample runs', mg.run, a)
        for (name, i), x in asked.items():
            ctx.close(net(info[name][i]), x, f'{name}: a strict sample is executed without clipping')
