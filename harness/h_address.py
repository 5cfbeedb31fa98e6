"""C18 controls reach the module they are addressed to; modules are grouped once each."""
import copy
import itertools

from symx.registry import harness
from . import common


def cell(i, cap=100.0):
    from pymgrid.modules import BatteryModule
    return BatteryModule(min_capacity=0.0, max_capacity=cap, max_charge=20.0 + i, max_discharge=10.0 + i, efficiency=0.5, init_soc=0.5)


def wire(ctx, i, T=3):
    from pymgrid.modules import GridModule
    return GridModule(max_import=50.0 + i, max_export=40.0 + i, time_series=ctx.array([[1.0 + i, 0.5, 0.0]] * T))


def gen(i):
    from pymgrid.modules import GensetModule
    return GensetModule(running_min_production=0.0, running_max_production=30.0 + i, genset_cost=1.0 + i)


def clock(ctx, T=3, v=0.0):
    from pymgrid.modules import LoadModule
    return LoadModule(time_series=ctx.array([v] * T))


def permuted(ctx, items, name):
    perms = list(itertools.permutations(items))
    return list(perms[ctx.const_int(name, 0, len(perms) - 1)])


def setup(ctx, what):
    if what == 'batteries':
        ms = [('clock', clock(ctx)), ('battery', cell(0)), ('battery', cell(1)), ('spare', cell(2))]
    elif what == 'triple':
        ms = [('clock', clock(ctx)), ('battery', cell(1)), ('battery', cell(2)), ('battery', cell(0))]
    elif what == 'many':        # two-digit positions
        ms = [('clock', clock(ctx))] + [('battery', cell(i)) for i in range(12)]
    elif what == 'grids':
        ms = [('clock', clock(ctx)), ('grid', wire(ctx, 0)), ('grid', wire(ctx, 1)), ('other', wire(ctx, 2))]
    elif what == 'gensets':
        ms = [('clock', clock(ctx)), ('genset', gen(0)), ('genset', gen(1)), ('battery', cell(0))]
    else:
        ms = [('grid', wire(ctx, 0)), ('battery', cell(0)), ('genset', gen(0)), ('clock', clock(ctx))]
    return ms


def request(ctx, m, tag, normalized, hi=None):
    from pymgrid.modules import BatteryModule, GensetModule, GridModule
    if isinstance(m, GensetModule):
        x = ctx.real(tag, 0, 1 if normalized else 30)
        return ctx.array([1.0, x]), (x * m.running_max_production if normalized else x)
    if normalized:
        x = ctx.real(tag, 0, 1)
        lo, hi = (-m.max_charge / m.efficiency, m.max_discharge * m.efficiency) if isinstance(m, BatteryModule) else (-m.max_export, m.max_import)
        return x, None
    lo, hi = (1.0, hi) if hi else (-20.0, 5.0) if isinstance(m, BatteryModule) else (-40.0, 50.0)
    x = ctx.real(tag, lo, hi)
    return x, x


def net(d):
    return d.get('provided_energy', 0.0) - d.get('absorbed_energy', 0.0)


@harness('C18', 'address', quick=[{'what': w} for w in ('many', 'batteries', 'triple', 'grids', 'gensets', 'one_each')] + [{'what': w, 'norm': True} for w in ('grids', 'one_each')],
         bounds='three controllable modules under one or two names (many: twelve batteries under one name), any order of the modules, the keys of the control in either order, any feasible requests, normalised or not: every module exchanges its own request')
def address(ctx, cfg):
    from pymgrid import Microgrid
    norm = bool(cfg.get('norm'))
    ms = setup(ctx, cfg['what'])
    ms = [x for x in ms if x[0] != 'clock'] if cfg['what'] == 'many' else permuted(ctx, [x for x in ms if x[0] != 'clock'], 'order')
    ms = ms + [('clock', clock(ctx))]
    mg = Microgrid(ms)
    names = {}
    for n, m in ms:
        if n != 'clock':
            names.setdefault(n, []).append(m)
    control, want = {}, {}
    for n in sorted(names):
        rs = [request(ctx, m, f'{n}{i}', norm, hi=5.0 if cfg['what'] == 'many' else None) for i, m in enumerate(names[n])]
        if norm:
            # what the module itself makes of the same normalised action
            want[n] = [net(copy.deepcopy(m).step(r[0], normalized=True)[3]) for m, r in zip(names[n], rs)]
        else:
            want[n] = [r[1] for r in rs]
        control[n] = [r[0] for r in rs]
    before = {k: list(v) for k, v in control.items()}
    obs, reward, done, info = mg.run(control, normalized=norm)
    for n in names:
        ctx.check(len(info[n]) == len(names[n]), 'every module took part once', f'{n}: {len(info[n])}')
        for i, d in enumerate(info[n][:len(want[n])]):
            ctx.close(net(d), want[n][i], f'{n}[{i}] exchanges what it was asked for')
            m = mg.modules[n][i]
            log = m.logger_last
            ctx.close(log.get(m.provided_energy_name, 0.0) - log.get(m.absorbed_energy_name, 0.0), want[n][i], f'the module at {n}[{i}] records what it was asked for')
            if hasattr(m, 'current_charge'):
                ctx.close(m.current_charge, names[n][i].current_charge - ctx.ite(want[n][i] > 0, want[n][i] / m.efficiency, want[n][i] * m.efficiency), f'charge of {n}[{i}]')
    ctx.check(list(control) == list(before) and all(len(control[k]) == len(before[k]) for k in before), 'control unchanged')
    for k in before:
        for x, y in zip(control[k], before[k]):
            ctx.check(x is y, 'control values unchanged')
    steps = [int(m.current_step) for m in mg.modules.to_list()]
    ctx.check(all(s == 1 for s in steps), 'every module advanced by one step', str(steps))
    # the modules given at construction are copies' originals: untouched
    for n, m in ms:
        ctx.check(int(m.current_step) == 0 and len(m.logger) == 0, 'modules given at construction untouched')
        if hasattr(m, 'current_charge'):
            ctx.close(m.current_charge, 50.0, 'charge of the module given at construction untouched')
    # and again, the other way round
    mg2 = Microgrid(ms)
    info2 = mg2.run({k: control[k] for k in reversed(list(control))}, normalized=norm)[3]
    for n in names:
        for d, e in zip(info[n], info2[n]):
            ctx.close(net(d), net(e), 'independent of the order of keys')


@harness('C18', 'scalar', quick=[{}], bounds='a single module under a name may be given its request without a list')
def scalar(ctx, cfg):
    from pymgrid import Microgrid
    x, y = ctx.real('x', -20, 5), ctx.real('y', -40, 50)
    mg = Microgrid([clock(ctx), cell(0), wire(ctx, 0)])
    info = mg.run({'grid': y, 'battery': x}, normalized=False)[3]
    ctx.close(net(info['battery'][0]), x, 'battery request')
    ctx.close(net(info['grid'][0]), y, 'grid request')


@harness('C18', 'missing', quick=[{'case': c} for c in ('none', 'one', 'short', 'unknown', 'extra')],
         bounds='controls without an entry for a controllable module, with too few entries, with unknown names; any requests')
def missing(ctx, cfg):
    from pymgrid import Microgrid
    case = cfg['case']
    mg = Microgrid([clock(ctx), ('battery', cell(0)), ('battery', cell(1)), wire(ctx, 0)])
    x, y, z = ctx.real('x', -20, 5), ctx.real('y', -20, 5), ctx.real('z', -40, 50)
    c = {'none': {}, 'one': {'battery': [x, y]}, 'short': {'battery': [x], 'grid': [z]}, 'unknown': {'battery': [x, y], 'grid': [z], 'nobody': [x]},
         'extra': {'battery': [x, y], 'grid': [z]}}[case]
    before = {k: list(v) for k, v in c.items()}
    r, e = ctx.raises(mg.run, c, normalized=False)
    ctx.check(list(c) == list(before) and all(len(c[k]) == len(v) and all(x is y for x, y in zip(c[k], v)) for k, v in before.items()), 'control unchanged')
    if case in ('none', 'one', 'short'):
        ctx.check(isinstance(e, ValueError), 'a missing control is an error', repr(e))
        return
    ctx.check(e is None, 'unknown names are ignored', repr(e))
    if e is None:
        info = r[3]
        ctx.closes(zip([net(d) for d in info['battery']], [x, y]), 'battery requests')
        ctx.close(net(info['grid'][0]), z, 'grid request')
        ctx.check('nobody' not in info, 'nothing happens under an unknown name')


KINDS = {'clock': ('fixed', 'sinks'), 'pv': ('flex', 'sources'), 'battery': ('controllable', 'source_and_sinks'), 'grid': ('controllable', 'source_and_sinks'),
         'genset': ('controllable', 'sources'), 'balancing': ('flex', 'source_and_sinks')}


@harness('C18', 'grouping', quick=[{'n': 3}], thorough=[{'n': 4}], bounds='any 3 (thorough 4) modules of five kinds in any order, at least one with a time series, default or custom names: every module is in exactly one group, of the right kind, under its name and number')
def grouping(ctx, cfg):
    from pymgrid import Microgrid
    from pymgrid.modules import RenewableModule
    kinds = ['clock', 'pv', 'battery', 'grid', 'genset']
    make = dict(clock=lambda i: clock(ctx), pv=lambda i: RenewableModule(time_series=ctx.array([1.0, 2.0, 3.0])), battery=cell, grid=lambda i: wire(ctx, i), genset=gen)
    named = ctx.const_int('named', 0, 1)
    as_tuple = ctx.const_int('as_tuple', 0, 1)
    ms, seq = [], []
    for i in range(cfg['n']):
        k = kinds[ctx.const_int(f'kind{i}', 0, 4)]
        m = make[k](i)
        m.tag = i
        name = {'clock': 'load', 'pv': 'renewable'}.get(k, k)
        if named:
            name = f'my_{k}'
        seq.append((k, name, i))
        ms.append((name, m) if named else m)
    if not any(k in ('clock', 'pv', 'grid') for k, _, _ in seq):
        return      # without a time series there is no final step
    mg = ctx.must_not_raise('construction', Microgrid, tuple(ms) if as_tuple else ms)
    mods = mg.modules
    total = [m for m in mods.to_list()]
    ctx.check(len(total) == cfg['n'] + 1 and len(mods) == cfg['n'] + 1 and mg.n_modules == cfg['n'] + 1, 'every module once', f'{len(total)}')
    ctx.check(sorted(getattr(m, 'tag', -1) for m in total) == [-1] + list(range(cfg['n'])), 'no module lost or doubled')
    byname = {}
    for k, name, i in seq:
        byname.setdefault(name, []).append((k, i))
    for name, lst in byname.items():
        got = mods[name]
        ctx.check([m.tag for m in got] == [i for _, i in lst], 'order within a name', f'{name}')
        ctx.check([tuple(m.name) for m in got] == [(name, j) for j in range(len(lst))], 'name and number')
        if name != 'load':      # Microgrid.load is the loader
            ctx.check(list(getattr(mg, name)) == list(got), 'attribute access')
    for kind in ('fixed', 'flex', 'controllable'):
        for ss in ('sources', 'sinks', 'source_and_sinks'):
            want = sorted(i for k, _, i in seq if KINDS[k] == (kind, ss)) + ([-1] if (kind, ss) == KINDS['balancing'] else [])
            for c in (getattr(getattr(mods, kind), ss), getattr(getattr(mods, ss), kind)):
                ctx.check(sorted(getattr(m, 'tag', -1) for m in c.to_list()) == sorted(want), 'group', f'{kind} {ss}')
    for kind in ('fixed', 'flex', 'controllable'):
        want = [i for k, _, i in seq if KINDS[k][0] == kind] + ([-1] if kind == 'flex' else [])
        ctx.check(sorted(getattr(m, 'tag', -1) for m in getattr(mg, kind).to_list()) == sorted(want), 'kind', kind)
    ctx.check(all(not hasattr(m if not named else m[1], '_x') and (m if not named else m[1]).name[1] is None for m in ms), 'modules given at construction keep their names')


@harness('C18', 'names', quick=[{}], bounds='two modules of any two kinds under one name: accepted, and both kept, exactly if they are of the same type')
def names(ctx, cfg):
    from pymgrid import Microgrid
    from pymgrid.modules import RenewableModule
    kinds = ['clock', 'pv', 'battery', 'grid', 'genset']
    make = dict(clock=lambda i: clock(ctx), pv=lambda i: RenewableModule(time_series=ctx.array([1.0, 2.0, 3.0])), battery=cell, grid=lambda i: wire(ctx, i), genset=gen)
    a, b = kinds[ctx.const_int('a', 0, 4)], kinds[ctx.const_int('b', 0, 4)]
    mg, e = ctx.raises(Microgrid, [('time', clock(ctx)), ('x', make[a](0)), ('x', make[b](1))])
    if KINDS[a] == KINDS[b]:
        ctx.check(e is None, 'modules of the same type may share a name', repr(e))
        if e is None:
            ctx.check(len(mg.modules['x']) == 2 and len(mg.modules) == 4, 'both kept')
    else:
        ctx.check(isinstance(e, NameError), 'different types under one name are rejected', repr(e))


def formed(ctx, form, x):
    return {'scalar': lambda: x, 'list': lambda: [x], 'tuple': lambda: (x,), 'array': lambda: ctx.array([x]), 'column': lambda: ctx.array([[x]]),
            'arrays': lambda: [ctx.array([x])]}[form]()


@harness('C18', 'forms', quick=[{'form': f, 'norm': n} for f in ('scalar', 'list', 'tuple', 'array', 'column', 'arrays') for n in (False, True)],
         bounds='the control of a battery and a grid as number, list, tuple, flat or column array or list of arrays, that of a genset as list of an array or array; normalised or not')
def control_forms(ctx, cfg):
    from pymgrid import Microgrid
    norm, form = cfg['norm'], cfg['form']
    mg = Microgrid([('clock', clock(ctx)), ('battery', cell(0)), ('grid', wire(ctx, 0)), ('genset', gen(0))])
    b, g, e = (ctx.real('b', 0, 1), ctx.real('g', 0, 1), ctx.real('e', 0, 1)) if norm else (ctx.real('b', -20, 5), ctx.real('g', -40, 50), ctx.real('e', 0, 30))
    ref = copy.deepcopy(mg)
    want = ref.run({'battery': [b], 'grid': [g], 'genset': [ctx.array([1.0, e])]}, normalized=norm)[3]
    c = {'battery': formed(ctx, form, b), 'grid': formed(ctx, form, g), 'genset': ctx.array([[1.0, e]]) if form == 'column' else [ctx.array([1.0, e])]}
    out = ctx.must_not_raise('a step', mg.run, c, normalized=norm)
    for n in ('battery', 'grid', 'genset'):
        ctx.close(net(out[3][n][0]), net(want[n][0]), f'{n} exchanges what it was asked for')
        if not norm:
            ctx.close(net(out[3][n][0]), {'battery': b, 'grid': g, 'genset': e}[n], f'{n} exchanges the request')
