"""C01 energy balance, C08 dispatch, C10 reward, C13 logs."""
from symx.registry import harness
from . import common


def totals(ctx, info, names=None, skip=()):
    p = a = 0.0
    for name, j, prov, absb in common.energies(info):
        if (names is None or name in names) and name not in skip:
            p, a = p + prov, a + absb
    return p, a


FIXED, FLEX = ('load', 'clock', 'penload', 'feedin'), ('pv', 'balancing', 'dump')


def check_balance(ctx, mix, info, row):
    p, a = totals(ctx, info)
    ctx.close(p, a, 'provided equals absorbed')
    ctx.close(row[('balance', 0, 'overall_provided_to_microgrid')], p, 'recorded total provided')
    ctx.close(row[('balance', 0, 'overall_absorbed_from_microgrid')], a, 'recorded total absorbed')
    fp, fa = totals(ctx, info, FIXED)
    ctx.close(row[('balance', 0, 'fixed_provided_to_microgrid')], fp, 'recorded fixed provided')
    ctx.close(row[('balance', 0, 'fixed_absorbed_from_microgrid')], fa, 'recorded fixed absorbed')
    cp, ca = totals(ctx, info, skip=FIXED + FLEX)
    ctx.close(row[('balance', 0, 'controllable_provided_to_microgrid')], cp, 'recorded controllable provided')
    ctx.close(row[('balance', 0, 'controllable_absorbed_from_microgrid')], ca, 'recorded controllable absorbed')


SPECS = [['load', 'battery'], ['load', 'pv'], ['load', 'pv', 'grid'], ['load', 'pv', 'genset'], ['load', 'load', 'pv', 'pv'], ['pv', 'battery'],
         ['load', 'grid', 'genset'], ['battery', 'grid'], ['load', 'pv', 'battery'],
         ['penload', 'feedin', 'pv', 'dump'], ['load', 'heater', 'feedin', 'dump'], ['load', 'heater', 'pv']]


@harness('C01', 'one_step', quick=[{'spec': s} for s in SPECS] + [{'spec': ['load', 'pv', 'grid'], 'lead': 24}],
         thorough=[{'spec': ['load', 'pv', 'battery', 'grid'], 'simple': True}, {'spec': ['load', 'pv', 'battery', 'grid']}, {'spec': ['load', 'pv', 'battery', 'genset']}, {'spec': ['load', 'battery', 'battery']}, {'spec': ['load', 'grid', 'grid']}, {'spec': ['load', 'heater', 'pv', 'grid']}],
         bounds='any parameters, series, state and control of the listed compositions (2-4 modules + balancing module), one step from any initial state')
def balance_one(ctx, cfg):
    mix = common.Mix(ctx, cfg['spec'], 2, co2=False, cost=False, status=not cfg.get('simple'), lead=cfg.get('lead', 0))
    out = ctx.must_not_raise('step', mix.mg.run, mix.control(0), normalized=False)
    info = out[3]
    check_balance(ctx, mix, info, common.last_row(mix.mg))


@harness('C01', 'normalized', quick=[{'spec': ['load', 'pv', 'battery']}, {'spec': ['load', 'grid']}, {'spec': ['load', 'pv', 'genset']}],
         bounds='normalised control in [0,1] of the listed compositions')
def balance_norm(ctx, cfg):
    mix = common.Mix(ctx, cfg['spec'], 2, co2=False, cost=False)
    if mix.grids:
        p = mix.grids[0][0]
        ctx.assume(p['max_import'] + p['max_export'] > 0)
    for g in mix.gens:
        ctx.assume(g['running_max_production'] > 0)
    for b, _ in mix.bats:
        ctx.assume(b['max_charge'] > 0)
        ctx.assume(b['max_discharge'] > 0)
    control = mix.control(0, lo=0, hi=1)
    out = ctx.must_not_raise('step', mix.mg.run, control, normalized=True)
    check_balance(ctx, mix, out[3], common.last_row(mix.mg))


@harness('C01', 'history', quick=[{'spec': ['load', 'pv'], 'k': 3}, {'spec': ['clock', 'battery'], 'k': 2, 'simple': True}],
         thorough=[{'spec': ['load', 'pv', 'battery'], 'k': 2, 'simple': True}, {'spec': ['load', 'grid', 'pv'], 'k': 2}],
         bounds='k consecutive steps; the record of every step is checked')
def balance_history(ctx, cfg):
    k = cfg['k']
    mix = common.Mix(ctx, cfg['spec'], k + 1, co2=False, cost=False)
    if cfg.get('simple'):
        p, c = mix.bats[0]
        ctx.assume(p['efficiency'] == 1)
        ctx.assume(p['min_capacity'] == 0)
    infos = []
    for t in range(k):
        out = ctx.must_not_raise('step', mix.mg.run, mix.control(t), normalized=False)
        infos.append(out[3])
    log, index = common.log_of(mix.mg)
    ctx.check(len(index) == k, 'one record per step')
    for t in range(k):
        check_balance(ctx, mix, infos[t], {c: v[t] for c, v in log.items()})


@harness('C01', 'grid_roles', quick=[{'role': 'flex'}],
         bounds='a grid used as a flex module balances the microgrid without a control')
def balance_roles(ctx, cfg):
    from pymgrid.modules import GridModule
    old = GridModule.module_type
    try:
        g, p, rows = common.grid(ctx, 2)
        g.as_flex()
        from pymgrid import Microgrid
        l, s = common.load(ctx, 2)
        r, ps = common.renewable(ctx, 2)
        mg = Microgrid([l, ('pv', r), g])
        out = ctx.must_not_raise('step', mg.run, {}, normalized=False)
        pr, ab = totals(ctx, out[3])
        ctx.close(pr, ab, 'provided equals absorbed')
    finally:
        GridModule.module_type = old


# ------------------------------------------------------------------------ C08

@harness('C08', 'dispatch', quick=[{'spec': s} for s in (['load', 'pv'], ['load', 'pv', 'pv'], ['load', 'load', 'pv'], ['load', 'battery', 'pv'],
                                                         ['load', 'pv', 'genset'], ['load', 'pv', 'grid'], ['load', 'battery'],
                                                         ['load', 'feedin', 'pv'], ['penload', 'genset', 'dump', 'dump'], ['feedin', 'pv', 'dump'], ['load', 'heater', 'feedin', 'dump'])],
         thorough=[{'spec': s} for s in (['load', 'pv', 'battery', 'grid'], ['load', 'pv', 'pv', 'genset'], ['load', 'load', 'pv', 'pv'])],
         bounds='any series, parameters, control of the listed compositions; one step (second step in two_steps)')
def dispatch(ctx, cfg):
    mix = common.Mix(ctx, cfg['spec'], 2, co2=False, cost=False, status=False)
    _, _, _, info = mix.mg.run(mix.control(0), normalized=False)
    check_dispatch(ctx, mix, info, common.last_row(mix.mg), 0)


@harness('C08', 'two_steps', quick=[{'spec': ['load', 'pv']}, {'spec': ['load', 'pv', 'pv']}, {'spec': ['load', 'feedin', 'dump']}, {'spec': ['load', 'pv'], 'lead': 23}], bounds='second step of an episode; also late in a longer series (steps 23, 24)')
def dispatch2(ctx, cfg):
    mix = common.Mix(ctx, cfg['spec'], 3, co2=False, cost=False, lead=cfg.get('lead', 0))
    mix.mg.run(mix.control(0), normalized=False)
    _, _, _, info = mix.mg.run(mix.control(1), normalized=False)
    check_dispatch(ctx, mix, info, common.last_row(mix.mg), 1)


def check_dispatch(ctx, mix, info, row, t):
    for i, s in enumerate(mix.loads):
        d = info['load'][i]
        ctx.close(d['absorbed_energy'], s[t], 'load met')
        ctx.check('provided_energy' not in d, 'loads provide nothing')
        ctx.close(row[('load', i, 'reward')], 0.0, 'load reward')
    used = avail = 0.0
    for i, s in enumerate(mix.pvs):
        d = info['pv'][i]
        ctx.within(0.0, d['provided_energy'], s[t], 'renewable use')
        ctx.close(d['provided_energy'] + d['curtailment'], s[t], 'use plus curtailment is what is available')
        ctx.close(row[('pv', i, 'reward')], 0.0, 'renewable reward')
        used, avail = used + d['provided_energy'], avail + s[t]
    b = info['balancing'][0]
    loss, over = b.get('provided_energy', 0.0), b.get('absorbed_energy', 0.0)
    # need before flexible modules
    prov = absb = 0.0
    for name, j, p, a in common.energies(info):
        if name not in FLEX:
            prov, absb = prov + p, absb + a
    need = absb - prov
    # reference dispatch
    rused = ctx.max(0.0, ctx.min(need, avail))
    ctx.close(used, rused, 'renewables cover exactly the remaining need')
    ctx.close(loss, ctx.max(0.0, need - avail), 'loss load is the uncovered need')
    excess = ctx.max(0.0, -need)
    for i, p in enumerate(mix.custom.get('dump', [])):      # flexible sinks take the excess in order
        x = ctx.min(excess, p['capacity'])
        ctx.close(info['dump'][i]['absorbed_energy'], x, 'flexible sinks take the excess in order')
        excess = excess - x
    for i, p in enumerate(mix.custom.get('feedin', [])):
        ctx.close(info['feedin'][i]['provided_energy'], p['series'][t], 'fixed production is always provided')
    for i, p in enumerate(mix.custom.get('penload', [])):
        ctx.close(info['penload'][i]['absorbed_energy'], p['series'][t], 'load met')
    ctx.close(over, excess, 'overgeneration is the excess of the controllable production')
    ctx.check(ctx.or_(ctx.not_(ctx.gt_(loss, 0.0)), ctx.not_(ctx.gt_(over, 0.0))), 'loss load and overgeneration exclude each other')
    # first renewables first
    left = ctx.max(0.0, need)
    for i, s in enumerate(mix.pvs):
        x = ctx.min(left, s[t])
        ctx.close(info['pv'][i]['provided_energy'], x, 'renewables are used in order')
        left = left - x
    ctx.close(row[('balancing', 0, 'reward')], -(loss * mix.loss_cost) - over * mix.over_cost, 'cost of loss load / overgeneration')
    ctx.close(row[('balancing', 0, 'loss_load')], loss, 'logged loss load')
    ctx.close(row[('balancing', 0, 'overgeneration')], over, 'logged overgeneration')


FORMS = ('flat', 'column', 'list', 'nested', 'series', 'frame')


def shaped(ctx, form, v):
    import pandas as pd
    if form == 'flat':
        return ctx.array(v)
    if form == 'column':
        return ctx.array([[x] for x in v])
    if form == 'list':
        return list(v)
    if form == 'nested':
        return [[x] for x in v]
    return pd.Series(v, index=range(5, 5 + len(v))) if form == 'series' else pd.DataFrame({'value': v}, index=range(5, 5 + len(v)))


@harness('C08', 'forms', quick=[{'form': f, 'sign': s} for f in FORMS for s in (1, -1)],
         bounds='series of two rows given as flat or column array, list, nested list, pandas Series or DataFrame, with values of either sign: the demand and the available output are their absolute values; mixed signs are refused')
def forms(ctx, cfg):
    from pymgrid import Microgrid
    from pymgrid.modules import LoadModule, RenewableModule
    load, pv = common.series(ctx, 'load', 2), common.series(ctx, 'pv', 2)
    give = lambda v: shaped(ctx, cfg['form'], [cfg['sign'] * x for x in v])
    mods = [ctx.must_not_raise('a load', LoadModule, time_series=give(load)), ctx.must_not_raise('a renewable', RenewableModule, time_series=give(pv))]
    mg = Microgrid(mods)
    for t in range(2):
        ctx.close(mg.modules['load'][0].current_load, load[t], f'demand of step {t}')
        ctx.close(mg.modules['renewable'][0].current_renewable, pv[t], f'output of step {t}')
        _, r, done, info = mg.run({})
        ctx.close(info['load'][0].get('absorbed_energy', 0.0), load[t], f'demand met in step {t}')
        ctx.close(info['renewable'][0].get('provided_energy', 0.0) + info['renewable'][0].get('curtailment', 0.0), pv[t], f'output used or curtailed in step {t}')
        ctx.check(bool(done) == (t == 1), 'one step per row')
    a, b = ctx.real('a', 0, 1000, lo_open=True), ctx.real('b', 0, 1000, lo_open=True)
    for cls in (LoadModule, RenewableModule):
        _, exc = ctx.raises(cls, time_series=shaped(ctx, cfg['form'], [a, -b] if cfg['sign'] > 0 else [-a, b]))
        ctx.check(isinstance(exc, ValueError), 'mixed signs are refused', f'{exc!r}')
