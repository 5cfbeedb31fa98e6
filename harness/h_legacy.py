"""C23 the non-modular (legacy) microgrid; C19 conversion between the two kinds."""
import contextlib
import copy
import io

from symx.registry import harness
from . import common


def frame(ctx, values):
    import pandas as pd
    return pd.DataFrame({0: list(values)})


class Legacy:
    """A non-modular microgrid with arbitrary parameters, series and state of charge."""

    def __init__(self, ctx, parts, T, horizon, status=False, free=None, lead=0):
        import pandas as pd
        from pymgrid import NonModularMicrogrid
        self.ctx, self.parts, self.T, self.fixed = ctx, parts, T, {}
        self.load = common.led(lead, common.series(ctx, 'load', T, free=free))
        self.pv = common.led(lead, common.series(ctx, 'pv', T, free=free))
        self.T += lead
        p = dict(load=1000.0, cost_loss_load=ctx.real('cost_loss_load', 0, 100), cost_overgeneration=ctx.real('cost_overgeneration', 0, 100),
                 cost_co2=ctx.real('cost_co2', 0, 100), PV_rated_power=1000.0)
        st = dict(load=[self.load[0]], hour=[0], pv=[self.pv[0]])
        acts, prod, cost = ['load', 'pv_consummed', 'pv_curtailed', 'pv'], ['loss_load', 'overgeneration', 'pv_consummed', 'pv_curtailed'], ['loss_load', 'overgeneration', 'co2']
        arch = dict(PV=1, battery=0, genset=0, grid=0)
        spec = dict(grid_ts=[], grid_price_import=[], grid_price_export=[], grid_co2=[])
        if 'battery' in parts:
            arch['battery'] = 1
            lo, hi = ctx.real('soc_min', 0, 1), ctx.real('soc_max', 0, 1)
            soc = ctx.real('soc', 0, 1)
            ctx.assume(ctx.and_(lo <= soc, soc <= hi, lo < hi))
            p.update(battery_soc_0=soc, battery_soc_min=lo, battery_soc_max=hi, battery_power_charge=ctx.real('p_charge', 0, 1000000),
                     battery_power_discharge=ctx.real('p_discharge', 0, 1000000), battery_capacity=ctx.real('capacity', 1, 1000000),
                     battery_efficiency=ctx.real('efficiency', 0, 1, lo_open=True), battery_cost_cycle=ctx.real('cost_cycle', 0, 100))
            st.update(battery_soc=[soc], capa_to_charge=[0.0], capa_to_discharge=[0.0])
            acts += ['battery_charge', 'battery_discharge']
            prod += ['battery_charge', 'battery_discharge']
            cost += ['battery']
        if 'grid' in parts:
            arch['grid'] = 1
            self.rows = common.grid_rows(ctx, T, 'grid_', status, free=free)
            if not status:
                self.rows = [r[:3] + [1.0] for r in self.rows]
            self.rows = common.led(lead, self.rows)
            p.update(grid_weak=0, grid_power_import=ctx.real('grid_import_max', 0, 1000000), grid_power_export=ctx.real('grid_export_max', 0, 1000000))
            for i, n in enumerate(('grid_price_import', 'grid_price_export', 'grid_co2', 'grid_ts')):
                spec[n] = frame(ctx, [r[i] for r in self.rows])
                st[{'grid_ts': 'grid_status'}.get(n, n)] = [self.rows[0][i]]
            acts += ['grid_import', 'grid_export']
            prod += ['grid_import', 'grid_export']
            cost += ['grid_import', 'grid_export']
        if 'genset' in parts:
            arch['genset'] = 1
            rated, lo, hi = ctx.real('rated', 0, 1000000), ctx.real('pmin', 0, 1), ctx.real('pmax', 0, 1)
            ctx.assume(lo <= hi)
            p.update(genset_polynom_order=0, genset_rated_power=rated, genset_pmin=lo, genset_pmax=hi, fuel_cost=ctx.real('fuel_cost', 0, 100), genset_co2=ctx.real('genset_co2', 0, 100))
            acts += ['genset']
            prod += ['genset']
            cost += ['genset']
        self.p = p
        spec.update(parameters=pd.DataFrame({k: [v] for k, v in p.items()}), architecture=arch, df_status=st, df_co2={'co2': []}, grid_spec=0,
                    df_actions={k: [] for k in acts}, df_actual_generation={k: [] for k in prod}, df_cost={k: [] for k in cost + ['total_cost']},
                    control_dict=acts, load=frame(ctx, self.load), pv=frame(ctx, self.pv))
        self.mg = NonModularMicrogrid(spec, horizon=horizon)

    def control(self, t, lo=-2000000, hi=2000000):
        if t in self.fixed:
            return dict(self.fixed[t])
        c = {}
        for part, names in (('battery', ('battery_charge', 'battery_discharge')), ('grid', ('grid_import', 'grid_export')), ('genset', ('genset',))):
            if part in self.parts:
                for n in names:
                    c[n] = self.ctx.real(f'{n}_{t}', lo, hi)
        return c


SLACK = 1e-3        # below this the implementation regards the balance as met


def step(ctx, lg, t, soc):
    """One step; checks everything the property says and returns the new state of charge."""
    mg = lg.mg
    ctrl = lg.control(t)
    with contextlib.redirect_stdout(io.StringIO()):
        out = ctx.must_not_raise('step', mg.run, dict(ctrl))
    got = {k: v[-1] for k, v in mg._df_record_actual_production.items()}
    cost = {k: v[-1] for k, v in mg._df_record_cost.items()}
    return outcome(ctx, lg, t, soc, ctrl, got, cost, mg.get_co2(), mg.get_cost(), out)


def outcome(ctx, lg, t, soc, ctrl, got, cost, emitted, total, out):
    """What follows from the control of step t: productions, costs, emissions and the state of the next step."""
    p = lg.p
    want = {}
    sources, sinks, co2 = got['loss_load'] + got['pv_consummed'], lg.load[t] + got['overgeneration'], 0.0
    if 'battery' in lg.parts:
        c, d, e, cap = got['battery_charge'], got['battery_discharge'], p['battery_efficiency'], p['battery_capacity']
        ctx.within(0.0, c, p['battery_power_charge'], 'charging power')
        ctx.within(0.0, d, p['battery_power_discharge'], 'discharging power')
        rc, rd = ctrl['battery_charge'], ctrl['battery_discharge']
        ctx.le(c, ctx.max(rc, 0.0), 'not more than asked is charged')
        ctx.le(d, ctx.max(rd, 0.0), 'not more than asked is discharged')
        # what is possible even without counting the losses in the battery's favour
        ctx.le(ctx.clip(rc, 0.0, ctx.min(p['battery_power_charge'], (p['battery_soc_max'] - soc) * cap * e)), c, 'a feasible charge is executed')
        ctx.le(ctx.clip(rd, 0.0, ctx.min(p['battery_power_discharge'], (soc - p['battery_soc_min']) * cap * e)), d, 'a feasible discharge is executed')
        new = soc + (c * e - d / e) / cap
        ctx.close(out['battery_soc'], new, 'state of charge follows the executed powers')
        ctx.within(p['battery_soc_min'], out['battery_soc'], p['battery_soc_max'], 'state of charge within its limits')
        soc = out['battery_soc']
        sources, sinks = sources + d, sinks + c
        want['battery'] = (c + d) * p['battery_cost_cycle']
    if 'grid' in lg.parts:
        i, x = got['grid_import'], got['grid_export']
        ctx.close(i, ctx.clip(ctrl['grid_import'], 0.0, p['grid_power_import']), 'imports are what is asked, within the limit')
        ctx.close(x, ctx.clip(ctrl['grid_export'], 0.0, p['grid_power_export']), 'exports are what is asked, within the limit')
        sources, sinks = sources + i, sinks + x
        row = lg.rows[t]
        want['grid_import'], want['grid_export'] = row[0] * i, -row[1] * x
        co2 = co2 + row[2] * i
    if 'genset' in lg.parts:
        g, r = got['genset'], ctrl['genset']
        lo, hi = p['genset_rated_power'] * p['genset_pmin'], p['genset_rated_power'] * p['genset_pmax']
        ctx.within(0.0, g, hi, 'genset power')
        ctx.check(ctx.or_(g <= 1.0 + 1e-9, g + 1e-9 >= lo), 'a running genset produces at least its minimum')
        ctx.check(ctx.implies(ctx.and_(r >= lo, r <= hi), ctx.eq_(g, r)), 'a feasible genset request is executed')
        sources = sources + g
        want['genset'] = g * p['fuel_cost']
        co2 = co2 + g * p['genset_co2']
    for n in ('loss_load', 'overgeneration', 'pv_consummed', 'pv_curtailed'):
        ctx.le(0.0, got[n], f'{n} is not negative')
    ctx.le(sources - sinks, SLACK, 'not more is supplied than used')
    ctx.le(sinks - sources, SLACK, 'not more is used than supplied')
    ctx.le(got['pv_consummed'] + got['pv_curtailed'] - lg.pv[t], SLACK, 'pv is used or curtailed')
    ctx.le(lg.pv[t] - got['pv_consummed'] - got['pv_curtailed'], SLACK, 'pv is used or curtailed')
    ctx.check(ctx.or_(got['loss_load'] == 0, ctx.and_(got['overgeneration'] == 0, got['pv_curtailed'] <= SLACK)), 'load is lost only when everything is used')
    ctx.check(ctx.or_(got['overgeneration'] == 0, got['pv_consummed'] <= SLACK), 'overgeneration only after all pv is curtailed')
    want['loss_load'], want['overgeneration'] = got['loss_load'] * p['cost_loss_load'], got['overgeneration'] * p['cost_overgeneration']
    want['co2'] = co2 * p['cost_co2']
    ctx.close(emitted, co2, 'co2 emissions')
    for n, w in want.items():
        ctx.close(cost[n], w, f'cost of {n}')
    ctx.close(total, ctx.sum(want.values()), 'total cost')
    nxt = {'load': lg.load, 'pv': lg.pv}
    for i, n in enumerate(('grid_price_import', 'grid_price_export', 'grid_co2', 'grid_status')):
        if 'grid' in lg.parts:
            nxt[n] = [r[i] for r in lg.rows]
    for n, s in nxt.items():
        if t + 1 < lg.T:
            ctx.close(out[n], s[t + 1], f'{n} of the next step')
    return soc


FIXED = dict(battery_charge=7.0, battery_discharge=5.0, grid_import=7.0, grid_export=3.0, genset=9.0)
PARTS = [['battery', 'genset'], ['battery', 'grid'], ['grid', 'genset'], ['genset'], ['battery']]


@harness('C23', 'step', quick=[{'parts': p} for p in PARTS], thorough=[{'parts': ['battery', 'grid', 'genset']}, {'parts': ['grid']}],
         bounds='one step with any parameters, series, state of charge and control')
def one_step(ctx, cfg):
    lg = Legacy(ctx, cfg['parts'], 3, 1, status=True, free=2)
    step(ctx, lg, 0, lg.p.get('battery_soc_0'))
    ctx.check(not lg.mg.done, 'not done')


@harness('C23', 'late', quick=[{'parts': ['grid']}, {'parts': ['genset']}], thorough=[{'parts': ['battery']}, {'parts': ['grid', 'genset']}],
         bounds='one step after 25 steps with fixed series and no exchange; any parameters, series, state of charge and control in that step')
def late(ctx, cfg):
    lg = Legacy(ctx, cfg['parts'], 2, 1, free=1, lead=25)
    soc = lg.p.get('battery_soc_0')
    none = {n: 0.0 for n in FIXED if n.startswith(tuple(cfg['parts']))}
    for t in range(25):
        with contextlib.redirect_stdout(io.StringIO()):
            ctx.must_not_raise('earlier steps', lg.mg.run, dict(none))
    step(ctx, lg, 25, soc)
    ctx.check(len(lg.mg._df_record_cost['total_cost']) == 26, 'one record per step')


@harness('C23', 'history', quick=[{'parts': ['genset'], 'k': 2}, {'parts': ['grid'], 'k': 2}], thorough=[{'parts': ['battery'], 'k': 2}, {'parts': ['grid', 'genset'], 'k': 2}, {'parts': ['grid'], 'k': 3}],
         bounds='episodes of two or three steps with any control, the last one done; reset repeats the same steps')
def history(ctx, cfg):
    k = cfg['k']
    lg = Legacy(ctx, cfg['parts'], k, 1, free=k)
    # the last step is free, in the others one component is
    for t in range(k - 1):
        lg.fixed[t] = {**FIXED, **{n: ctx.real(f'{n}_{t}', 0, 500) for n in ('battery_charge', 'grid_import', 'genset') if n.startswith(tuple(cfg['parts']))}}
    soc = lg.p.get('battery_soc_0')
    for t in range(k):
        ctx.check(not lg.mg.done, 'not done before the end')
        soc = step(ctx, lg, t, soc)
    ctx.check(lg.mg.done, 'done at the end')
    lg.mg.reset()
    ctx.check(not lg.mg.done, 'reset')
    now = lg.mg.get_updated_values()
    ctx.close(now['load'], lg.load[0], 'load after reset')
    ctx.close(now['pv'], lg.pv[0], 'pv after reset')
    lg.fixed[0] = FIXED
    step(ctx, lg, 0, lg.p.get('battery_soc_0'))


@harness('C23', 'horizon', quick=[{}], bounds='series of 5 steps, horizons 1..5, every step up to the end: forecasts are the coming values, the episode ends when they run out')
def horizon(ctx, cfg):
    h = ctx.const_int('horizon', 1, 5)
    lg = Legacy(ctx, ['grid'], 5, h)
    ctx.assume(ctx.and_(*[x >= 10 for x in lg.load], *[x <= 1 for x in lg.pv]))    # one way to balance; the values do not matter here
    for t in range(5 - h + 1):
        ctx.check(not lg.mg.done, 'not done before the end')
        f = lg.mg.forecast_all()
        want = {'load': lg.load, 'pv': lg.pv, 'grid_import': [r[0] for r in lg.rows], 'grid_export': [r[1] for r in lg.rows], 'grid_co2': [r[2] for r in lg.rows], 'grid_status': [r[3] for r in lg.rows]}
        ctx.check(sorted(f) == sorted(want), 'forecasts', f'{sorted(f)}')
        for n, s in want.items():
            ctx.same_array(list(f[n]), s[t:t + h], f'forecast of {n} at {t}')
        ctx.must_not_raise('step', lg.mg.run, {'grid_import': 3.0, 'grid_export': 0.0})
    ctx.check(lg.mg.done, 'done when the forecast reaches the end')


@harness('C23', 'split', quick=[{'parts': ['grid'], 'h': 1}, {'parts': ['genset'], 'h': 2}, {'parts': ['grid'], 'h': 2}], thorough=[{'parts': ['battery'], 'h': 1}],
         bounds='series of 5 steps split after 2..4 of them: training and testing episodes run over their own part of the series to its end, cancelling the split restores the whole')
def split(ctx, cfg):
    h = cfg['h']
    lg = Legacy(ctx, cfg['parts'], 5, h)
    ctx.assume(ctx.and_(*[x >= 10 for x in lg.load], *[x <= 1 for x in lg.pv]))    # one way to balance; the values do not matter here
    n = ctx.const_int('train', 2, 4)
    if 5 - n < h:
        return
    all_ = {'load': lg.load, 'pv': lg.pv}
    if 'grid' in cfg['parts']:
        for i, k in enumerate(('grid_price_import', 'grid_price_export', 'grid_co2', 'grid_status')):
            all_[k] = [r[i] for r in lg.rows]
    ctl = {'grid_import': 3.0, 'grid_export': 0.0, 'battery_charge': 0.0, 'battery_discharge': 0.0, 'genset': 0.0}

    def episode(a, b, label):
        ctx.check(not lg.mg.done, f'{label}: not done at the beginning')
        for t in range(a, b - h + 1):
            now = lg.mg.get_updated_values()
            for k, s in all_.items():
                ctx.close(now[k], s[t], f'{label}: {k} of the step')
            f = lg.mg.forecast_all()
            ctx.same_array(list(f['load']), lg.load[t:t + h], f'{label}: load forecast')
            ctx.same_array(list(f['pv']), lg.pv[t:t + h], f'{label}: pv forecast')
            if 'grid' in cfg['parts']:
                ctx.same_array(list(f['grid_import']), all_['grid_price_import'][t:t + h], f'{label}: price forecast')
                ctx.same_array(list(f['grid_export']), all_['grid_price_export'][t:t + h], f'{label}: price forecast')
                ctx.same_array(list(f['grid_status']), all_['grid_status'][t:t + h], f'{label}: status forecast')
                ctx.same_array(list(f['grid_co2']), all_['grid_co2'][t:t + h], f'{label}: co2 forecast')
            ctx.check(not lg.mg.done, f'{label}: not done before the end')
            c = {k: v for k, v in ctl.items() if k.startswith(tuple(cfg['parts']))}
            ctx.must_not_raise(f'{label}: step', lg.mg.run, c)
            got = {k: v[-1] for k, v in lg.mg._df_record_actual_production.items()}
            net = got['loss_load'] + got['pv_consummed'] + got.get('grid_import', 0.0) + got.get('genset', 0.0)
            ctx.close(net, lg.load[t], f'{label}: the load of the step is served')
            if 'grid' in cfg['parts']:
                ctx.close(lg.mg._df_record_cost['grid_import'][-1], all_['grid_price_import'][t] * got['grid_import'], f'{label}: imports at the price of the step')
        ctx.check(lg.mg.done, f'{label}: done at the end')

    size = {2: 0.4, 3: 0.6, 4: 0.7}[n]       # rounded up to whole steps
    lg.mg.train_test_split(train_size=size)
    episode(0, n, 'training')
    lg.mg.reset(testing=True)
    episode(n, 5, 'testing')
    lg.mg.reset(testing=True)
    episode(n, 5, 'testing again')
    lg.mg.reset()
    episode(0, n, 'training again')
    lg.mg.train_test_split(cancel=True)
    episode(0, 5, 'split cancelled')


# ---------------------------------------------------------------- C19

def mods(ctx, parts, T, same_co2, horizon):
    kw = {'forecaster': 'oracle', 'forecast_horizon': horizon} if horizon else {}
    mix = common.Mix(ctx, ['load', 'pv'] + parts, T, ts_kw=kw, free=1)
    if same_co2 and mix.grids and mix.gens:
        ctx.assume(mix.grids[0][0]['cost_per_unit_co2'] == mix.gens[0]['cost_per_unit_co2'])
    for g in mix.gens:
        ctx.assume(g['running_max_production'] >= 1)
    return mix


def series_of(df):
    return list(df.values.reshape(-1))


CONV = [{'parts': ['battery', 'grid'], 'h': 0}, {'parts': ['genset'], 'h': 2}, {'parts': ['battery'], 'h': 0}, {'parts': ['grid', 'genset'], 'h': 0}]
CONV2 = [{'parts': ['battery', 'grid', 'genset'], 'h': 2}]


def net(d):
    return d.get('provided_energy', 0.0) - d.get('absorbed_energy', 0.0)


@harness('C19', 'to_nonmodular', quick=CONV + [{'parts': ['grid', 'genset'], 'h': 0, 'differ': True}, {'parts': ['battery'], 'h': 0, 'after': True}], thorough=CONV2,
         bounds='microgrids of load, pv and the listed parts, series of 3 steps, any parameters and charge, at the start and after a step')
def to_nonmodular(ctx, cfg):
    mix = mods(ctx, cfg['parts'], 3, not cfg.get('differ'), cfg['h'])
    if cfg.get('after'):
        mix.mg.run(mix.control(0), normalized=False)
    nm = ctx.must_not_raise('conversion', mix.mg.to_nonmodular)
    par = {k: nm.parameters[k].values[0] for k in nm.parameters.columns}
    ctx.check(nm.horizon == cfg['h'] + 1, 'horizon', f'{nm.horizon}')
    ctx.check({k: int(v) for k, v in nm.architecture.items()} == {'PV': 1, **{k: int(k in cfg['parts']) for k in ('battery', 'grid', 'genset')}}, 'architecture', f'{nm.architecture}')
    load, pv = nm.get_data()
    ctx.same_array(series_of(load), mix.loads[0], 'load series')
    ctx.same_array(series_of(pv), mix.pvs[0], 'pv series')
    ctx.close(par['cost_loss_load'], mix.loss_cost, 'loss load cost')
    ctx.close(par['cost_overgeneration'], mix.over_cost, 'overgeneration cost')
    co2 = [x['cost_per_unit_co2'] for x in [g for g, _ in mix.grids] + mix.gens]
    ctx.close(par['cost_co2'], ctx.sum(co2) / max(len(co2), 1), 'co2 cost')
    ctx.close(nm.load, mix.loads[0][0], 'current load')
    ctx.close(nm.pv, mix.pvs[0][0], 'current pv')
    for p, c in mix.bats:
        b = nm.battery
        cap = p['max_capacity']
        ctx.close(b.capacity, cap, 'battery capacity')
        c = mix.mg.modules['battery'][0].current_charge
        ctx.close(b.soc * cap, c, 'state of charge')
        ctx.close(b.soc_min * cap, p['min_capacity'], 'minimum state of charge')
        ctx.close(b.soc_max, 1.0, 'maximum state of charge')
        ctx.close(b.p_charge_max, p['max_charge'], 'charging power')
        ctx.close(b.p_discharge_max, p['max_discharge'], 'discharging power')
        ctx.close(b.efficiency, p['efficiency'], 'efficiency')
        ctx.close(b.cost_cycle, p['battery_cost_cycle'], 'cost of cycling')
        ctx.check(b.capa_to_discharge <= (c - p['min_capacity']) * p['efficiency'] + 0.0501, 'initial capacity to discharge (rounded to 0.1)')
        ctx.check(b.capa_to_charge <= (cap - c) / p['efficiency'] + 0.0501, 'initial capacity to charge (rounded to 0.1)')
    for p, rows in mix.grids:
        ctx.close(nm.grid.power_import, p['max_import'], 'import limit')
        ctx.close(nm.grid.power_export, p['max_export'], 'export limit')
        for i, df in enumerate((nm._grid_price_import, nm._grid_price_export, nm._grid_co2, nm._grid_status_ts)):
            ctx.same_array(series_of(df), [r[i] for r in rows], f'grid series {i}')
    for p in mix.gens:
        g = nm.genset
        ctx.close(g.rated_power * g.p_max, p['running_max_production'], 'maximum production')
        ctx.close(g.rated_power * g.p_min, p['running_min_production'], 'minimum production')
        ctx.close(g.fuel_cost, p['genset_cost'], 'genset cost')
        ctx.close(g.co2, p['co2_per_unit'], 'genset co2')


@harness('C19', 'to_modular', quick=[{'parts': p, 'h': h} for p, h in ((['battery', 'grid'], 2), (['genset'], 1), (['grid', 'genset'], 1), (['battery'], 1))] + [{'parts': ['battery'], 'h': 1, 'after': True}], thorough=[{'parts': ['battery', 'grid', 'genset'], 'h': 3}],
         bounds='legacy microgrids of the listed parts, series of 3 steps, any parameters (maximum state of charge 1), at the start and after a step')
def to_modular(ctx, cfg):
    from pymgrid import Microgrid
    lg = Legacy(ctx, cfg['parts'], 3, cfg['h'], status=True, free=1 if 'grid' in cfg['parts'] else 2)
    p = lg.p
    if 'battery' in cfg['parts']:
        ctx.assume(p['battery_soc_max'] == 1)
    soc = p.get('battery_soc_0')
    if cfg.get('after'):
        ctx.must_not_raise('step', lg.mg.run, {'battery_charge': ctx.real('charge', 0, 100), 'battery_discharge': 0.0})
        soc = lg.mg.battery.soc
    mg = ctx.must_not_raise('conversion', Microgrid.from_nonmodular, lg.mg)
    names = {n: len(l) for n, l in mg.modules.iterdict()}
    ctx.check(names == {n: 1 for n in ['load', 'unbalanced_energy', 'PV'] + cfg['parts']}, 'modules', f'{names}')
    ctx.check(mg.get_forecast_horizon() == cfg['h'] - 1, 'forecast horizon')
    ctx.same_array(abs(mg.modules['load'][0].time_series), lg.load, 'load series')
    ctx.close(mg.modules['load'][0].current_load, lg.load[0], 'current load')
    ctx.same_array(mg.modules['PV'][0].time_series, lg.pv, 'pv series')
    u = mg.modules['unbalanced_energy'][0]
    ctx.close(u.loss_load_cost, p['cost_loss_load'], 'loss load cost')
    ctx.close(u.overgeneration_cost, p['cost_overgeneration'], 'overgeneration cost')
    if 'battery' in cfg['parts']:
        b = mg.modules['battery'][0]
        cap = p['battery_capacity']
        for got, want, what in ((b.max_capacity, cap, 'capacity'), (b.min_capacity, cap * p['battery_soc_min'], 'minimum'), (b.current_charge, cap * soc, 'charge'), (b.soc, soc, 'state of charge'),
                                (b.max_charge, p['battery_power_charge'], 'charging power'), (b.max_discharge, p['battery_power_discharge'], 'discharging power'),
                                (b.efficiency, p['battery_efficiency'], 'efficiency'), (b.battery_cost_cycle, p['battery_cost_cycle'], 'cost of cycling')):
            ctx.close(got, want, f'battery {what}')
    if 'grid' in cfg['parts']:
        g = mg.modules['grid'][0]
        ctx.close(g.max_import, p['grid_power_import'], 'import limit')
        ctx.close(g.max_export, p['grid_power_export'], 'export limit')
        ctx.close(g.cost_per_unit_co2, p['cost_co2'], 'grid co2 cost')
        ctx.same_array(g.time_series, [x for r in lg.rows for x in r], 'grid series')
    if 'genset' in cfg['parts']:
        g = mg.modules['genset'][0]
        r = p['genset_rated_power']
        for got, want, what in ((g.running_max_production, r * p['genset_pmax'], 'maximum'), (g.running_min_production, r * p['genset_pmin'], 'minimum'), (g.genset_cost, p['fuel_cost'], 'cost'),
                                (g.co2_per_unit, p['genset_co2'], 'co2'), (g.cost_per_unit_co2, p['cost_co2'], 'co2 cost'), (g.start_up_time, 0, 'start-up time'), (g.wind_down_time, 0, 'wind-down time')):
            ctx.close(got, want, f'genset {what}')


@harness('C19', 'round_trip', quick=[{'parts': ['battery'], 'h': 0}, {'parts': ['grid'], 'h': 1}, {'parts': ['genset'], 'h': 0}], thorough=[{'parts': ['battery', 'grid'], 'h': 1}, {'parts': ['grid', 'genset'], 'h': 0}],
         bounds='microgrids of load, pv and the listed parts, converted there and back: the same control for one step (any control) has the same effect and reward; the original is not modified')
def round_trip(ctx, cfg):
    mix = mods(ctx, cfg['parts'], 3, True, cfg['h'])
    nm = ctx.must_not_raise('conversion', mix.mg.to_nonmodular)
    back = ctx.must_not_raise('conversion', nm.to_modular)
    c = mix.control(0)
    _, r, d, info = mix.mg.run(copy.deepcopy(c), normalized=False)
    _, r2, d2, info2 = ctx.must_not_raise('run', back.run, copy.deepcopy(c), normalized=False)
    ctx.check(bool(d) == bool(d2), 'done')
    for n in info:
        m = {'pv': 'PV', 'balancing': 'unbalanced_energy'}.get(n, n)
        ctx.close(net(info[n][0]), net(info2[m][0]), f'energy of {n}')
    ctx.close(r, r2, 'reward')


@harness('C19', 'refused', quick=[{'parts': ['battery', 'battery']}, {'parts': ['grid', 'grid']}, {'parts': ['cell', 'battery']}],
         bounds='microgrids that a non-modular microgrid cannot represent are refused')
def refused(ctx, cfg):
    mix = common.Mix(ctx, ['load', 'pv'] + cfg['parts'], 2, free=1)
    _, exc = ctx.raises(mix.mg.to_nonmodular)
    ctx.check(isinstance(exc, ValueError), 'several modules of a kind are refused', f'{exc!r}')
