"""C24 randomly generated microgrids are well formed."""
import os
import shutil
import tempfile

from symx.registry import harness

T = 3                       # rows of the data files
STEPS = 2                   # steps of a year in the grid's status series
FOLDERS = ('load', 'pv', 'co2', 'wind')


class Data:
    """Data folders whose files hold arbitrary values."""

    def __init__(self, ctx, peak):
        import pandas as pd
        self.pd, self.real, self.read = pd, pd.read_csv, []
        self.path = tempfile.mkdtemp(prefix='gen_')
        self.values = {}
        for f in FOLDERS:
            os.makedirs(f'{self.path}/data/{f}')
            with open(f'{self.path}/data/{f}/a.csv', 'w') as h:
                h.write('x\n' + '0.5\n' * T)
            self.values[f] = [ctx.real(f'{f}{t}', 0, 1) for t in range(T)]
            if f in ('load', 'pv'):
                at = peak if f == 'load' else 0
                ctx.assume(ctx.and_(self.values[f][at] >= 0.01, *[v <= self.values[f][at] for v in self.values[f]]))

    def __enter__(self):
        def read_csv(path, *a, **k):
            f = os.path.basename(os.path.dirname(str(path)))
            self.read.append(f)
            return self.pd.DataFrame({f: list(self.values[f])})
        self.pd.read_csv = read_csv
        return self

    def __exit__(self, *a):
        self.pd.read_csv = self.real
        shutil.rmtree(self.path)


def near(ctx, x, want, tol, label):
    """x is want rounded"""
    ctx.check(ctx.and_(want - tol <= x, x <= want + tol), label)


def tariff(scenario, hour):
    if scenario == 1:
        return 0.59 if 12 <= hour < 18 else 0.22 if hour < 8 or hour >= 21 else 0.29
    return 0.08 if hour < 5 or 14 <= hour < 17 else 0.11


@harness('C24', 'create', quick=[{'peak': i} for i in range(T)],
         bounds=f'any data files of {T} rows with a positive peak, any random draws; {STEPS} grid steps in a year')
def create(ctx, cfg):
    ctx.use_random()
    from pymgrid.MicrogridGenerator import MicrogridGenerator
    with Data(ctx, cfg['peak']) as d:
        gen = MicrogridGenerator(nb_microgrid=1, path=d.path)
        gen.timestep = 8760 / STEPS
        ctx.must_not_raise('generation', gen.generate_microgrid, modular=False)
        ctx.check(len(gen.microgrids) == 1, 'as many microgrids as asked for')
        examine(ctx, d, gen.microgrids[0], cfg['peak'])


def examine(ctx, d, mg, peak):
    arch, p = mg.architecture, {k: v[0] for k, v in mg.parameters.items()}
    ctx.check(arch['PV'] == 1 and arch['battery'] == 1, 'pv and a battery')
    ctx.check(arch['grid'] == 1 or arch['genset'] == 1, 'a grid or a genset')
    # load and pv
    load, pv = [mg._load_ts.iloc[i, 0] for i in range(T)], [mg._pv_ts.iloc[i, 0] for i in range(T)]
    size = p['load']
    ctx.within(100, size, 100000, 'load size')
    ctx.close(load[peak], size, 'the peak of the load is its size')
    top = p['PV_rated_power']
    ctx.le(0.3 * size, pv[0], 'pv penetration at least 30 %')
    ctx.le(pv[0], 1.5 * size, 'pv penetration at most 150 %')
    near(ctx, top, pv[0], 0.01, 'pv peaks at its rated power')
    for n, got, raw, at in (('load', load, d.values['load'], peak), ('pv', pv, d.values['pv'], 0)):
        for i in range(T):
            ctx.close(got[i] * raw[at], raw[i] * got[at], f'{n} keeps the shape of the data')
    ctx.check(mg._load_ts.shape[0] == T and mg._pv_ts.shape[0] == T, 'all of the data is used')
    # battery
    mean = ctx.sum(load) / T
    cap = p['battery_capacity']
    ctx.le(3 * mean, cap, 'battery of at least 3 hours of mean load')
    ctx.le(cap, 5 * mean + 1, 'battery of at most 5 hours of mean load')
    for n in ('charge', 'discharge'):
        ctx.within(cap / 4, p[f'battery_power_{n}'], cap / 4 + 1, f'a full {n} takes 4 hours')
    ctx.check(ctx.and_(0 <= p['battery_soc_min'], p['battery_soc_min'] < p['battery_soc_max'], p['battery_soc_max'] <= 1), 'limits of the state of charge')
    ctx.within(p['battery_soc_min'], p['battery_soc_0'], p['battery_soc_max'], 'initial state of charge within its limits')
    ctx.check(0 < p['battery_efficiency'] <= 1, 'battery efficiency')
    ctx.check(p['battery_cost_cycle'] >= 0, 'cycling cost')
    # initial state
    st = mg.get_updated_values()
    ctx.close(st['battery_soc'], p['battery_soc_0'], 'initial state of charge')
    near(ctx, st['load'], load[0], 0.06, 'initial load')
    near(ctx, st['pv'], pv[0], 0.06, 'initial pv')
    ctx.close(mg.load, load[0], 'current load')
    ctx.close(mg.pv, pv[0], 'current pv')
    inside = (p['battery_soc_0'] - p['battery_soc_min']) * cap
    near(ctx, st['capa_to_discharge'], inside * p['battery_efficiency'], 0.06, 'initial discharge capability')
    if arch['genset'] == 1:
        ctx.le(size, p['genset_rated_power'] * p['genset_pmax'], 'the genset can carry the peak load')
        ctx.le(p['genset_rated_power'] * 0.9, size + 0.9, 'the genset is not larger than needed')
        ctx.check(ctx.and_(0 <= p['genset_pmin'], p['genset_pmin'] < p['genset_pmax'], p['genset_pmax'] <= 1), 'genset limits')
    else:
        ctx.check('genset_rated_power' not in p, 'no genset parameters without a genset')
    if arch['grid'] == 1:
        for n in ('import', 'export'):
            ctx.within(2 * size - 1, p[f'grid_power_{n}'], 2 * size, f'grid {n} limit of twice the peak load')
        status = [mg._grid_status_ts.iloc[i, 0] for i in range(mg._grid_status_ts.shape[0])]
        ctx.check(len(status) >= STEPS, 'grid status for every step')
        weak = p['grid_weak']
        if weak == 1:
            ctx.check(arch['genset'] == 1, 'a weak grid comes with a genset')
            ctx.check(ctx.and_(*[ctx.or_(s == 0, s == 1) for s in status]), 'status 0 or 1')
        else:
            ctx.check(all(s == 1 for s in status), 'a strong grid is always available')
        imp, exp = [x.iloc[:, 0].tolist() for x in (mg._grid_price_import, mg._grid_price_export)]
        ctx.check(len(imp) >= 8760 and len(exp) >= 8760, 'a price for every hour of the year')
        ctx.check(any(all(x == tariff(s, i % 24) for i, x in enumerate(imp)) for s in (1, 2)), 'import prices follow one of the tariffs')
        ctx.check(all(x == 0 for x in exp), 'nothing is paid for exports')
        ctx.same_array([mg._grid_co2.iloc[i, 0] for i in range(T)], d.values['co2'], 'grid co2')
        ctx.close(st['grid_status'], status[0], 'initial grid status')
        ctx.close(st['grid_price_import'], imp[0], 'initial import price')
        ctx.close(st['grid_price_export'], exp[0], 'initial export price')
        ctx.close(st['grid_co2'], d.values['co2'][0], 'initial co2')
    else:
        ctx.check('grid_power_import' not in p, 'no grid parameters without a grid')
    # one control, production and cost entry for each component
    for part, keys, costs in (('battery', ('battery_charge', 'battery_discharge'), ('battery',)), ('grid', ('grid_import', 'grid_export'), ('grid_import', 'grid_export')), ('genset', ('genset',), ('genset',))):
        for k in keys:
            ctx.check((k in mg._df_record_actual_production) == (arch[part] == 1), f'production record of {k}')
            ctx.check((k in mg._df_record_control_dict) == (arch[part] == 1), f'control record of {k}')
        for k in costs:
            ctx.check((k in mg._df_record_cost) == (arch[part] == 1), f'cost record of {k}')


@harness('C24', 'outages', quick=[{'n': 5, 'd': 1}, {'n': 6, 'd': 3}, {'n': 8, 'd': 7}], thorough=[{'n': 9, 'd': d} for d in range(1, 8)],
         bounds='years of n steps, outages of d steps, any outage rate and draws')
def outages(ctx, cfg):
    ctx.use_random()
    from pymgrid.MicrogridGenerator import MicrogridGenerator
    n, d = cfg['n'], cfg['d']
    rate = ctx.real('outages_per_day', -5, 30)
    with Data(ctx, 0) as data:
        gen = MicrogridGenerator(nb_microgrid=1, path=data.path)
        ts = ctx.must_not_raise('outages', gen._generate_weak_grid_profile, rate, d * 8760 / n, n)
    s = [int(x) for x in ts.iloc[:, 0].tolist()]
    ctx.check(len(s) >= n, 'a status for every step')
    ctx.check(all(x in (0, 1) for x in s), 'status 0 or 1')
    ctx.check(ctx.implies(rate <= 0, all(s)), 'no outages at rate 0')
    ctx.check(ctx.implies(rate >= 24, not any(s)), 'always out at 24 outages a day')
    i = 0
    while i < len(s):
        j = i
        while j < len(s) and s[j] == 0:
            j += 1
        if i > 1:
            ctx.check(j == i or j - i >= d, 'an outage lasts at least its duration')
        i = max(j, i + 1)
