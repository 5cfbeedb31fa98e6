"""C25 sampled scenarios and stochastic control."""
import contextlib
import io

from symx.registry import harness


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def bits(ctx, n):
    out = []
    for i in range(n):
        x = ctx.real(f'status{i}', 0, 1)
        ctx.assume(ctx.or_(x == 0, x == 1))
        out.append(x)
    return out


def series(ctx, values, form):
    import pandas as pd
    return pd.Series(list(values), name='grid') if form == 'series' else pd.DataFrame({'grid': list(values)})


@harness('C25', 'grid', quick=[{'n': 4, 'dist': d, 'form': f} for d in ('markov', 'naive') for f in ('series', 'frame')], thorough=[{'n': 6, 'dist': d, 'form': 'series'} for d in ('markov', 'naive')],
         bounds='any grid status series of 4 steps (thorough: 6), any draws')
def grid(ctx, cfg):
    from pymgrid.utils.DataGenerator import NoisyGridData
    rnd = ctx.use_random(fork_ints=True)
    n = cfg['n']
    s = bits(ctx, n)
    ng = ctx.must_not_raise('construction', NoisyGridData, series(ctx, s, cfg['form']), dist_type=cfg['dist'])
    got = ctx.must_not_raise('sampling', ng.sample)
    ctx.check(len(got) == n, 'one status per step')
    v = [got.iloc[i] for i in range(n)]
    ctx.check(all(x in (0, 1) for x in v), 'statuses are 0 or 1')
    told = len(rnd.probabilities) == n          # otherwise drawn in another way than by weighted choices
    if cfg['dist'] == 'naive':
        up = ctx.sum(s) / n
        for i in range(n):
            if told:
                p = rnd.probabilities[i]
                ctx.close(p[1], up, 'each step is up as often as in the data')
                ctx.close(p[0], 1 - up, 'each step is down as often as in the data')
            ctx.check((up if v[i] else 1 - up) > 0, 'only statuses of the data')
        return
    first = ctx.sum(s[:-1]) / (n - 1)
    if told:
        ctx.close(rnd.probabilities[0][1], first, 'the first status is up as often as in the data')
    for i in range(1, n):
        prev = int(v[i - 1])
        frm = [x if prev else 1 - x for x in s[:-1]]            # steps of the data with that status
        seen = ctx.sum(frm)
        to_up = ctx.sum([f * y for f, y in zip(frm, s[1:])])
        ctx.check(ctx.or_(seen < 0.5, (to_up if v[i] else seen - to_up) > 0.5), 'only transitions of the data')
        if told:
            p = rnd.probabilities[i]
            ctx.close(p[1] * seen, to_up, 'transition to up as often as in the data')
            ctx.close(p[0] + p[1], 1.0, 'transition probabilities sum to one')


@harness('C25', 'grid_invalid', quick=[{'form': f} for f in ('series', 'frame')], bounds='any status series of 3 steps with a value other than 0 and 1 is rejected')
def grid_invalid(ctx, cfg):
    from pymgrid.utils.DataGenerator import NoisyGridData
    s = [ctx.real(f'status{i}', -2, 2) for i in range(3)]
    _, e = ctx.raises(NoisyGridData, series(ctx, s, cfg['form']))
    ok = ctx.and_(*[ctx.or_(x == 0, x == 1) for x in s])
    ctx.check(ctx.eq_(ok, e is None) if not isinstance(ok, bool) else ok == (e is None), 'only statuses 0 and 1 are accepted')
    ctx.check(e is None or isinstance(e, ValueError), 'rejected with a ValueError')


@harness('C25', 'load', quick=[{'at': [[0, 13]]}, {'at': [[1, 23]]}, {'at': [[6, 0]]}, {'at': [[3, 5]], 'two': True}, {'at': [[6, 7]], 'single': True}], thorough=[{'at': [[1, 23], [2, 0]]}],
         bounds='days of load in which one or two weekday-hours have any values (three equally spaced ones, two any ones checked for their mean and sign, or a single one); any draws and any scale of the variance')
def load(ctx, cfg):
    import pandas as pd
    from pymgrid.utils.DataGenerator import NoisyLoadData
    weeks = 1 if cfg.get('single') else 2 if cfg.get('two') else 3
    days = 7 * (weeks - 1) + max(d for d, _ in cfg['at']) + 1
    base = [[10.0 + d % 7 + h / 8 for h in range(24)] for d in range(days)]
    known = {}
    for i, (d, h) in enumerate(cfg['at']):
        if weeks == 3:
            m, k = ctx.real(f'mean{i}', 0, 1000), ctx.real(f'spread{i}', 0, 1000)
            ctx.assume(k <= m)
            base[d][h], base[d + 7][h], base[d + 14][h] = m + k, m - k, m
        else:
            for w in range(weeks):
                base[d + 7 * w][h] = ctx.real(f'load{i}_{w}', 0, 1000)
            m, k = ctx.sum([base[d + 7 * w][h] for w in range(weeks)]) / weeks, None if weeks == 2 else 0.0
        known[d, h] = m, k
    flat = [x for day in base for x in day]
    scale = ctx.real('scale', 0, 4)
    rnd = ctx.use_random()
    nl = NoisyLoadData(load_data=pd.DataFrame({'load': list(flat)}))
    got = ctx.must_not_raise('sampling', nl.sample, load_variance_scale=scale)
    ctx.check(list(got.columns) == ['load'] and len(got) == len(flat), 'one load per step')
    ctx.check(len(rnd.draws) >= weeks * len(known), 'a draw for every value that scatters')
    low = 10.0
    for d, h in cfg['at']:
        for w in range(weeks):
            low = ctx.min(low, base[d + 7 * w][h])
    # which draw belongs to which value is the implementation's choice; by default they are in order
    expected = lambda d, h: rnd.draws[24 * d + h] if len(rnd.draws) == len(flat) else None
    ordered = any(rnd.used(got['load'].iloc[24 * d + h]) for d in range(days) for h in range(24) if (d % 7, h) in known)
    for d in range(days):
        for h in range(24):
            if (d % 7, h) in known:
                u = rnd.used(got['load'].iloc[24 * d + h])
                ordered = ordered and (not u or any(expected(d, h) is z for z in u))
    for d in range(days):
        for h in range(24):
            x = got['load'].iloc[24 * d + h]
            if (d % 7, h) not in known:
                ctx.close(x, 10.0 + d % 7 + h / 8, 'the load of the weekday and hour')
                continue
            m, k = known[d % 7, h]
            ctx.check(x >= 0, 'loads are not negative')
            e = expected(d, h)
            near, zs = [e] if not ctx.symbolic and e is not None else rnd.used(x), [e] if ordered else []
            if k is None:
                ctx.check(ctx.or_(abs(x - low) <= 1e-9, *[ctx.or_(ctx.and_(z >= 0, x >= m - 1e-9), ctx.and_(z <= 0, x <= m + 1e-9)) for z in near]), 'scattered around the mean of the weekday and hour')
                continue
            if weeks == 1:
                ctx.close(x, m, 'the load of the only such weekday and hour')
                continue
            drawn = lambda z: m + scale * k * z
            is_low = ctx.or_(abs(x - low) <= 1e-9)
            if zs:
                is_low = ctx.and_(is_low, drawn(zs[0]) <= 1e-6)
            ctx.check(ctx.or_(is_low, *[abs(x - drawn(z)) <= 1e-6 for z in near]), 'mean plus scaled standard deviation of the weekday and hour, or the smallest load when negative')


class Fit:
    """Stands for the quantile regression: any coefficients."""

    def __init__(self, ctx, log):
        self.ctx, self.log = ctx, log

    def __call__(self, y, x):
        self.y, self.x = y, x
        return self

    def fit(self, q):
        import pandas as pd
        k = len(self.log)
        c = pd.Series([self.ctx.real(f'coef{k}_{n}', -1000, 1000) for n in self.x.columns], index=self.x.columns, dtype=object)
        self.log.append((q, c))

        class R:
            params = c
        return R


class Parabola:
    """scipy's interp1d through three points."""

    def __init__(self, x, y, kind=None, bounds_error=True, fill_value=0, **k):
        assert len(x) == 3 and kind in ('quadratic', 2)
        self.x, self.y, self.fill = [float(v) for v in x], list(y), fill_value

    def __call__(self, at):
        import numpy as np
        out = []
        for t in at:
            t = float(t)
            if not self.x[0] <= t <= self.x[2]:
                out.append(float(self.fill))
                continue
            v = 0.0
            for i in range(3):
                w = 1.0
                for j in range(3):
                    if j != i:
                        w *= (t - self.x[j]) / (self.x[i] - self.x[j])
                v = v + w * self.y[i]
            out.append(v)
        a = np.empty(len(out), dtype=object)
        a[:] = out
        return a


@contextlib.contextmanager
def fitting(ctx):
    import scipy.interpolate as si
    import statsmodels.regression.quantile_regression as qr
    from pymgrid.utils import DataGenerator as dg
    log = []
    new = {id(qr.QuantReg): Fit(ctx, log), id(si.interp1d): Parabola}
    old = [(m, n, v) for m in (qr, si, dg) for n, v in list(vars(m).items()) if id(v) in new]
    for m, n, v in old:
        setattr(m, n, new[id(v)])
    try:
        yield log
    finally:
        for m, n, v in old:
            setattr(m, n, v)


def pv_data(ctx, dawn, dusk, days=1):
    return [[ctx.real(f'pv{d}_{h}', 0, 1000, lo_open=True) if dawn < h < dusk else 0.0 for h in range(24)] for d in range(days)]


@harness('C25', 'pv', quick=[{'noise': 'uniform', 'dawn': 6, 'dusk': 9, 'days': 1}, {'noise': 'triangular', 'dawn': 10, 'dusk': 12, 'days': 1}, {'noise': 'uniform', 'dawn': 7, 'dusk': 9, 'days': 2},
                             {'noise': 'uniform', 'dawn': 11, 'dusk': 14, 'days': 1, 'push': 'peak'}, {'noise': 'uniform', 'dawn': 11, 'dusk': 13, 'days': 1, 'push': 'individual'}],
         bounds='one or two days with any pv values in up to two daylight hours, any fitted curves (the upper above the lower), any draws and noise parameters')
def pv(ctx, cfg):
    import math
    import pandas as pd
    from pymgrid.utils.DataGenerator import NoisyPVData
    dawn, dusk, days, push = cfg['dawn'], cfg['dusk'], cfg['days'], cfg.get('push')
    data = pv_data(ctx, dawn, dusk, days)
    lo, hi = ctx.real('lower', 0, 1), ctx.real('upper', 0, 1)
    if cfg['noise'] == 'triangular':
        ctx.assume(ctx.and_(lo <= 0.4, hi >= 0.6))
    else:
        ctx.assume(lo <= hi)
    ratio, std = ctx.real('push', 0, 1), ctx.real('std', 0, 0.5)
    rnd = ctx.use_random()
    with fitting(ctx) as log:
        np_ = NoisyPVData(pv_data=pd.DataFrame({'GH illum (lx)': [x for d in data for x in d]}))
        mid = (dawn + dusk) / 2
        ctx.must_not_raise('preparing', np_.data_munge)
        ctx.must_not_raise('fitting', np_.max_min_curve_interpolate)
        curve = {}
        for q, c in log:
            curve[q] = [c['ones'] + c['cos1x'] * math.cos(2 * math.pi / 8760 * 0.8 * (24 * d + mid - 173 * 24)) for d in range(days)]
        upper, lower = curve[max(curve)], curve[min(curve)]
        for d in range(days):
            ctx.assume(ctx.and_(lower[d] < upper[d] - 0.1, ctx.or_(upper[d] > 0.1, upper[d] < -0.1)))
            if days > 1:
                ctx.assume(lower[d] > 0)
        got = ctx.must_not_raise('sampling', np_.sample, noise_types=(cfg['noise'], 'gaussian'), noise_params=({'lower': lo, 'upper': hi}, {'std_ratio': std}),
                                 push_peak_val=push == 'peak', push_peak_ratio=ratio, push_individual_vals=push == 'individual', push_individual_ratio=ratio)
    ctx.check(list(got.columns) == ['pv'] and len(got) == 24 * days, 'one value per step')
    ctx.check(len(rnd.ranges) == days, 'one peak is drawn per day')
    z = {}
    for d in range(days):
        a, b, peak = rnd.ranges[d]
        neg, pos = ctx.min(-lower[d], -upper[d]), ctx.max(-lower[d], -upper[d])
        both = upper[d] < 0
        least = ctx.ite(both, neg, ctx.max(lower[d], 0.0))
        most = ctx.ite(both, pos, upper[d])
        ctx.close(a, least + lo * (most - least), 'lowest peak of the day')
        ctx.close(b, most - (1 - hi) * (most - least), 'highest peak of the day')
        if push == 'peak':
            day = data[d][dawn + 1:dusk]
            top = ctx.max(*day) if len(day) > 1 else day[0]
            peak = peak + ratio * (top - peak)
        for h in range(24):
            x = got['pv'].iloc[24 * d + h]
            ctx.check(x >= 0, 'pv is not negative')
            if not dawn < h < dusk:
                ctx.close(x, 0.0, 'no pv at night')
                continue
            shape = 4.0 * (h - dawn) * (dusk - h) / (dusk - dawn) ** 2 * peak
            zs = rnd.used(x) if ctx.symbolic else []
            if not zs and len(rnd.draws) == 24 * days:         # cut off at zero: the draw of the hour, in either order
                zs = [rnd.draws[h * days + d]] + ([rnd.draws[24 * d + h]] if days > 1 else [])
            noisy = [ctx.max(0.0, shape * (1 + std * z)) for z in zs] or [0.0]
            if push == 'individual':
                noisy = [v + ratio * (data[d][h] - v) for v in noisy]
            ctx.check(ctx.or_(*[abs(x - v) <= 1e-6 * (1 + abs(v)) for v in noisy]), 'pv of the hour: the parabola of the day with its noise')
    ctx.check(len(rnd.draws) >= days * (dusk - dawn - 1), 'a draw for every value')


class Mg:
    pass


def check_noon(ctx, rnd, x, peak, std, share, actual, at, label):
    """pv at the peak of the day; pv may be sampled before or after the load."""
    zs = rnd.used(x) if ctx.symbolic else []
    if not zs and len(rnd.draws) == 3 * 48:
        zs = [rnd.draws[at + 12], rnd.draws[at + 36]]
    vs = [ctx.max(0.0, peak * (1 + std * z)) for z in zs] or [0.0]
    vs = [v + share * (actual - v) for v in vs]
    ctx.check(ctx.or_(*[abs(x - v) <= 1e-6 * (1 + abs(v)) for v in vs]), label)


@harness('C25', 'scenarios', quick=[{'grid': 1}, {'grid': 0}, {'grid': 1, 'preset': 85}],
         bounds='a microgrid with one day of data (any pv in one hour, any load in one hour, any grid status in one hour): a forecast and two scenarios of it, any draws')
def scenarios(ctx, cfg):
    import pandas as pd
    from pymgrid.utils.DataGenerator import SampleGenerator
    mg = Mg()
    mg.architecture = {'grid': cfg['grid'], 'battery': 1, 'genset': 0, 'PV': 1}
    pv = pv_data(ctx, 11, 13)[0]
    ld = [20.0 + h for h in range(24)]
    ld[4] = ctx.real('load4', 0, 1000)
    st = [1.0] * 24
    mg._pv_ts, mg._load_ts, mg._grid_status_ts = pd.DataFrame({'GH illum (lx)': list(pv)}), pd.DataFrame({'x': list(ld)}), pd.DataFrame({'y': list(st)}) if cfg['grid'] else []
    rnd = ctx.use_random(fork_ints=True)
    with fitting(ctx) as log:
        gen = ctx.must_not_raise('forecasting', quiet, SampleGenerator, mg, **({'preset_to_use': cfg['preset']} if 'preset' in cfg else {}))
        _, _, peak = rnd.ranges[0]
        both = ctx.must_not_raise('sampling', quiet, gen.sample_from_forecasts, n_samples=2)
    f = gen.forecasts
    ctx.check(sorted(f.columns) == ['grid', 'load', 'pv'] and len(f) == 24, 'a forecast of every series for every step')
    ctx.check(len(both) == 2 and gen.samples is both, 'as many scenarios as asked for')
    ctx.check(len(rnd.ranges) == 1, 'scenarios share the daily peaks of the forecast')
    std, share = (0.25, 1.0) if 'preset' in cfg else (0.05, 0.0)
    check_noon(ctx, rnd, f['pv'].iloc[12], peak, std, share, pv[12], 0, 'forecast of the pv')
    for h in range(24):
        ctx.close(f['load'].iloc[h], ld[h], 'forecast of the load')
        ctx.close(f['grid'].iloc[h], float(cfg['grid']), 'forecast of the grid status')
        if h != 12:
            ctx.close(f['pv'].iloc[h], 0.0, 'no pv at night')
    u = gen.underlying_data
    for h in range(24):
        ctx.close(u['load'].iloc[h], ld[h], 'load of the data')
        ctx.close(u['pv'].iloc[h], pv[h], 'pv of the data')
        ctx.close(u['grid'].iloc[h], float(cfg['grid']), 'grid status of the data')
    for s in both:
        ctx.check(sorted(s.columns) == ['grid', 'load', 'pv'] and len(s) == 24, 'a scenario of every series for every step')
        ctx.check(not s.isnull().to_numpy().any(), 'no value is missing')
        for h in range(24):
            ctx.close(s['load'].iloc[h], ld[h], 'load of the scenario')
            ctx.close(s['grid'].iloc[h], float(cfg['grid']), 'grid status of the scenario')
            if h != 12:
                ctx.close(s['pv'].iloc[h], 0.0, 'no pv at night')
        ctx.check(s['pv'].iloc[12] >= 0, 'pv is not negative')
    for k, s in enumerate(both):
        check_noon(ctx, rnd, s['pv'].iloc[12], peak, 0.05, 0.0, 0.0, 48 * (k + 1), 'pv of the scenario')


def outputs(ctx, costs):
    from pymgrid.algos.Control import HorizonOutput
    out = []
    for i, c in enumerate(costs):
        o = HorizonOutput.__new__(HorizonOutput)
        o.cost, o.first_dict, o.tag = c, {'battery_charge': 0.0, 'battery_discharge': 0.0}, i
        out.append(o)
    return out


@harness('C25', 'percentile', quick=[{'n': n} for n in (1, 2, 3)], thorough=[{'n': 4}], bounds='1 to 3 (thorough: 4) plans of any costs, any percentile in [0,1]')
def percentile(ctx, cfg):
    from pymgrid.algos.saa.saa import SampleAverageApproximation as SAA
    n = cfg['n']
    costs = [ctx.real(f'cost{i}', -1000, 1000) for i in range(n)]
    saa = SAA.__new__(SAA)
    step = ctx.const_int('percentile', 0, 8)
    p = step / 8
    got = ctx.must_not_raise('choosing a plan', quiet, saa.determine_optimal_actions, outputs(ctx, costs), percentile=p)
    k = min(int(n * p), n - 1)                  # rank of the plan
    lower = ctx.sum([ctx.ite(c < got.cost, 1.0, 0.0) for c in costs])
    upto = ctx.sum([ctx.ite(c <= got.cost, 1.0, 0.0) for c in costs])
    ctx.check(ctx.and_(lower <= k, upto >= k + 1), 'the plan at the percentile of the costs')
    ctx.check(any(got.cost is c for c in costs) or not ctx.symbolic, 'one of the plans')


@harness('C25', 'horizon_cost', quick=[{'parts': ['battery', 'grid']}, {'parts': ['battery', 'genset']}, {'parts': ['battery', 'grid', 'genset'], 'at': 1}],
         bounds='any plan of 2 steps, any prices; at the first or a later step')
def horizon_cost(ctx, cfg):
    from harness.h_legacy import Legacy
    from pymgrid.algos.Control import HorizonOutput
    at = cfg.get('at', 0)
    lg = Legacy(ctx, cfg['parts'], 2 + at + 1, 2)
    plan = [{n: ctx.real(f'{n}_{t}', 0, 1000) for n in ('loss_load', 'genset', 'grid_import', 'grid_export')} for t in range(2)]
    got = ctx.must_not_raise('costing a plan', HorizonOutput, plan, lg.mg, at)
    want = 0.0
    for t in range(2):
        want = want + plan[t]['loss_load'] * lg.p['cost_loss_load']
        if 'genset' in cfg['parts']:
            want = want + plan[t]['genset'] * lg.p['fuel_cost']
        if 'grid' in cfg['parts']:
            want = want + plan[t]['grid_import'] * lg.rows[at + t][0] - plan[t]['grid_export'] * lg.rows[at + t][1]
    ctx.close(got.cost, want, 'cost of the plan')
    ctx.check(got.first_dict is plan[0] or got.first_dict == plan[0], 'the control is the first of the plan')


@harness('C25', 'horizon_order', quick=[{'parts': ['battery', 'grid']}, {'parts': ['battery', 'genset']}], bounds='any two plans of one step at any prices')
def horizon_order(ctx, cfg):
    from harness.h_legacy import Legacy
    from pymgrid.algos.Control import HorizonOutput
    lg = Legacy(ctx, cfg['parts'], 3, 1)
    a, b = (HorizonOutput([{n: ctx.real(f'{n}_{i}', 0, 1000) for n in ('loss_load', 'genset', 'grid_import', 'grid_export')}], lg.mg, 0) for i in 'ab')
    for name, f, want in (('<', lambda: a < b, a.cost < b.cost), ('>', lambda: a > b, a.cost > b.cost), ('==', lambda: a == b, a.cost == b.cost)):
        got = ctx.must_not_raise(f'plans {name}', f)
        ctx.check(ctx.and_(ctx.implies(got, want), ctx.implies(want, got)), f'plans compare by their cost: {name}')
    _, exc = ctx.raises(lambda: a < 1.0)
    ctx.check(isinstance(exc, TypeError), 'plans do not compare with numbers', f'{exc!r}')


class Planner:
    """Stands for the optimiser: any plan, remembering the scenario it was given."""

    def __init__(self, ctx, lg):
        self.ctx, self.lg, self.seen = ctx, lg, []

    def mpc_single_step(self, sample, output, step):
        from pymgrid.algos.Control import HorizonOutput
        k = len(self.seen)
        row = {c: sample[c].iloc[step] for c in ('pv', 'load', 'grid')}
        soc = output['status']['battery_soc'][-1]
        plan = []
        for t in range(1):
            d = dict(load=row['load'], pv=row['pv'], pv_consummed=0.0, pv_curtailed=row['pv'], battery_charge=0.0, battery_discharge=0.0,
                     loss_load=0.0, genset=0.0, grid_import=self.ctx.real(f'import{k}', 0, 10), grid_export=0.0)
            plan.append(d)
        out = HorizonOutput(plan, self.lg.mg, step)
        self.seen.append((step, row, soc, out))
        return out


@harness('C25', 'saa', quick=[{'n': 2, 'steps': 2}, {'n': 1, 'steps': 2, 'how': 'forecast'}],
         bounds='a microgrid with grid and battery, 2 scenarios, 2 steps, any series, scenarios and plans')
def saa(ctx, cfg):
    import pandas as pd
    from harness.h_legacy import Legacy
    from pymgrid.algos.saa.saa import SampleAverageApproximation as SAA
    from pymgrid.utils.DataGenerator import return_underlying_data
    n, steps = cfg['n'], cfg['steps']
    T = steps + 1
    lg = Legacy(ctx, ['battery', 'grid'], T, 1)
    ctx.assume(ctx.and_(*[ctx.and_(r[0] >= 1, lg.p['grid_power_import'] >= 10) for r in lg.rows]))
    s = SAA.__new__(SAA)
    s.microgrid, s.samples, s.control_duration = lg.mg, None, T
    s.underlying_data = ctx.must_not_raise('reading the data', return_underlying_data, lg.mg)
    for t in range(T):
        ctx.close(s.underlying_data['load'].iloc[t], lg.load[t], 'load of the data')
        ctx.close(s.underlying_data['pv'].iloc[t], lg.pv[t], 'pv of the data')
        ctx.close(s.underlying_data['grid'].iloc[t], 1.0, 'grid status of the data')
    s.mpc = Planner(ctx, lg)
    samples = [pd.DataFrame({c: [ctx.real(f'{c}_{i}_{t}', 0, 1000) for t in range(T)] for c in ('pv', 'load')} | {'grid': [1.0] * T}) for i in range(n)]
    if cfg.get('how') == 'forecast':
        s.forecasts = samples[0]
        out = ctx.must_not_raise('running', quiet, s.run_deterministic_on_forecast, forecast_steps=steps)
    else:
        out = ctx.must_not_raise('running', quiet, s.run_mpc_on_group, samples, forecast_steps=steps, optimal_percentile=0.0)
    ctx.check(out is not None, 'a result')
    seen = s.mpc.seen
    ctx.check([x[0] for x in seen] == [t for t in range(steps) for _ in range(n)], 'every scenario is planned once at every step', str([x[0] for x in seen]))
    ctx.check(all(len(v) == steps for v in out['action'].values()), 'one control per step')
    for t in range(steps):
        group = seen[t * n:(t + 1) * n]
        for _, row, soc, _ in group:
            ctx.close(row['load'], lg.load[t], 'plans see the actual load of the step')
            ctx.close(row['pv'], lg.pv[t], 'plans see the actual pv of the step')
            ctx.close(soc, lg.p['battery_soc_0'], 'plans start from the present state of charge')
        x = out['action']['grid_import'][t]
        for _, _, _, o in group:
            ctx.le(x * lg.rows[t][0], o.cost, 'the cheapest plan is applied')
        ctx.check(ctx.or_(*[ctx.eq_(x, o.first_dict['grid_import']) for _, _, _, o in group]), 'the control is that of a plan')
        ctx.close(out['cost']['grid_import'][t], out['production']['grid_import'][t] * lg.rows[t][0], 'import is charged at the price of the step')
        ctx.close(out['status']['load'][t + 1], lg.load[t + 1], 'the load of the following step is recorded')
        ctx.close(out['status']['pv'][t + 1], lg.pv[t + 1], 'the pv of the following step is recorded')
        for i, name in enumerate(('grid_price_import', 'grid_price_export', 'grid_co2', 'grid_status')):
            ctx.close(out['status'][name][t + 1], lg.rows[t + 1][i], f'{name} of the following step is recorded')
        ctx.close(out['status']['battery_soc'][t + 1], lg.p['battery_soc_0'], 'the state of charge of the following step is recorded')
        prod, cost = ({k: v[t] for k, v in out[name].items()} for name in ('production', 'cost'))
        ctx.close(out['co2']['co2'][t], prod['grid_import'] * lg.rows[t][2], 'emissions of the step')
        ctx.close(cost['co2'], prod['grid_import'] * lg.rows[t][2] * lg.p['cost_co2'], 'emissions are charged')
        ctx.close(cost['grid_export'], -prod['grid_export'] * lg.rows[t][1], 'exports are paid at the price of the step')
        ctx.close(cost['loss_load'], prod['loss_load'] * lg.p['cost_loss_load'], 'lost load is charged')
        ctx.close(cost['total_cost'], ctx.sum(v for k, v in cost.items() if k != 'total_cost'), 'total cost of the step')
