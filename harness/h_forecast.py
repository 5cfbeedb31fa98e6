"""C14 forecasts."""
from symx.registry import harness
from . import common

COMP = {'load': ['load'], 'renewable': ['renewable'], 'grid': ['import_price', 'export_price', 'co2_per_kwh', 'grid_status']}


def make(ctx, kind, T, **kw):
    """module, rows as shown in the state, per-component bounds."""
    if kind == 'load':
        m, s = common.load(ctx, T, **kw)
        rows = [[-x] for x in s]
        lo, hi = [-ctx.max(*s)], [0.0]
    elif kind == 'renewable':
        m, s = common.renewable(ctx, T, **kw)
        rows = [[x] for x in s]
        lo, hi = [0.0], [ctx.max(*s)]
    else:
        m, p, rows = common.grid(ctx, T, status=False, **kw)
        rows = [r + [1.0] for r in rows]
        lo = [ctx.min(*[r[j] for r in rows]) for j in range(4)]
        hi = [ctx.max(*[r[j] for r in rows]) for j in range(4)]
    return m, rows, lo, hi


def act(m):
    return m.step(0.0, normalized=False)


def check_oracle(ctx, kind, m, rows, lo, hi, t, h, when=''):
    sd = m.state_dict()
    comp = COMP[kind]
    want = [f'{c}_current' for c in comp] + [f'{c}_forecast_{j}' for j in range(h) for c in comp]
    ctx.check(list(sd) == want, f'state has horizon entries per component{when}', f'{list(sd)}')
    T = len(rows)
    for i, c in enumerate(comp):
        mid = (lo[i] + hi[i]) / 2
        if f'{c}_current' in sd:
            ctx.close(sd[f'{c}_current'], rows[t][i] if t < T else mid, f'current value{when}')
        for j in range(h):
            if f'{c}_forecast_{j}' not in sd:
                continue
            v = rows[t + 1 + j][i] if t + 1 + j < T else mid
            ctx.close(sd[f'{c}_forecast_{j}'], v, f'oracle forecast{when}')
    f = m.forecast()
    if h:
        ctx.check(f.shape == (h, len(comp)), f'forecast shape{when}')
    ctx.check(len(list(m.state)) == len(sd), f'state vector{when}')


def check_series(ctx, m, rows):
    for t, r in enumerate(rows):
        ctx.closes(zip(m.time_series[t], r), 'time series unaltered')


@harness('C14', 'oracle', quick=[{'kind': 'load', 'h': 2}, {'kind': 'renewable', 'h': 1}, {'kind': 'renewable', 'h': 5}, {'kind': 'grid', 'h': 2}, {'kind': 'load', 'h': 4}],
         thorough=[{'kind': k, 'h': h, 'T': 6} for k in ('load', 'renewable') for h in (1, 3, 6)],
         bounds='any series of T=3 (thorough 6) rows, every step from 0 to past the end, horizons up to 6')
def oracle(ctx, cfg):
    T, h, kind = cfg.get('T', 3), cfg['h'], cfg['kind']
    m, rows, lo, hi = make(ctx, kind, T, forecaster='oracle', forecast_horizon=h)
    for t in range(T + 1):
        check_oracle(ctx, kind, m, rows, lo, hi, t, h)
        if t < T:
            act(m)
    check_series(ctx, m, rows)
    m.reset()
    check_oracle(ctx, kind, m, rows, lo, hi, 0, h, ' after reset')


@harness('C14', 'day', quick=[{'kind': 'load'}, {'kind': 'renewable', 'h': 30}, {'kind': 'grid'}],
         bounds='a series of 27 rows, the last three arbitrary; the default horizon of 23 and one of 30; every step from 0 to past the end')
def day(ctx, cfg):
    from pymgrid.microgrid import DEFAULT_HORIZON
    kind, lead = cfg['kind'], 24
    kw = {'forecast_horizon': cfg['h']} if 'h' in cfg else {}
    m, tail, lo, hi = make(ctx, kind, 3, forecaster='oracle', lead=lead, **kw)
    first = common.led(lead, [None] if kind != 'grid' else [[None] * 4])[:lead]
    rows = [[-x] if kind == 'load' else [x] if kind == 'renewable' else x for x in first] + tail
    extremes = list(zip(*rows))
    lo = [ctx.min(*[r for r in c]) for c in extremes] if kind == 'grid' else lo
    hi = [ctx.max(*[r for r in c]) for c in extremes] if kind == 'grid' else hi
    if kind == 'load':
        lo = [ctx.min(*extremes[0])]
    if kind == 'renewable':
        hi = [ctx.max(*extremes[0])]
    for t in range(len(rows) + 1):
        if t < 3 or t > 20:
            check_oracle(ctx, kind, m, rows, lo, hi, t, cfg.get('h', DEFAULT_HORIZON))
        if t < len(rows):
            act(m)


@harness('C14', 'none', quick=[{'kind': k} for k in COMP], bounds='without a forecaster the state is the current value only, at every step and past the end')
def none(ctx, cfg):
    m, rows, lo, hi = make(ctx, cfg['kind'], 3)
    ctx.check(m.forecast_horizon == 0, 'no horizon')
    for t in range(4):
        check_oracle(ctx, cfg['kind'], m, rows, lo, hi, t, 0)
        if t < 3:
            act(m)


@harness('C14', 'noise', quick=[{'kind': 'renewable', 'h': 2}, {'kind': 'load', 'h': 1, 'rel': True}, {'kind': 'renewable', 'h': 3, 'inc': True}, {'kind': 'grid', 'h': 1}],
         thorough=[{'kind': 'load', 'h': 3, 'inc': True, 'rel': True}],
         bounds='any series of 3 rows, any noise level 0..10 and any normal draw in +-10 standard deviations: true value plus noise, clipped to the observed range; past the end the middle')
def noise(ctx, cfg):
    kind, h, T = cfg['kind'], cfg['h'], 3
    src = ctx.use_random()
    std = ctx.real('noise_std', 0, 10)
    m, rows, lo, hi = make(ctx, kind, T, forecaster=std, forecast_horizon=h, forecaster_increase_uncertainty=bool(cfg.get('inc')), forecaster_relative_noise=bool(cfg.get('rel')))
    comp = COMP[kind]
    scale = std
    if cfg.get('rel'):
        scale = std * ctx.abs(ctx.sum(x for r in rows for x in r) / (T * len(comp)))
    import math
    for t in range(T + 1):
        sd = m.state_dict()
        ctx.check(len(sd) == (1 + h) * len(comp), 'state size')
        n = max(0, min(h, T - 1 - t))
        draws = src.draws[len(src.draws) - n * len(comp):] if n else []
        for j in range(h):
            for i, c in enumerate(comp):
                v = sd[f'{c}_forecast_{j}']
                ctx.within(lo[i], v, hi[i], 'forecast within the observation bounds')
                if t + 1 + j >= T:
                    ctx.close(v, (lo[i] + hi[i]) / 2, 'padding past the end')
                else:
                    g = 1 + math.log(1 + j) if cfg.get('inc') else 1.0
                    ctx.close(v, ctx.clip(rows[t + 1 + j][i] + scale * g * draws[j * len(comp) + i], lo[i], hi[i]), 'true value plus noise, clipped')
        if t < T:
            act(m)
    check_series(ctx, m, rows)


@harness('C14', 'user', quick=[{'form': 'vector'}, {'form': 'scalar'}, {'form': 'identity'}, {'form': 'mutate_copy'}, {'form': 'list'}, {'form': 'flat'}, {'form': 'persist'}, {'form': 'steps'}, {'form': 'vector', 'kind': 'grid'}, {'form': 'persist', 'kind': 'grid'}, {'form': 'vector', 'kind': 'load', 'T': 2}],
         bounds='a user-defined forecaster (affine with any coefficients in the true value, the current value or the number of steps ahead; vectorised or scalar): its value, clipped; any 2- or 4-row series; every step incl. the end')
def user(ctx, cfg):
    kind = cfg.get('kind', 'renewable')
    T, h = cfg.get('T', 3 if kind == 'grid' else 4), 2
    a, b = ctx.real('a', 0, 3), ctx.real('b', 0, 50) if kind == 'renewable' else 0.0
    form = cfg['form']
    if form == 'vector':
        f = lambda val_c, val_c_n, n: a * val_c_n + b
    elif form == 'identity':
        f = lambda val_c, val_c_n, n: val_c_n
        ctx.assume(a == 1)
        ctx.assume(b == 0)
    elif form == 'mutate_copy':
        def f(val_c, val_c_n, n):
            out = val_c_n.copy()
            for i in range(len(out)):
                out[i] = a * out[i] + b
            return out
    elif form == 'list':
        f = lambda val_c, val_c_n, n: [a * x + b for x in val_c_n]
    elif form == 'flat':
        f = lambda val_c, val_c_n, n: (a * val_c_n + b).reshape(-1)
    elif form == 'persist':
        f = lambda val_c, val_c_n, n: 0 * val_c_n + a * val_c + b
    else:
        def f(val_c, val_c_n, n):
            if hasattr(val_c_n, '__len__') and len(val_c_n) > 1:
                raise TypeError('scalar only')
            return (a * n if form == 'steps' else a) * val_c_n + b
    m, rows, lo, hi = make(ctx, kind, T, forecaster=f, forecast_horizon=h)
    comp = COMP[kind]
    for t in range(T + 1):
        sd = m.state_dict()
        ctx.check(len(sd) == (1 + h) * len(comp), 'state size')
        for j in range(h):
            for i, c in enumerate(comp):
                v = sd[f'{c}_forecast_{j}']
                want = (lo[i] + hi[i]) / 2
                if t + 1 + j < T:
                    x = rows[t][i] if form == 'persist' else rows[t + 1 + j][i]
                    want = ctx.clip((a * (1 + j) if form == 'steps' else a) * x + b, lo[i], hi[i])
                ctx.close(v, want, 'user forecast, clipped and padded')
        if t < T:
            ctx.must_not_raise('step', act, m)
    check_series(ctx, m, rows)


@harness('C14', 'change', quick=[{'kind': 'load', 'frm': None, 'to': 'oracle', 'h': 2}, {'kind': 'renewable', 'frm': 'oracle', 'to': None, 'h': 2}, {'kind': 'grid', 'frm': 'oracle', 'to': 'oracle', 'h': 1, 'h0': 2},
                                 {'kind': 'load', 'frm': 'oracle', 'to': 'oracle', 'h': 3, 'h0': 1}, {'kind': 'renewable', 'frm': 'oracle', 'how': 'horizon', 'to': 'oracle', 'h': 3, 'h0': 1},
                                 {'kind': 'grid', 'frm': None, 'how': 'horizon', 'to': 'oracle', 'h': 2}, {'kind': 'load', 'frm': 'oracle', 'how': 'horizon', 'to': 'oracle', 'h': 1, 'h0': 2}],
         bounds='forecaster or horizon changed after one step: the state at once and after the following steps and a reset is that of the new forecaster')
def change(ctx, cfg):
    kind, T = cfg['kind'], 4
    m, rows, lo, hi = make(ctx, kind, T, forecaster=cfg['frm'], forecast_horizon=cfg.get('h0', 1))
    act(m)
    h = cfg['h'] if cfg['to'] else 0
    if cfg.get('how') == 'horizon':
        m.forecast_horizon = h
    else:
        m.set_forecaster(cfg['to'], forecast_horizon=cfg['h'])
    ctx.check(m.forecast_horizon == h, 'horizon reported')
    check_oracle(ctx, kind, m, rows, lo, hi, 1, h, ' after the change')
    obs = ctx.must_not_raise('step', act, m)[0]
    check_oracle(ctx, kind, m, rows, lo, hi, 2, h, ' after a step')
    act(m)
    act(m)
    check_oracle(ctx, kind, m, rows, lo, hi, 4, h, ' at the end')
    m.reset()
    check_oracle(ctx, kind, m, rows, lo, hi, 0, h, ' after reset')
    check_series(ctx, m, rows)


@harness('C14', 'change_noise', quick=[{'inc': False}, {'inc': True}], bounds='changing to a noise forecaster, then a longer horizon: forecasts in range with the new horizon')
def change_noise(ctx, cfg):
    ctx.use_random()
    m, rows, lo, hi = make(ctx, 'renewable', 6)
    std = ctx.real('noise_std', 0, 10)
    m.set_forecaster(std, forecast_horizon=2, forecaster_increase_uncertainty=cfg['inc'])
    for h in (2, 1, 3):
        ctx.must_not_raise('change of horizon', setattr, m, 'forecast_horizon', h)
        ctx.must_not_raise('step', act, m)
        sd = m.state_dict()
        ctx.check(len(sd) == 1 + h, 'state has horizon entries', f'{len(sd)}')
        for v in sd.values():
            ctx.within(lo[0], v, hi[0], 'forecast within the observation bounds')
        ctx.check(m.forecaster_increase_uncertainty == cfg['inc'], 'setting kept')


@harness('C14', 'microgrid', quick=[{'how': 'all'}, {'how': 'dict'}, {'how': 'dict_two'}, {'how': 'unknown'}], bounds='forecasters set for a whole microgrid or per module name; any 3-row series; state after one step and after a reset')
def microgrid(ctx, cfg):
    T, h = 3, 2
    mix = common.Mix(ctx, ['load', 'load', 'pv'] if cfg['how'] != 'all' else ['load', 'pv', 'grid'], T, status=False)
    mg = mix.mg
    how = cfg['how']
    if how == 'unknown':
        _, e = ctx.raises(mg.set_forecaster, {'nothing': 'oracle'}, forecast_horizon=h)
        ctx.check(isinstance(e, NameError), 'unknown module rejected')
        return
    if how == 'all':
        mg.set_forecaster('oracle', forecast_horizon=h)
        hs = {'load': h, 'pv': h, 'grid': h}
        ctx.check(mg.get_forecast_horizon() == h, 'horizon of the microgrid')
    elif how == 'dict':
        mg.set_forecaster({'load': 'oracle'}, forecast_horizon=h)
        hs = {'load': h, 'pv': 0}
    else:
        mg.set_forecaster({'load': 'oracle', 'pv': 'oracle'}, forecast_horizon=h)
        hs = {'load': h, 'pv': h}
    rows = {'load': [[[-x] for x in s] for s in mix.loads], 'pv': [[[x] for x in s] for s in mix.pvs], 'grid': [[r + [1.0] for r in rs] for p, rs in mix.grids]}
    c = {'grid': [0.0]} if mix.grids else {}
    for s in mix.loads:
        for t in range(T):
            ctx.assume(s[t] > 0)
            ctx.assume(mix.pvs[0][t] > 2000 if False else mix.pvs[0][t] >= ctx.sum(x[t] for x in mix.loads))
    for when in ('at once', 'step', 'reset'):
        t = 0
        if when == 'step':
            mg.run(c, normalized=False)
            t = 1
        elif when == 'reset':
            mg.reset()
        sd = mg.state_dict()
        for name, lst in rows.items():
            for i, rs in enumerate(lst):
                vals = list(sd[name][i].values())
                n = len(rs[0])
                ctx.check(len(vals) == n * (1 + hs[name]), f'state of {name} has the new horizon', f'{when}: {len(vals)}')
                if len(vals) != n * (1 + hs[name]):
                    continue
                for j in range(1 + hs[name]):
                    if t + j < T:
                        ctx.closes(zip(vals[j * n:(j + 1) * n], rs[t + j]), f'{name} forecast')


@harness('C14', 'episode', quick=[{}], bounds='an episode with initial and final step inside the series: forecasts are the next values of the series')
def episode(ctx, cfg):
    a, b = ctx.const_int('initial', 0, 2), ctx.const_int('final', 1, 4)
    ctx.assume(a < b)
    m, rows, lo, hi = make(ctx, 'renewable', 4, forecaster='oracle', forecast_horizon=2, initial_step=a, final_step=b)
    for t in range(a, b):
        check_oracle(ctx, 'renewable', m, rows, lo, hi, t, 2)
        act(m)
    m.reset()
    check_oracle(ctx, 'renewable', m, rows, lo, hi, a, 2)
