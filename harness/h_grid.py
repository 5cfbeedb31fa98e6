"""C06 grid limits and outages, C07 grid pricing."""
from symx.registry import harness
from . import common


def check_exchange(ctx, p, row, req, info):
    s = row[3] if len(row) > 3 else 1.0
    imp, exp = info.get('provided_energy', 0.0), info.get('absorbed_energy', 0.0)
    ctx.close(imp, ctx.max(0.0, ctx.min(req, s * p['max_import'])), 'import is the request limited by the import limit and status')
    ctx.close(exp, ctx.max(0.0, ctx.min(-req, s * p['max_export'])), 'export is the request limited by the export limit and status')
    return imp, exp


def check_prices(ctx, p, row, info, reward):
    imp, exp = info.get('provided_energy', 0.0), info.get('absorbed_energy', 0.0)
    ctx.close(reward, exp * row[1] - imp * row[0] - imp * row[2] * p['cost_per_unit_co2'], 'reward at the prices of the step')
    ctx.close(info['co2_production'], imp * row[2], 'CO2 of the imported energy')


CFG = [{'T': 2, 'k': 1, 'status': True}, {'T': 3, 'k': 2, 'status': True}, {'T': 2, 'k': 1, 'status': False}, {'T': 2, 'k': 2, 'status': True, 'h': 2}, {'T': 2, 'k': 1, 'status': True, 'norm': True}]


def drive(ctx, cfg, check):
    kw = {}
    if cfg.get('h'):
        kw = dict(forecaster='oracle', forecast_horizon=cfg['h'])
    start = cfg.get('start', 0)
    if start:
        kw['initial_step'] = start
    g, p, rows = common.grid(ctx, cfg['T'], status=cfg['status'], **kw)
    norm = bool(cfg.get('norm'))
    if norm:
        ctx.assume(p['max_import'] + p['max_export'] > 0)
    for t in range(start, start + cfg['k']):
        if norm:
            x = ctx.real(f'request{t}', 0, 1)
            req = x * (p['max_import'] + p['max_export']) - p['max_export']
            _, reward, _, info = ctx.must_not_raise('step', g.step, x, normalized=True)
        else:
            req = ctx.real(f'request{t}', -3000000, 3000000)
            _, reward, _, info = ctx.must_not_raise('step', g.step, req, normalized=False)
        check(g, p, rows[t], req, info, reward)


@harness('C06', 'limits', quick=CFG, thorough=[{'T': 4, 'k': 3, 'status': True}, {'T': 4, 'k': 2, 'status': True, 'h': 3}, {'T': 3, 'k': 1, 'status': True, 'start': 1}],
         bounds='any limits, prices, CO2, status series of T rows and any k requests in [-3000000,3000000]; oracle forecast horizons 0 and 2; normalised requests')
def limits(ctx, cfg):
    def check(g, p, row, req, info, reward):
        imp, exp = check_exchange(ctx, p, row, req, info)
        ctx.close(g.logger_last['grid_import'], imp, 'logged import')
        ctx.close(g.logger_last['grid_export'], exp, 'logged export')
        ctx.close(g.logger_last['grid_status_current'], row[3] if len(row) > 3 else 1.0, 'logged status')
    drive(ctx, cfg, check)


@harness('C06', 'reported', quick=[{}, {'h': 2}], bounds='the limits the grid reports are the ones it applies, at any step of a 3-step series')
def reported(ctx, cfg):
    kw = dict(forecaster='oracle', forecast_horizon=cfg['h']) if cfg.get('h') else {}
    g, p, rows = common.grid(ctx, 3, **kw)
    for t in range(3):
        s = rows[t][3]
        ctx.close(g.max_production, s * p['max_import'], 'available import')
        ctx.close(g.max_consumption, s * p['max_export'], 'available export')
        ctx.close(g.current_status, s, 'current status')
        ctx.close(g.import_price[0], rows[t][0], 'import price')
        ctx.close(g.export_price[0], rows[t][1], 'export price')
        ctx.close(g.co2_per_kwh[0], rows[t][2], 'co2')
        ctx.close(g.grid_status[0], s, 'status')
        if t < 2:
            g.step(0.0, normalized=False)
    g.reset()
    ctx.close(g.max_production, rows[0][3] * p['max_import'], 'available import after reset')


@harness('C06', 'weak', quick=[{'T': 1}, {'T': 3}, {'T': 3, 'k': 2}, {'T': 3, 'start': 1}], bounds='a grid is weak exactly when its status is ever 0, whatever the current step and initial step')
def weak(ctx, cfg):
    g, p, rows = common.grid(ctx, cfg['T'], initial_step=cfg.get('start', 0))
    down = ctx.or_(*[r[3] == 0 for r in rows])
    for t in range(cfg.get('k', 0) + 1):
        w = bool(g.weak_grid)
        ctx.check(down if w else ctx.not_(down), 'weak grid')
        if t < cfg.get('k', 0):
            g.step(0.0, normalized=False)


@harness('C06', 'validation', quick=[{'what': w} for w in ('limits', 'status', 'negative', 'columns', 'negative3')],
         bounds='any limits in [-10,10], 2-row series with any values; invalid ones rejected, valid ones accepted')
def validation(ctx, cfg):
    from pymgrid.modules import GridModule
    w = cfg['what']
    if w == 'limits':
        a, b = ctx.real('max_import', -10, 10), ctx.real('max_export', -10, 10)
        _, e = ctx.raises(GridModule, max_import=a, max_export=b, time_series=ctx.array([[1.0, 2.0, 0.5, 1.0], [1.0, 1.0, 0.0, 0.0]]))
        bad = ctx.or_(a < 0, b < 0)
    elif w == 'status':
        s = [ctx.real(f's{i}', -1, 2) for i in range(2)]
        _, e = ctx.raises(GridModule, max_import=1.0, max_export=1.0, time_series=ctx.array([[1.0, 2.0, 0.5, s[0]], [1.0, 1.0, 0.0, s[1]]]))
        bad = ctx.not_(ctx.and_(*[ctx.or_(x == 0, x == 1) for x in s]))
    elif w in ('negative', 'negative3'):
        n = 4 if w == 'negative' else 3
        rows = [[ctx.real(f'v{i}{j}', -5, 5) for j in range(3)] + [1.0][:n - 3] for i in range(2)]
        _, e = ctx.raises(GridModule, max_import=1.0, max_export=1.0, time_series=ctx.array(rows))
        bad = ctx.or_(*[x < 0 for r in rows for x in r[:3]])
    else:
        n = ctx.const_int('columns', 1, 6)
        v = ctx.const_int('v', 0, 1)
        _, e = ctx.raises(GridModule, max_import=1.0, max_export=1.0, time_series=ctx.array([[float(v)] * n] * 2))
        bad = n not in (3, 4)
    ctx.check(ctx.implies(bad, isinstance(e, ValueError)), 'invalid parameters rejected')
    ctx.check(ctx.implies(ctx.not_(bad), e is None), 'valid parameters accepted')


@harness('C06', 'in_microgrid', quick=[{'spec': ['load', 'grid']}, {'spec': ['clock', 'grid'], 'k': 2}, {'spec': ['clock', 'grid', 'grid']}, {'spec': ['clock', 'grid'], 'k': 2, 'lead': 23}], bounds='grids in a microgrid; k steps, any controls; also late in a longer series (steps 23, 24)')
def c06_mg(ctx, cfg):
    k = cfg.get('k', 1)
    mix = common.Mix(ctx, cfg['spec'], k + 1, co2=False, lead=cfg.get('lead', 0))
    for t in range(k):
        c = mix.control(t)
        req = list(c['grid'])
        _, _, _, info = mix.mg.run(c, normalized=False)
        for i, (p, rows) in enumerate(mix.grids):
            check_exchange(ctx, p, rows[t], req[i], info['grid'][i])


# ------------------------------------------------------------------------ C07

@harness('C07', 'prices', quick=CFG + [{'T': 4, 'k': 1, 'status': False, 'start': 2}], thorough=[{'T': 4, 'k': 3, 'status': True}, {'T': 4, 'k': 2, 'status': True, 'h': 3}],
         bounds='any price, CO2 and status series of T rows, CO2 price, limits and k requests; start at step 0 or 2; horizons 0 and 2')
def prices(ctx, cfg):
    def check(g, p, row, req, info, reward):
        check_prices(ctx, p, row, info, reward)
        last = g.logger_last
        ctx.close(last['reward'], reward, 'logged reward')
        ctx.close(last['co2_production'], info['co2_production'], 'logged CO2')
        ctx.close(last['import_price_current'], row[0], 'logged import price')
        ctx.close(last['export_price_current'], row[1], 'logged export price')
    drive(ctx, cfg, check)


@harness('C07', 'marginal', quick=[{}, {'h': 2}], bounds='marginal costs and cost functions at any step of a 3-step series')
def marginal(ctx, cfg):
    kw = dict(forecaster='oracle', forecast_horizon=cfg['h']) if cfg.get('h') else {}
    g, p, rows = common.grid(ctx, 3, **kw)
    e = ctx.real('energy', 0, 1000000)
    for t in range(3):
        r = rows[t]
        ctx.close(g.production_marginal_cost, r[0], 'marginal import cost')
        ctx.close(g.marginal_cost, r[0], 'marginal cost')
        ctx.close(g.absorption_marginal_cost, r[1], 'marginal export price')
        ctx.close(g.get_cost(e, as_source=True, as_sink=False), -e * r[0] - e * r[2] * p['cost_per_unit_co2'], 'import reward')
        ctx.close(g.get_cost(e, as_source=False, as_sink=True), e * r[1], 'export reward')
        ctx.close(g.get_co2_production(e, as_source=True, as_sink=False), e * r[2], 'co2')
        ctx.close(g.get_co2_production(e, as_source=False, as_sink=True), 0.0, 'no co2 for exports')
        ctx.close(g.get_co2_cost(e, as_source=True, as_sink=False), -e * r[2] * p['cost_per_unit_co2'], 'co2 cost')
        if t < 2:
            g.step(0.0, normalized=False)


@harness('C07', 'in_microgrid', quick=[{'spec': ['load', 'grid']}, {'spec': ['clock', 'grid'], 'k': 2}, {'spec': ['clock', 'grid', 'grid']}, {'spec': ['clock', 'grid'], 'k': 2, 'lead': 23}],
         bounds='grids in a microgrid; k steps, any controls; also late in a longer series (steps 23, 24); the step reward is the grid reward when nothing else costs')
def c07_mg(ctx, cfg):
    k = cfg.get('k', 1)
    mix = common.Mix(ctx, cfg['spec'], k + 1, status=False, lead=cfg.get('lead', 0))
    for t in range(k):
        _, reward, _, info = mix.mg.run(mix.control(t), normalized=False)
        row_ = common.last_row(mix.mg)
        for i, (p, rows) in enumerate(mix.grids):
            check_prices(ctx, p, rows[t], info['grid'][i], row_[('grid', i, 'reward')])


@harness('C07', 'episode', quick=[{}], bounds='after a reset with a trajectory starting at any step of a 4-step series, prices are those of the episode step')
def c07_episode(ctx, cfg):
    a = ctx.const_int('start', 0, 2)
    mix = common.Mix(ctx, ['clock', 'grid'], 4, status=False, traj=lambda lo, hi: (a, 4))
    mix.mg.reset()
    _, _, _, info = mix.mg.run(mix.control(0), normalized=False)
    p, rows = mix.grids[0]
    check_prices(ctx, p, rows[a], info['grid'][0], common.last_row(mix.mg)[('grid', 0, 'reward')])
