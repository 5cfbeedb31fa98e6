"""C20 model predictive control: the problem it builds, and what it does with a solution."""
import contextlib
import io

from symx.registry import harness
from . import common
from .h_legacy import Legacy

NAMES = ('genset', 'grid_import', 'grid_export', 'battery_charge', 'battery_discharge', 'pv_curtailed', 'loss_load')


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


class Stop(Exception):
    pass


class Solver:
    """Takes the place of the numerical solver: hands out a prescribed solution and keeps the problem it was asked to solve."""

    def __init__(self, ctx, mpc, choose, assume=False, stop=None):
        self.ctx, self.mpc, self.choose, self.assume, self.stop, self.calls = ctx, mpc, choose, assume, stop, 0
        self.vars = sorted(mpc.problem.variables(), key=lambda v: v.id)
        object.__setattr__(mpc.problem, 'solve', self.solve)

    def solve(self, *a, **k):
        x = self.choose(self.calls, self.vars)
        self.calls += 1
        import numpy as np
        for v, vals in zip(self.vars, x):
            v.save_value(self.ctx.array(vals) if self.ctx.symbolic else np.array(vals, dtype=float))
        self.x = x
        self.rows = []          # (kind, left, right) of every scalar constraint
        for v, vals in zip(self.vars, x):
            for e in vals:
                if v.attributes['boolean']:
                    self.rows.append(('bool', e, None))
                elif v.attributes['pos'] or v.attributes['nonneg']:
                    self.rows.append(('le', 0.0, e))
        for c in self.mpc.problem.constraints:
            kind = {'Equality': 'eq', 'Inequality': 'le', 'Zero': 'eq', 'NonPos': 'le'}[type(c).__name__]
            vals = [np.ravel(np.asarray(arg.value, dtype=object if self.ctx.symbolic else float)) for arg in c.args]
            if len(vals) == 1:
                vals.append([0.0] * len(vals[0]))
            n = max(len(v) for v in vals)
            for i in range(n):
                self.rows.append((kind, vals[0][i if len(vals[0]) > 1 else 0], vals[1][i if len(vals[1]) > 1 else 0]))
        self.sign = -1.0 if type(self.mpc.problem.objective).__name__ == 'Maximize' else 1.0
        cost = self.mpc.problem.objective.args[0].value
        self.cost = self.sign * (cost if self.ctx.symbolic else float(cost))
        if self.assume:
            self.ctx.assume(holds(self.ctx, self.rows))
        if self.calls == self.stop:
            raise Stop()
        return 0.0


def until_stop(ctx, f, *a, **k):
    def g():
        try:
            quiet(f, *a, **k)
        except Stop:
            return True
        return False
    ctx.check(ctx.must_not_raise('a step of the controller', g), 'the solver is called')


def near(ctx, a, b):
    """a = b; on replay up to the rounding of the solver's rational model."""
    return ctx.eq_(a, b) if ctx.symbolic else abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))


def below(ctx, a, b):
    return a <= b if ctx.symbolic else a <= b + 1e-9 * (1 + abs(a) + abs(b))


def holds(ctx, rows):
    out = []
    for kind, a, b in rows:
        out.append(near(ctx, a, b) if kind == 'eq' else below(ctx, a, b) if kind == 'le' else ctx.or_(ctx.eq_(a, 0.0), ctx.eq_(a, 1.0)))
    return ctx.and_(*out)


_LAYOUT = {}


def layout(parts, h):
    """Where in the solution the planned quantities are, read off the controls that come out: {(name, t): (variable, index)}."""
    key = ('genset' in parts, h)
    if key not in _LAYOUT:
        from pymgrid.algos import ModelPredictiveControl

        class Fixed:
            symbolic = False

            def real(self, name, lo=0, hi=0, **k):
                return {'capacity': 100.0, 'efficiency': 0.5, 'soc_min': 0.0, 'soc': 0.5, 'pmin': 0.25}.get(name, 1.0)

            def array(self, rows):
                import numpy as np
                return np.array(rows, dtype=float)

            def assume(self, c):
                assert c

            @staticmethod
            def and_(*a):
                return all(a)

            @staticmethod
            def or_(*a):
                return any(a)
        ctx = Fixed()
        lg = Legacy(ctx, ['battery', 'grid'] + ['genset'] * key[0], h + 2, h, status=True)
        mpc = quiet(ModelPredictiveControl, lg.mg)
        sizes = []

        def number(k, vs):
            sizes.extend((v.size, bool(v.attributes['boolean'])) for v in vs)
            n, out = 1000, []
            for v in vs:
                out.append([float(n + i) for i in range(v.size)])
                n += 1000
            return out
        Solver(ctx, mpc, number)
        plans = horizon_plans(mpc, lg.mg, 0)
        where, taken = {}, set()
        for t, d in enumerate(plans):
            for name in NAMES:
                if name in d:
                    v, i = divmod(int(round(float(d[name]))), 1000)
                    where[name, t] = (v - 1, i)
                    taken.add((v - 1, i))
        rest = [[(v, i) for v, (n, b) in enumerate(sizes) if b == kind for i in range(n) if (v, i) not in taken] for kind in (True, False)]
        for name, idx in zip(('on', 'soc'), rest):
            if len(idx) == h:
                where.update({(name, t): p for t, p in enumerate(idx)})
        _LAYOUT[key] = where, [n for n, _ in sizes]
    return _LAYOUT[key]


def horizon_plans(mpc, mg, step):
    from pymgrid.algos.Control import ControlOutput
    from pymgrid.utils.DataGenerator import return_underlying_data
    sample = return_underlying_data(mg).reset_index(drop=True)
    out = quiet(mpc.mpc_single_step, sample, ControlOutput(empty=True, microgrid=mg), step)
    return out.df.to_dict('records')


class World:
    """The physical model over the horizon: parameters p, series from the current step on."""

    def __init__(self, ctx, h, p, load, pv, rows, soc, genset):
        self.ctx, self.h, self.p, self.load, self.pv, self.rows, self.soc0, self.genset = ctx, h, p, load, pv, rows, soc, genset

    def draw(self, pre=''):
        """An arbitrary schedule."""
        ctx = self.ctx
        s = {}
        for t in range(self.h):
            for n in NAMES:
                if n != 'genset' or self.genset:
                    s[n, t] = ctx.real(f'{pre}{n}_{t}', 0, 10000)
            if self.genset:
                s['on', t] = ctx.real(f'{pre}on_{t}', 0, 1)
        self.socs(s)
        return s

    def socs(self, s):
        soc = self.soc0
        for t in range(self.h):
            soc = soc + self.p['eff'] * s['battery_charge', t] / self.p['cap'] - s['battery_discharge', t] / (self.p['eff'] * self.p['cap'])
            s['soc', t] = soc

    def rules(self, s):
        """[(what, kind, left, right)] a schedule has to satisfy."""
        p, out = self.p, []
        for t in range(self.h):
            g = s['genset', t] if self.genset else 0.0
            row = self.rows[t]
            out += [('energy balance', 'eq', g + s['grid_import', t] + s['battery_discharge', t] + s['loss_load', t] + self.pv[t],
                     self.load[t] + s['grid_export', t] + s['battery_charge', t] + s['pv_curtailed', t]),
                    ('minimum state of charge', 'le', p['soc_min'], s['soc', t]), ('maximum state of charge', 'le', s['soc', t], p['soc_max']),
                    ('charging power', 'le', s['battery_charge', t], p['charge']), ('discharging power', 'le', s['battery_discharge', t], p['discharge']),
                    ('import limit', 'le', s['grid_import', t], p['import'] * row[3]), ('export limit', 'le', s['grid_export', t], p['export'] * row[3]),
                    ('curtailment', 'le', s['pv_curtailed', t], self.pv[t]), ('lost load', 'le', s['loss_load', t], self.load[t])]
            if self.genset:
                out += [('genset is on or off', 'bool', s['on', t], None), ('genset minimum', 'le', p['gen_min'] * s['on', t], g),
                        ('genset maximum', 'le', g, p['gen_max'] * s['on', t])]
            out += [(f'{n} is not negative', 'le', 0.0, s[n, t]) for n in NAMES if (n, t) in s]
        return out

    def cost(self, s):
        p, c = self.p, 0.0
        for t in range(self.h):
            if self.genset:
                c = c + s['genset', t] * (p['fuel'] + p['gen_co2'] * p['gen_co2_cost'])
            row = self.rows[t]
            c = c + s['grid_import', t] * (row[0] + row[2] * p['grid_co2_cost']) - s['grid_export', t] * row[1]
            c = c + s['battery_charge', t] * p['cycle_charge'] + s['battery_discharge', t] * p['cycle_discharge'] + s['loss_load', t] * p['loss']
        return c


def schedule(where, x, h, world):
    s = {k: x[v][i] for k, (v, i) in where.items()}
    if ('soc', 0) not in s:
        world.socs(s)
    return s


def put(where, sizes, s):
    x = [[0.0] * n for n in sizes]
    for k, (v, i) in where.items():
        x[v][i] = s[k]
    return x


def check_sound(ctx, solver, world, where, cost=True):
    """Every solution of the problem is a possible schedule, at its true cost."""
    s = schedule(where, solver.x, world.h, world)
    for what, kind, a, b in world.rules(s):
        if kind == 'eq':
            ctx.close(a, b, f'planned: {what}')
        elif kind == 'le':
            ctx.le(a, b, f'planned: {what}')
        else:
            ctx.check(ctx.or_(ctx.eq_(a, 0.0), ctx.eq_(a, 1.0)), f'planned: {what}')
    t = dict(s)
    world.socs(t)
    for i in range(world.h):
        ctx.close(s['soc', i], t['soc', i], 'planned: state of charge follows charging and discharging')
    if cost:
        ctx.close(solver.cost, world.cost(s), 'objective is the cost of the schedule')
    return s


def check_complete(ctx, solver, world):
    """Every possible schedule is a solution of the problem, at its true cost."""
    for n, (kind, a, b) in enumerate(solver.rows):
        if kind == 'eq':
            ctx.close(a, b, f'a possible schedule is excluded by constraint {n}')
        elif kind == 'le':
            ctx.le(a, b, f'a possible schedule is excluded by constraint {n}')


def free_solution(ctx, where, sizes):
    back = {p: k for k, p in where.items()}

    def name(v, i):
        return '{}_{}'.format(*back[v, i]) if (v, i) in back else f'x{v}_{i}'
    return [[ctx.real('sol_' + name(v, i), -10, 10000) for i in range(n)] for v, n in enumerate(sizes)]


# ------------------------------------------------------------------ modular

def modular(ctx, parts, h, T, eff=None, first=0):
    """A microgrid with load, pv, battery and the given further parts, and the physical model from step `first` on."""
    from pymgrid import Microgrid
    from pymgrid.modules import BatteryModule, GensetModule, GridModule, LoadModule, RenewableModule
    past = range(first)         # what happens in the steps before is fixed
    kw = dict(forecaster='oracle', forecast_horizon=h - 1) if h > 1 else {}
    load, pv = common.series(ctx, 'load', T, free=T - 1), common.series(ctx, 'pv', T, free=T - 1)
    for t in past:
        load[t], pv[t] = 100.0, 1.0
    if eff is None:
        bp = common.battery_params(ctx)
        ctx.assume(bp['max_capacity'] >= 1)
    else:
        bp = dict(min_capacity=10.0, max_capacity=100.0, max_charge=ctx.real('max_charge', 0, 1000), max_discharge=30.0, efficiency=eff, battery_cost_cycle=ctx.real('cost_cycle', 0, 100))
    c0 = common.battery_charge(ctx, bp)
    modules = [LoadModule(time_series=ctx.array(load), **kw), ('pv', RenewableModule(time_series=ctx.array(pv), **kw)),
               ('storage', BatteryModule(init_charge=c0, **bp))]
    cap = bp['max_capacity']
    p = dict(eff=bp['efficiency'], cap=cap, soc_min=bp['min_capacity'] / cap, soc_max=1.0, charge=bp['max_charge'] / bp['efficiency'],
             discharge=bp['max_discharge'] * bp['efficiency'], cycle_charge=bp['battery_cost_cycle'] * bp['efficiency'],
             cycle_discharge=bp['battery_cost_cycle'] / bp['efficiency'], loss=ctx.real('loss_load_cost', 0, 100))
    p.update({'import': 0.0, 'export': 0.0, 'grid_co2_cost': 0.0})
    rows = [[0.0] * 4] * T
    if 'grid' in parts:
        rows = common.grid_rows(ctx, T, free=T - 1)
        for t in past:
            ctx.assume(ctx.eq_(rows[t][3], 1.0))
            rows[t] = [1.0] * 3 + [rows[t][3]]
        gp = dict(max_import=ctx.real('max_import', 0, 1000), max_export=ctx.real('max_export', 0, 1000), cost_per_unit_co2=ctx.real('grid_co2_cost', 0, 100))
        g = GridModule(time_series=ctx.array(rows), **gp, **kw)
        modules.append(('utility', g))
        p.update({'import': gp['max_import'], 'export': gp['max_export'], 'grid_co2_cost': gp['cost_per_unit_co2']})
    if 'genset' in parts:
        g, gp = common.genset(ctx)
        ctx.assume(gp['running_max_production'] > 0)
        modules.append(('diesel', g))
        p.update(fuel=gp['genset_cost'], gen_min=gp['running_min_production'], gen_max=gp['running_max_production'],
                 gen_co2=gp['co2_per_unit'], gen_co2_cost=gp['cost_per_unit_co2'])
    mg = Microgrid(modules, loss_load_cost=p['loss'])
    sl = slice(first, first + h)
    return mg, World(ctx, h, p, load[sl], pv[sl], rows[sl], c0 / cap, 'genset' in parts)


GG = ['grid', 'genset']
MIX = [{'parts': ['grid'], 'h': 1}, {'parts': ['genset'], 'h': 1}, {'parts': GG, 'h': 1},
       {'parts': ['grid'], 'h': 2, 'eff': 0.5}, {'parts': GG, 'h': 2, 'eff': 0.5}]
MORE = [{'parts': ['grid'], 'h': 3, 'eff': 0.8}, {'parts': GG, 'h': 3, 'eff': 0.8}, {'parts': ['grid'], 'h': 2}]


@harness('C20', 'modular_sound', quick=MIX, thorough=MORE,
         bounds='modular microgrids with pv, one battery, grid and/or genset; horizons 1 and 2 (3 in the thorough tier; efficiency 0.5 or 0.8 beyond horizon 1), any other parameter, state, series')
def modular_sound(ctx, cfg):
    from pymgrid.algos import ModelPredictiveControl
    parts, h = cfg['parts'], cfg['h']
    mg, world = modular(ctx, parts, h, h + 1, cfg.get('eff'))
    mpc = ctx.must_not_raise('building the controller', quiet, ModelPredictiveControl, mg)
    where, sizes = layout(parts, h)
    solver = Solver(ctx, mpc, lambda k, vs: free_solution(ctx, where, [v.size for v in vs]), assume=True, stop=1)
    until_stop(ctx, mpc.run, max_steps=1)
    check_sound(ctx, solver, world, where)


@harness('C20', 'modular_complete', quick=MIX, thorough=MORE, bounds='as modular_sound')
def modular_complete(ctx, cfg):
    from pymgrid.algos import ModelPredictiveControl
    parts, h = cfg['parts'], cfg['h']
    mg, world = modular(ctx, parts, h, h + 1, cfg.get('eff'))
    s = world.draw()
    ctx.assume(holds(ctx, [r[1:] for r in world.rules(s)]))
    mpc = ctx.must_not_raise('building the controller', quiet, ModelPredictiveControl, mg)
    where, sizes = layout(parts, h)
    solver = Solver(ctx, mpc, lambda k, vs: put(where, sizes, s), stop=1)
    until_stop(ctx, mpc.run, max_steps=1)
    check_complete(ctx, solver, world)


@harness('C20', 'modular_rolling', quick=[{'parts': ['grid'], 'h': 2, 'eff': 0.5}], thorough=[{'parts': GG, 'h': 2, 'eff': 0.5}],
         bounds='the second step: the problem starts at the current state of charge and the current part of the series')
def modular_rolling(ctx, cfg):
    from pymgrid.algos import ModelPredictiveControl
    parts, h = cfg['parts'], cfg['h']
    mg, world = modular(ctx, parts, h, h + 2, cfg['eff'], first=1)
    objective = ctx.const_int('objective', 0, 1)
    d = ctx.real('first_discharge', 0, 0.5)
    ctx.assume(d * 2 <= world.soc0 * 100.0 - 10.0)
    where, sizes = layout(parts, h)
    mpc = ctx.must_not_raise('building the controller', quiet, ModelPredictiveControl, mg)

    def choose(k, vs):
        if k == 0:
            x = [[0.0] * n for n in sizes]
            v, i = where['battery_discharge', 0]
            x[v][i] = d
            return x
        if objective:
            return [[float(7 * v + 3 * i + 1) for i in range(n)] for v, n in enumerate(sizes)]
        return free_solution(ctx, where, sizes)
    solver = Solver(ctx, mpc, choose, stop=2)
    until_stop(ctx, mpc.run, max_steps=2)
    world.soc0 = world.soc0 - d * 2 / 100.0
    if objective:
        ctx.close(solver.cost, world.cost(schedule(where, solver.x, h, world)), 'objective is the cost of the schedule')
    else:
        ctx.assume(holds(ctx, solver.rows))
        check_sound(ctx, solver, world, where, cost=False)


@harness('C20', 'modular_execution', quick=[{'parts': ['grid']}, {'parts': ['genset']}], thorough=[{'parts': GG}],
         bounds='one executed step: any plan of the problem that does not do and undo the same thing at once, any parameters but fixed prices and costs')
def modular_execution(ctx, cfg):
    from pymgrid import Microgrid
    from pymgrid.algos import ModelPredictiveControl
    from pymgrid.modules import BatteryModule, GensetModule, GridModule, LoadModule, RenewableModule
    parts = cfg['parts']
    load, pv = ctx.real('load', 0, 1000), ctx.real('pv', 0, 1000)
    c0, ch, dis = ctx.real('charge', 10, 100), ctx.real('max_charge', 0, 1000), ctx.real('max_discharge', 0, 1000)
    modules = [LoadModule(time_series=ctx.array([load, 1000.0])), RenewableModule(time_series=ctx.array([pv, 1000.0])),
               BatteryModule(min_capacity=10.0, max_capacity=100.0, max_charge=ch, max_discharge=dis, efficiency=0.5, init_charge=c0, battery_cost_cycle=0.25)]
    if 'grid' in parts:
        status = ctx.real('status', 0, 1)
        ctx.assume(ctx.or_(status == 0, status == 1))
        modules.append(GridModule(max_import=ctx.real('max_import', 0, 1000), max_export=ctx.real('max_export', 0, 1000),
                                  time_series=ctx.array([[0.5, 0.25, 0.125, status], [1.0, 1.0, 1.0, 1.0]]), cost_per_unit_co2=0.5))
    if 'genset' in parts:
        lo, hi = ctx.real('gen_min', 0, 1000), ctx.real('gen_max', 1, 1000)
        ctx.assume(lo <= hi)
        modules.append(GensetModule(running_min_production=lo, running_max_production=hi, genset_cost=0.5, init_start_up=ctx.bool('running')))
    mg = Microgrid(modules, loss_load_cost=10.0)
    mpc = ctx.must_not_raise('building the controller', quiet, ModelPredictiveControl, mg)
    where, sizes = layout(parts, 1)
    solver = Solver(ctx, mpc, lambda k, vs: free_solution(ctx, where, sizes), assume=True)
    ctx.must_not_raise('a step of the controller', quiet, mpc.run, max_steps=1)
    x = {k: solver.x[v][i] for k, (v, i) in where.items()}
    for a, b in (('battery_charge', 'battery_discharge'), ('grid_import', 'grid_export'), ('pv_curtailed', 'loss_load')):
        ctx.assume(ctx.or_(ctx.eq_(x[a, 0], 0.0), ctx.eq_(x[b, 0], 0.0)))
    log = common.last_row(mg)
    ctx.check(len(mg.get_log()) == 1, 'one step is taken')
    want = {('battery', 'charge_amount'): 'battery_charge', ('battery', 'discharge_amount'): 'battery_discharge',
            ('balancing', 'loss_load'): 'loss_load', ('renewable', 'curtailment'): 'pv_curtailed'}
    if 'grid' in parts:
        want.update({('grid', 'grid_import'): 'grid_import', ('grid', 'grid_export'): 'grid_export'})
    if 'genset' in parts:
        want['genset', 'genset_production'] = 'genset'
    for (m, f), n in want.items():
        ctx.close(log[m, 0, f], x[n, 0], f'executed {n} is the planned one')
    ctx.close(log['balancing', 0, 'overgeneration'], 0.0, 'no overgeneration')
    ctx.close(log['balance', 0, 'reward'], -solver.cost, 'the cost of the step is the planned cost')


# ------------------------------------------------------------------ legacy

def legacy(ctx, parts, h, eff, first=0):
    lg = Legacy(ctx, ['battery'] + parts, first + h + 2, h, status=True, free=first + h)
    p = lg.p
    if eff is not None:
        ctx.assume(ctx.and_(ctx.eq_(p['battery_efficiency'], eff), ctx.eq_(p['battery_capacity'], 100.0)))
    q = dict(eff=p['battery_efficiency'] if eff is None else eff, cap=p['battery_capacity'] if eff is None else 100.0, soc_min=p['battery_soc_min'], soc_max=p['battery_soc_max'], charge=p['battery_power_charge'],
             discharge=p['battery_power_discharge'], cycle_charge=p['battery_cost_cycle'], cycle_discharge=p['battery_cost_cycle'], loss=p['cost_loss_load'],
             grid_co2_cost=p['cost_co2'])
    q.update({'import': p.get('grid_power_import', 0.0), 'export': p.get('grid_power_export', 0.0)})
    if 'genset' in parts:
        q.update(fuel=p['fuel_cost'], gen_min=p['genset_pmin'] * p['genset_rated_power'], gen_max=p['genset_pmax'] * p['genset_rated_power'],
                 gen_co2=p['genset_co2'], gen_co2_cost=p['cost_co2'])
    sl = slice(first, first + h)
    rows = lg.rows[sl] if 'grid' in parts else [[0.0] * 4] * h
    return lg, World(ctx, h, q, lg.load[sl], lg.pv[sl], rows, p['battery_soc_0'], 'genset' in parts)


@harness('C20', 'legacy_sound', quick=MIX, thorough=MORE, bounds='non-modular microgrids, as modular_sound; the current step and a later one')
def legacy_sound(ctx, cfg):
    from pymgrid.algos import ModelPredictiveControl
    parts, h = cfg['parts'], cfg['h']
    first = ctx.const_int('first', 0, 1)
    lg, world = legacy(ctx, parts, h, cfg.get('eff'), first)
    mpc = ctx.must_not_raise('building the controller', quiet, ModelPredictiveControl, lg.mg)
    where, sizes = layout(parts, h)
    solver = Solver(ctx, mpc, lambda k, vs: free_solution(ctx, where, sizes), assume=True)
    plans = ctx.must_not_raise('a step of the controller', horizon_plans, mpc, lg.mg, first)
    s = check_sound(ctx, solver, world, where)
    ctx.check(len(plans) == h, 'a control for every step of the horizon')
    for t in range(h):
        for n in NAMES:
            if (n, t) in s and n in plans[t]:
                ctx.close(plans[t][n], s[n, t], f'control of {n}')
        ctx.close(plans[t]['pv_consummed'], world.pv[t] - s['pv_curtailed', t], 'control of pv')
        ctx.close(plans[t]['pv'], world.pv[t], 'pv')
        ctx.close(plans[t]['load'], world.load[t], 'load')


@harness('C20', 'legacy_complete', quick=MIX, thorough=MORE, bounds='as legacy_sound')
def legacy_complete(ctx, cfg):
    from pymgrid.algos import ModelPredictiveControl
    parts, h = cfg['parts'], cfg['h']
    lg, world = legacy(ctx, parts, h, cfg.get('eff'))
    s = world.draw()
    ctx.assume(holds(ctx, [r[1:] for r in world.rules(s)]))
    mpc = ctx.must_not_raise('building the controller', quiet, ModelPredictiveControl, lg.mg)
    where, sizes = layout(parts, h)
    solver = Solver(ctx, mpc, lambda k, vs: put(where, sizes, s), stop=1)
    until_stop(ctx, mpc.run, max_steps=1)
    check_complete(ctx, solver, world)


@harness('C20', 'legacy_run', quick=[{'parts': ['genset']}, {'parts': ['grid']}], thorough=[{'parts': GG}],
         bounds='one executed step of a non-modular microgrid: the control is the first step of the plan; every production is a feasible one')
def legacy_run(ctx, cfg):
    from pymgrid.algos import ModelPredictiveControl
    parts = cfg['parts']
    lg, world = legacy(ctx, parts, 1, 1.0)
    ctx.assume(ctx.and_(*[ctx.eq_(lg.p[n], v) for n, v in (('battery_soc_min', 0.0), ('battery_soc_max', 1.0), ('battery_cost_cycle', 0.5), ('cost_loss_load', 10.0), ('cost_overgeneration', 1.0), ('cost_co2', 0.5))]))
    mpc = ctx.must_not_raise('building the controller', quiet, ModelPredictiveControl, lg.mg)
    where, sizes = layout(parts, 1)
    solver = Solver(ctx, mpc, lambda k, vs: free_solution(ctx, where, sizes), assume=True)
    out = ctx.must_not_raise('a step of the controller', quiet, mpc.run, max_steps=1)
    x = {k[0]: solver.x[v][i] for k, (v, i) in where.items()}
    for n in NAMES:
        if n in out['action']:
            ctx.check(len(out['action'][n]) == 1, 'one control')
            ctx.close(out['action'][n][-1], x[n], f'control of {n}')
    made = {n: out['production'][n][-1] for n in NAMES if n in out['production']}
    soc = lg.p['battery_soc_0'] + (made['battery_charge'] - made['battery_discharge']) / 100.0
    ctx.close(out['status']['battery_soc'][-1], soc, 'state of charge follows the executed powers')
    ctx.le(made['battery_discharge'], x['battery_discharge'], 'not more than planned is discharged')
    ctx.le(made['battery_charge'], x['battery_charge'], 'not more than planned is charged')
    for n, limit in (('grid_import', 'import'), ('grid_export', 'export')):
        if n in made:
            ctx.close(made[n], x[n], f'{n} is the planned one')
