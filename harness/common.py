"""Building blocks shared by the harnesses: arbitrary modules over symbolic parameters."""


def battery_params(ctx, pre='', cost=True, hi=1000000):
    min_cap = ctx.real(pre + 'min_capacity', 0, hi)
    max_cap = ctx.real(pre + 'max_capacity', 0, hi, lo_open=True)
    ctx.assume(min_cap < max_cap)
    return dict(
        min_capacity=min_cap, max_capacity=max_cap,
        max_charge=ctx.real(pre + 'max_charge', 0, hi),
        max_discharge=ctx.real(pre + 'max_discharge', 0, hi),
        efficiency=ctx.real(pre + 'efficiency', 0, 1, lo_open=True),
        battery_cost_cycle=ctx.real(pre + 'cost_cycle', 0, 100) if cost else 0.0)


def battery_charge(ctx, p, pre=''):
    c = ctx.real(pre + 'init_charge', 0, 1000000)
    ctx.assume(p['min_capacity'] <= c)
    ctx.assume(c <= p['max_capacity'])
    return c


def battery(ctx, pre='', raise_errors=False, cost=True, **kw):
    from pymgrid.modules import BatteryModule
    p = battery_params(ctx, pre, cost)
    c = battery_charge(ctx, p, pre)
    return BatteryModule(init_charge=c, raise_errors=raise_errors, **p, **kw), p, c


def genset_params(ctx, pre='', co2=True, cost='linear'):
    mn = ctx.real(pre + 'gen_min', 0, 1000000)
    mx = ctx.real(pre + 'gen_max', 0, 1000000)
    ctx.assume(mn <= mx)
    if cost == 'linear':
        c = ctx.real(pre + 'gen_cost', 0, 100)
    else:
        a, b = ctx.real(pre + 'gen_cost_a', 0, 10), ctx.real(pre + 'gen_cost_b', 0, 10)
        c = lambda x: a * x * x + b * x + 1.5
    return dict(running_min_production=mn, running_max_production=mx, genset_cost=c,
                co2_per_unit=ctx.real(pre + 'gen_co2', 0, 100) if co2 else 0.0,
                cost_per_unit_co2=ctx.real(pre + 'gen_co2_cost', 0, 100) if co2 else 0.0)


def genset(ctx, pre='', raise_errors=False, co2=True, cost='linear', **kw):
    from pymgrid.modules import GensetModule
    p = genset_params(ctx, pre, co2, cost)
    return GensetModule(raise_errors=raise_errors, **p, **kw), p


def series(ctx, name, T, lo=0, hi=1000000, free=None):
    """T arbitrary values; from step `free` on the upper bound (which keeps the range of the series from mattering)."""
    return [ctx.real(f'{name}{t}', lo, hi) if free is None or t < free else float(hi) for t in range(T)]


def grid_rows(ctx, T, pre='', status=True, price_hi=100, free=None):
    rows = []
    for t in range(T):
        if free is not None and t >= free:
            rows.append([float(price_hi)] * 3 + [1.0] * bool(status))
            continue
        row = [ctx.real(f'{pre}import_price{t}', 0, price_hi), ctx.real(f'{pre}export_price{t}', 0, price_hi),
               ctx.real(f'{pre}co2_{t}', 0, price_hi)]
        if status:
            s = ctx.real(f'{pre}status{t}', 0, 1)
            ctx.assume(ctx.or_(s == 0, s == 1))
            row.append(s)
        rows.append(row)
    return rows


def led(lead, values):
    """`lead` earlier steps before the arbitrary ones: the episode starts late in a longer series."""
    if not lead:
        return values
    first = [7.0 + t % 24 for t in range(lead)]
    if isinstance(values[0], list):
        first = [[x, x / 2, 0.5, 1.0][:len(values[0])] for x in first]
    return first + values


def grid(ctx, T, pre='', status=True, raise_errors=False, free=None, lead=0, **kw):
    from pymgrid.modules import GridModule
    rows = grid_rows(ctx, T, pre, status, free=free)
    p = dict(max_import=ctx.real(pre + 'max_import', 0, 1000000), max_export=ctx.real(pre + 'max_export', 0, 1000000),
             cost_per_unit_co2=ctx.real(pre + 'grid_co2_cost', 0, 100))
    m = GridModule(time_series=ctx.array(led(lead, rows)), raise_errors=raise_errors, **p, **kw)
    return m, p, rows


def load(ctx, T, pre='', free=None, lead=0, **kw):
    from pymgrid.modules import LoadModule
    s = series(ctx, pre + 'load', T, free=free)
    return LoadModule(time_series=ctx.array(led(lead, s)), **kw), s


def renewable(ctx, T, pre='', raise_errors=False, free=None, lead=0, **kw):
    from pymgrid.modules import RenewableModule
    s = series(ctx, pre + 'pv', T, free=free)
    return RenewableModule(time_series=ctx.array(led(lead, s)), raise_errors=raise_errors, **kw), s


class Mix:
    """An arbitrary microgrid: spec is a list such as ['load', 'pv', 'battery', 'grid', 'genset']."""

    def __init__(self, ctx, spec, T, named=True, shaping=None, raise_errors=False, co2=True, status=True, ts_kw=None, genset_kw=None,
                 traj=None, cls=None, cls_kw=None, cost=True, balancing=None, free=None, lead=0, late=True):
        from pymgrid import Microgrid
        self.ctx, self.spec, self.T = ctx, spec, T
        self.loads, self.pvs, self.bats, self.grids, self.gens = [], [], [], [], []
        modules, self.cells, self.custom = [], 0, {}
        ts_kw = dict(ts_kw or {}, free=free)
        if lead:
            ts_kw['lead'] = lead
        self.order = []
        for kind in spec:
            if kind == 'load':
                pre = f'l{len(self.loads)}_'
                m, s = load(ctx, T, pre, **ts_kw)
                self.loads.append(s)
            elif kind == 'clock':       # a load of zero: keeps the time, moves no energy
                from pymgrid.modules import LoadModule
                m = LoadModule(time_series=ctx.array([0.0] * (T + lead)), **{k: v for k, v in ts_kw.items() if k not in ('free', 'lead')})
            elif kind == 'cell':        # a battery with fixed parameters
                from pymgrid.modules import BatteryModule
                m = BatteryModule(min_capacity=10.0, max_capacity=100.0, max_charge=20.0, max_discharge=30.0, efficiency=0.5, init_soc=0.5)
                kind = 'battery'
                self.cells += 1
            elif kind == 'pv':
                pre = f'r{len(self.pvs)}_'
                m, s = renewable(ctx, T, pre, raise_errors, **ts_kw)
                self.pvs.append(s)
            elif kind == 'battery':
                pre = f'b{len(self.bats)}_'
                m, p, c = battery(ctx, pre, raise_errors, cost=cost)
                self.bats.append((p, c))
            elif kind == 'grid':
                pre = f'g{len(self.grids)}_'
                m, p, rows = grid(ctx, T, pre, status, raise_errors, **ts_kw)
                self.grids.append((p, rows))
            elif kind == 'genset':
                pre = f'n{len(self.gens)}_'
                m, p = genset(ctx, pre, raise_errors, co2=co2, **(genset_kw or {}))
                self.gens.append(p)
            elif kind in ('penload', 'feedin', 'dump', 'heater'):     # user-defined modules
                from . import custom
                mine = self.custom.setdefault(kind, [])
                m, p = custom.make(ctx, kind, T, len(mine), ts_kw)
                mine.append(p)
            else:
                raise ValueError(kind)
            modules.append((kind, m) if named else m)
            self.order.append((kind, m))
        self.loss_cost = ctx.real('loss_load_cost', 0, 100)
        self.over_cost = ctx.real('overgeneration_cost', 0, 100)
        kw = dict(cls_kw or {})
        if shaping is not None:
            kw['reward_shaping_func'] = shaping
        if traj is not None:
            kw['trajectory_func'] = traj
        if balancing is not None:
            modules.append(balancing)
            kw['add_unbalanced_module'] = False
        self.modules_in = modules
        self.mg = (cls or Microgrid)(modules, loss_load_cost=self.loss_cost, overgeneration_cost=self.over_cost, **kw)
        if lead and late:
            self.mg.initial_step = lead
            self.mg.reset()

    def control(self, step, goals=None, lo=-3000000, hi=3000000):
        """An arbitrary unnormalised control for step number `step`."""
        ctx, c = self.ctx, {}
        if self.bats:
            c['battery'] = [ctx.real(f'b{i}_req{step}', lo, hi) for i in range(len(self.bats))]
        if self.grids:
            c['grid'] = [ctx.real(f'g{i}_req{step}', lo, hi) for i in range(len(self.grids))]
        if self.gens:
            c['genset'] = []
            for i in range(len(self.gens)):
                goal = ctx.real(f'n{i}_goal{step}', 0, 1)
                c['genset'].append(ctx.array([goal, ctx.real(f'n{i}_req{step}', 0, hi)]))
        if 'heater' in self.custom:
            c['heater'] = [ctx.real(f'heater{i}_req{step}', lo, 0) for i in range(len(self.custom['heater']))]
        return c


def energies(info):
    """(provided, absorbed) per module entry of a step's info."""
    out = []
    for name, lst in info.items():
        for j, d in enumerate(lst):
            out.append((name, j, d.get('provided_energy', 0.0), d.get('absorbed_energy', 0.0)))
    return out


def log_of(mg):
    """The public log: {(module, number, field): [values]}, and its index."""
    df = mg.get_log()
    return {c: df[c].tolist() for c in df.columns}, list(df.index)


def last_row(mg):
    return {c: v[-1] for c, v in log_of(mg)[0].items()}
