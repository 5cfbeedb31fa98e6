"""C26 benchmarks of non-modular microgrids."""
import contextlib
import io

from symx.registry import harness
from .h_legacy import Legacy, outcome


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def rules(ctx, lg, t, soc):
    """The control the rules ask for at step t."""
    p, load, pv = lg.p, lg.load[t], lg.pv[t]
    e = p['battery_efficiency']
    can_d = ctx.clip((soc - p['battery_soc_min']) * p['battery_capacity'] * e, 0.0, p['battery_power_discharge'])
    can_c = ctx.clip((p['battery_soc_max'] - soc) * p['battery_capacity'] / e, 0.0, p['battery_power_charge'])
    on, first = False, False
    if 'grid' in lg.parts:
        imp, exp, _, status = lg.rows[t]
        on = status > 0.5
        first = ctx.and_(on, exp >= imp * e * e)
    least, needed, alone = 0.0, False, False
    if 'genset' in lg.parts:
        running = p['genset_rated_power'] * p['genset_pmin']
        needed = ctx.and_(ctx.not_(on), load > pv + can_d)
        alone = ctx.and_(needed, running > load)
        least = ctx.ite(needed, running, 0.0)
    rest = load - ctx.ite(alone, load, least)
    pv = ctx.ite(alone, 0.0, pv)
    used = ctx.min(rest, pv)
    short, excess = rest - used, pv - used
    want = {'battery_discharge': ctx.ite(first, 0.0, ctx.min(can_d, short)), 'battery_charge': ctx.ite(first, 0.0, ctx.min(can_c, excess))}
    short, excess = short - want['battery_discharge'], excess - want['battery_charge']
    if 'grid' in lg.parts:
        want['grid_import'], want['grid_export'] = ctx.ite(on, short, 0.0), ctx.ite(on, excess, 0.0)
        short = ctx.ite(on, 0.0, short)
    if 'genset' in lg.parts:
        want['genset'] = least + short
    return want


PARTS = [['battery'], ['battery', 'grid'], ['battery', 'genset']]


@harness('C26', 'rules', quick=[{'parts': p} for p in PARTS] + [{'parts': ['battery', 'grid', 'genset'], 'status': True, 'brief': True}, {'parts': ['battery', 'grid'], 'status': True, 'brief': True}, {'parts': ['battery'], 'steps': 2, 'brief': True}],
         thorough=[{'parts': ['battery', 'grid', 'genset'], 'status': True}, {'parts': ['battery', 'genset'], 'steps': 2, 'brief': True}, {'parts': ['battery', 'grid'], 'steps': 2, 'brief': True}],
         bounds='microgrids with a battery and possibly a grid and genset, any parameters, series and state of charge; one or two steps')
def rules_(ctx, cfg):
    from pymgrid.algos.Control import Benchmarks
    steps = cfg.get('steps', 1)
    lg = Legacy(ctx, cfg['parts'], steps + 2, 1, status=bool(cfg.get('status')), free=steps + 1)
    b = Benchmarks(lg.mg)
    ctx.must_not_raise('running the benchmark', quiet, b.run_rule_based_benchmark)
    out = b.rule_based_output
    ctx.check(b.has_rule_based_benchmark and b.outputs_dict.get('rbc') is out and list(b.outputs_dict) == ['rbc'], 'the result is kept under its name')
    soc = lg.p['battery_soc_0']
    act, prod, cost, co2, status = (out[n] for n in ('action', 'production', 'cost', 'co2', 'status'))
    ctx.check(all(len(v) == steps for d in (act, prod, cost, co2) for v in d.values()) and all(len(v) == steps + 1 for v in status.values()), 'one record per step')
    for t in range(steps):
        want = rules(ctx, lg, t, soc)
        for n, w in want.items():
            ctx.close(act[n][t], w, f'{n} by priority')
        ctx.close(act['load'][t], lg.load[t], 'load of the step')
        ctx.close(act['pv'][t], lg.pv[t], 'pv of the step')
        at = lambda d, i: {k: v[i] for k, v in d.items()}
        if cfg.get('brief'):
            got = at(prod, t)
            for n in want:
                ctx.le(got[n], act[n][t] if n != 'genset' else ctx.max(act[n][t], 0.0), f'not more {n} than asked') if n != 'genset' else None
            new = soc + (got['battery_charge'] * lg.p['battery_efficiency'] - got['battery_discharge'] / lg.p['battery_efficiency']) / lg.p['battery_capacity']
            ctx.close(status['battery_soc'][t + 1], new, 'state of charge follows the executed powers')
            ctx.close(status['load'][t + 1], lg.load[t + 1], 'load of the next step')
        else:
            outcome(ctx, lg, t, soc, at(act, t), at(prod, t), at(cost, t), co2['co2'][t], cost['total_cost'][t], at(status, t + 1))
        soc = status['battery_soc'][t + 1]
    ctx.check(all(not v for v in lg.mg._df_record_cost.values()) and len(lg.mg._df_record_state['load']) == 1, 'the microgrid itself is not run')


def result(ctx, name, lg, n):
    from pymgrid.algos.Control import ControlOutput
    costs = [ctx.real(f'{name}{i}', -1000, 1000) for i in range(n)]
    parts = dict(action={'load': [1.0] * n}, status={'load': [1.0] * (n + 1)}, production={'loss_load': [0.0] * n}, cost={'co2': [0.0] * n, 'total_cost': list(costs)}, co2={'co2': [0.0] * n})
    return ControlOutput(tuple(parts), tuple(parts.values()), name), costs


@harness('C26', 'compare', quick=[{'n': 1}, {'n': 2}], thorough=[{'n': 3}], bounds='results of 1 to 3 steps with any costs')
def compare(ctx, cfg):
    a, ca = result(ctx, 'first', None, cfg['n'])
    b, cb = result(ctx, 'second', None, cfg['n'])
    x, y = ctx.sum(ca), ctx.sum(cb)
    ctx.assume(ctx.or_(x == y, x - y > 1e-6, y - x > 1e-6))
    for label, f, w in (('less', lambda: a < b, x < y), ('greater', lambda: a > b, x > y)):
        got = ctx.must_not_raise(f'comparing: {label}', lambda: bool(f()))
        ctx.check(w if got else ctx.not_(w), f'results compare by their total cost: {label}')
    ctx.check(bool(a == a), 'a result equals itself')
    if bool(a == b):
        ctx.check(abs(x - y) < 1e-6, 'equal results have the same cost')


@harness('C26', 'frame', quick=[{}], bounds='a result of 2 steps with any costs: the frame shows every record and the result is left as it was')
def frame(ctx, cfg):
    a, c = result(ctx, 'cost', None, 2)
    df = ctx.must_not_raise('frame', a.to_frame)
    ctx.check(len(df) == 3 and [tuple(x) for x in df.columns] == [(k, j) for k, v in a.items() for j in v], 'a column per record', str(list(df.columns)))
    for i in range(2):
        ctx.close(df[('cost', 'total_cost')].iloc[i], c[i], 'cost of the step')
    ctx.check(df[('cost', 'total_cost')].iloc[2] != df[('cost', 'total_cost')].iloc[2], 'a missing record is not a number')
    ctx.check({k: {j: len(x) for j, x in v.items()} for k, v in a.items()} == dict(action={'load': 2}, status={'load': 3}, production={'loss_load': 2}, cost={'co2': 2, 'total_cost': 2}, co2={'co2': 2}), 'the result is left as it was')


@harness('C26', 'kept', quick=[{'algo': a} for a in ('mpc', 'rbc', 'saa', None)], bounds='every selection of benchmarks; the planners give any result')
def kept(ctx, cfg):
    from unittest import mock
    from pymgrid.algos.Control import Benchmarks
    from pymgrid.algos import ModelPredictiveControl
    from pymgrid.algos.rbc._nonmodular_rbc import NonModularRuleBasedControl
    from pymgrid.algos.saa.saa import SampleAverageApproximation
    lg = Legacy(ctx, ['battery'], 3, 1)
    made, seen = {}, []

    def planner(name):
        def run(self, *args, **k):
            if name not in made:
                made[name] = result(ctx, name, lg, 2)[0]
            seen.append((name, self.microgrid is lg.mg))
            return made[name]
        return run

    def init(self, microgrid, *args, **k):
        self.microgrid = microgrid
    with mock.patch.object(ModelPredictiveControl, '__init__', init), mock.patch.object(ModelPredictiveControl, 'run', planner('mpc')), \
            mock.patch.object(SampleAverageApproximation, '__init__', init), mock.patch.object(SampleAverageApproximation, 'run', planner('saa')), \
            mock.patch.object(NonModularRuleBasedControl, '__init__', init), mock.patch.object(NonModularRuleBasedControl, 'run_rule_based', planner('rbc')):
        b = Benchmarks(lg.mg)
        ctx.must_not_raise('running benchmarks', quiet, b.run_benchmarks, algo=cfg['algo'])
    want = [cfg['algo']] if cfg['algo'] else ['mpc', 'rbc', 'saa']
    ctx.check(sorted(seen) == [(n, True) for n in sorted(want)], 'the asked benchmarks run once on the microgrid', str(seen))
    ctx.check(sorted(b.outputs_dict) == sorted(want) and all(b.outputs_dict[n] is made[n] for n in want), 'results are kept under their names')
    ctx.check((b.has_mpc_benchmark, b.has_rule_based_benchmark, b.has_saa_benchmark) == tuple(n in want for n in ('mpc', 'rbc', 'saa')), 'what has been run is known')
    ctx.check(all((x is made[n]) if n in want else x is None for n, x in (('mpc', b.mpc_output), ('rbc', b.rule_based_output), ('saa', b.saa_output))), 'results are at hand')
