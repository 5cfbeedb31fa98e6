"""C02 under floating-point rounding: every +, -, *, / of the code under test may be off by half an ulp, as the solver likes.

A counterexample of this model fixes a situation, not the rounding of the hardware; the replay therefore looks for it at several
scales of the same situation.
"""
import random
from symx.registry import harness


def scales(ctx):
    if ctx.symbolic:
        return [1.0]
    rng = random.Random(1)
    return [1.0] + [rng.uniform(0.01, 1.0) for _ in range(300)]


@harness('C02', 'rounding', quick=[{'e': e, 'k': 1, 'init': 'charge'} for e in (1.0, 0.9, 0.7)] + [{'e': 0.9, 'k': 1, 'init': 'soc'}],
         thorough=[{'e': e, 'k': 2, 'init': 'charge'} for e in (0.9, 0.3, 1.0)] + [{'e': e, 'k': 1, 'init': 'soc'} for e in (1.0, 0.7)],
         bounds='floats with any rounding of every operation (relative error 2^-53): any capacities of at least 0.001, limits, charge and k consecutive requests, listed efficiencies; the charge is exactly within capacity after every step (inductive: any float state) and no step fails')
def rounding(ctx, cfg):
    from pymgrid.modules import BatteryModule
    mn, mx = ctx.real('min_capacity', 0, 1000), ctx.real('max_capacity', 0.001, 1000)
    ctx.assume(mn < mx)
    mc, md = ctx.real('max_charge', 0, 1000), ctx.real('max_discharge', 0, 1000)
    c = ctx.real('init', 0, 1000)
    ctx.assume(mn <= c)
    ctx.assume(c <= mx)
    reqs = [ctx.real(f'request{t}', -3000, 3000) for t in range(cfg['k'])]
    for f in scales(ctx):
        ctx.use_rounding(landmarks=[mn, mx] if cfg['init'] == 'soc' else [])
        p = dict(min_capacity=mn * f, max_capacity=mx * f, max_charge=mc * f, max_discharge=md * f, efficiency=cfg['e'])
        if not p['min_capacity'] <= c * f <= p['max_capacity']:
            continue
        try:
            if cfg['init'] == 'soc':    # as a user would give it
                s = c * f / p['max_capacity']
                if not (s <= 1.0 and s * p['max_capacity'] >= p['min_capacity']):
                    continue
                b = BatteryModule(init_soc=s, raise_errors=False, **p)
            else:
                b = BatteryModule(init_charge=c * f, raise_errors=False, **p)
        finally:
            ctx.use_rounding(False)
        ctx.check(ctx.and_(p['min_capacity'] <= b.current_charge, b.current_charge <= p['max_capacity']), 'initial charge within capacity')
        for a in reqs:
            ctx.use_rounding()
            out = ctx.must_not_raise('step', b.step, a * f, normalized=False)
            ctx.use_rounding(False)
            x = b.current_charge
            ctx.check(ctx.and_(p['min_capacity'] <= x, x <= p['max_capacity']), 'charge exactly within capacity')
            ctx.within(0.0, b.soc, 1.0, 'soc within [0,1]')
            for v in out[3].values():
                ctx.check(v >= 0, 'energies are not negative')


@harness('C01', 'rounding', quick=[{'spec': ['load', 'pv']}, {'spec': ['load', 'feedin', 'dump']}, {'spec': ['load', 'cell']}],
         thorough=[{'spec': ['load', 'pv', 'pv']}, {'spec': ['load', 'heater']}, {'spec': ['load', 'pv', 'genset']}],
         bounds='floats with any rounding of every operation (relative error 2^-53) of the listed compositions: no step fails and the totals agree')
def balance_rounding(ctx, cfg):
    from . import common
    ctx.use_rounding(landmarks=[])
    mix = common.Mix(ctx, cfg['spec'], 2, co2=False, cost=False, status=False)
    out = ctx.must_not_raise('step', mix.mg.run, dict(mix.control(0), **({'battery': [ctx.real('cell_req', -300, 300)]} if mix.cells else {})), normalized=False)
    ctx.use_rounding(False)
    p = a = 0.0
    for name, j, x, y in common.energies(out[3]):
        ctx.check(ctx.and_(x >= 0, y >= 0), 'energies are not negative')
        p, a = p + x, a + y
    ctx.close(p, a, 'provided equals absorbed')
