"""C09 requests: executed, clipped or rejected."""
from symx.registry import harness
from . import common


def make(ctx, kind, errors):
    if kind == 'battery':
        m, p, c = common.battery(ctx, raise_errors=errors, cost=False)
    elif kind == 'grid':
        m, p, rows = common.grid(ctx, 2, raise_errors=errors)
    elif kind == 'renewable':
        m, s = common.renewable(ctx, 2, raise_errors=errors)
    elif kind == 'genset':
        on = ctx.const_int('on', 0, 1)
        m, p = common.genset(ctx, raise_errors=errors, co2=False, start_up_time=1, wind_down_time=1, init_start_up=bool(on))
    return m


def outcome(ctx, m, kind, action, req, normalized=False):
    """Limits before the step, then the step."""
    sink = m.is_sink
    hi, lo = m.max_production, m.min_production
    sk = m.max_consumption if sink else 0.0
    before = (m.state_dict(), m.current_step, {k: len(v) for k, v in m.log_dict().items()})
    result, e = ctx.raises(m.step, action, normalized=normalized)
    feasible = ctx.or_(ctx.and_(req >= 0, req >= lo, req <= hi), ctx.and_(req < 0, -req <= sk))
    return hi, lo, sk, before, result, e, feasible


def action_of(ctx, kind, req, goal=None):
    return ctx.array([goal, req]) if kind == 'genset' else req


KINDS = ('battery', 'grid', 'renewable', 'genset')


@harness('C09', 'clipped', quick=[{'kind': k} for k in KINDS] + [{'kind': 'battery', 'arr': True}],
         bounds='any parameters, state, request in [-3000000,3000000] (sources only: [0,3000000]); errors off')
def clipped(ctx, cfg):
    kind = cfg['kind']
    m = make(ctx, kind, False)
    req = ctx.real('request', -3000000 if m.is_sink else 0, 3000000)
    goal = float(m.current_status) if kind == 'genset' else None
    act = ctx.array([req]) if cfg.get('arr') else action_of(ctx, kind, req, goal)
    hi, lo, sk, before, result, e, feasible = outcome(ctx, m, kind, act, req)
    ctx.check(e is None, 'no error when errors are off', repr(e))
    info = result[3]
    prov, absb = info.get('provided_energy', 0.0), info.get('absorbed_energy', 0.0)
    ctx.close(prov, ctx.ite(req >= 0, ctx.max(lo, ctx.min(req, hi)), 0.0), 'provided energy is the request, limited')
    ctx.close(absb, ctx.ite(req < 0, ctx.min(-req, sk), 0.0), 'absorbed energy is the request, limited')
    ctx.check(m.current_step == before[1] + 1, 'one step taken')


@harness('C09', 'rejected', quick=[{'kind': k} for k in KINDS], bounds='any parameters, state and request; errors on: boundary requests are executed, others rejected without effect')
def rejected(ctx, cfg):
    kind = cfg['kind']
    m = make(ctx, kind, True)
    req = ctx.real('request', -3000000 if m.is_sink else 0, 3000000)
    goal = float(m.current_status) if kind == 'genset' else None
    hi, lo, sk, before, result, e, feasible = outcome(ctx, m, kind, action_of(ctx, kind, req, goal), req)
    if e is None:
        ctx.check(feasible, 'infeasible request rejected')
        info = result[3]
        ctx.close(info.get('provided_energy', 0.0) - info.get('absorbed_energy', 0.0), req, 'request executed exactly')
        ctx.check(m.current_step == before[1] + 1, 'one step taken')
    else:
        ctx.check(ctx.not_(feasible), 'feasible request accepted', repr(e))
        ctx.check(isinstance(e, ValueError), 'rejected with a ValueError', repr(e))
        unchanged(ctx, m, before)


def unchanged(ctx, m, before):
    for k, v in m.state_dict().items():
        ctx.close(v, before[0][k], 'state unchanged by a rejected request')
    ctx.check(m.current_step == before[1], 'no step taken by a rejected request')
    ctx.check({k: len(v) for k, v in m.log_dict().items()} == before[2], 'nothing logged by a rejected request')


@harness('C09', 'at_limit', quick=[{'kind': k, 'dir': d, 'errors': e} for k, d in (('battery', 1), ('battery', -1), ('grid', 1), ('grid', -1), ('renewable', 1), ('genset', 1)) for e in (True, False)],
         bounds='a request of exactly the reported limit, any parameters and state, is executed exactly with either error setting')
def at_limit(ctx, cfg):
    kind = cfg['kind']
    m = make(ctx, kind, cfg['errors'])
    req = m.max_production if cfg['dir'] > 0 else -1 * m.max_consumption
    goal = float(m.current_status) if kind == 'genset' else None
    out = ctx.must_not_raise('step at the limit', m.step, action_of(ctx, kind, req, goal), normalized=False)
    info = out[3]
    ctx.close(info.get('provided_energy', 0.0) - info.get('absorbed_energy', 0.0), req, 'request executed exactly')


@harness('C09', 'second', quick=[{'kind': k} for k in ('grid', 'genset')], thorough=[{'kind': 'battery'}],
         bounds='errors on: a rejected request followed by a feasible one behaves as if the first had not been made')
def second(ctx, cfg):
    kind = cfg['kind']
    m = make(ctx, kind, True)
    goal = float(m.current_status) if kind == 'genset' else None
    hi = m.max_production
    over = ctx.real('excess', 0, 1000000, lo_open=True)
    before = (m.state_dict(), m.current_step, {k: len(v) for k, v in m.log_dict().items()})
    _, e = ctx.raises(m.step, action_of(ctx, kind, hi + over, goal), normalized=False)
    if not ctx.symbolic and not hi + over > hi:
        return                      # absorbed by rounding
    ctx.check(isinstance(e, ValueError), 'too large a request rejected')
    unchanged(ctx, m, before)
    out = ctx.must_not_raise('step', m.step, action_of(ctx, kind, hi, goal), normalized=False)
    ctx.close(out[3]['provided_energy'], hi, 'request executed exactly')


@harness('C09', 'in_microgrid', quick=[{'kind': 'grid'}, {'kind': 'battery'}], bounds='errors on in a microgrid: the request is executed exactly or the step raises a ValueError')
def in_mg(ctx, cfg):
    kind = cfg['kind']
    mix = common.Mix(ctx, ['clock', kind], 2, co2=False, cost=False, raise_errors=True)
    m = getattr(mix.mg.modules, kind)[0]
    c = mix.control(0)
    req = c[kind][0]
    hi, sk = m.max_production, m.max_consumption
    feasible = ctx.or_(ctx.and_(req >= 0, req <= hi), ctx.and_(req < 0, -req <= sk))
    out, e = ctx.raises(mix.mg.run, c, normalized=False)
    if e is None:
        ctx.check(feasible, 'infeasible request rejected')
        info = out[3][kind][0]
        ctx.close(info.get('provided_energy', 0.0) - info.get('absorbed_energy', 0.0), req, 'request executed exactly')
    else:
        ctx.check(ctx.not_(feasible), 'feasible request accepted', repr(e))
        ctx.check(isinstance(e, ValueError), 'rejected with a ValueError', repr(e))
