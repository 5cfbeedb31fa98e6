from symx.registry import harness
from . import common


def physics(ctx, b, p, c0, info, done):
    """Documented battery limits for one step from charge c0."""
    prov, absb = info.get('provided_energy', 0.0), info.get('absorbed_energy', 0.0)
    ctx.check(('provided_energy' in info) != ('absorbed_energy' in info), 'a battery step either provides or absorbs')
    c1 = b.current_charge
    ctx.within(p['min_capacity'], c1, p['max_capacity'], 'charge within capacity')
    ctx.within(0.0, b.soc, 1.0, 'soc within [0,1]')
    ctx.close(b.soc * p['max_capacity'], c1, 'soc is charge over capacity')
    sd = b.state_dict()
    ctx.close(sd['soc'], b.soc, 'state_dict soc')
    ctx.close(sd['current_charge'], c1, 'state_dict charge')
    ctx.le(0.0, prov, 'provided non-negative')
    ctx.le(0.0, absb, 'absorbed non-negative')
    ctx.le(prov, p['max_discharge'] * p['efficiency'], 'discharge limit')
    ctx.le(absb * p['efficiency'], p['max_charge'], 'charge limit')
    ctx.le(prov, (c0 - p['min_capacity']) * p['efficiency'], 'no more than what is stored')
    ctx.le(absb * p['efficiency'], p['max_capacity'] - c0, 'no more than the room left')
    ctx.check(not done, 'battery never ends the episode')


def make(ctx, cfg, **kw):
    from pymgrid.modules import BatteryModule
    p = common.battery_params(ctx)
    if cfg.get('init', 'charge') == 'charge':
        c0 = common.battery_charge(ctx, p)
        b = BatteryModule(init_charge=c0, **p, **kw)
    else:
        s = ctx.real('init_soc', 0, 1)
        c0 = s * p['max_capacity']
        ctx.assume(p['min_capacity'] <= c0)
        b = BatteryModule(init_soc=s, **p, **kw)
    return b, p, c0


@harness('C02', 'one_step', quick=[{'init': 'charge'}, {'init': 'soc'}],
         bounds='capacities and limits in [0,1000000], efficiency in (0,1], any charge within capacity, request in [-3000000,3000000]; one step from any valid state (inductive: covers histories of any length)')
def one_step(ctx, cfg):
    b, p, c0 = make(ctx, cfg)
    ctx.close(b.current_charge, c0, 'initial charge')
    ctx.close(b.soc * p['max_capacity'], c0, 'initial soc')
    a = ctx.real('request', -3000000, 3000000)
    _, r, done, info = b.step(a, normalized=False)
    physics(ctx, b, p, c0, info, done)


@harness('C02', 'history', quick=[{'k': 2}], thorough=[{'k': 3}],
         bounds='as one_step, k consecutive arbitrary requests, a reset in between')
def history(ctx, cfg):
    b, p, c0 = make(ctx, cfg)
    for t in range(cfg['k']):
        a = ctx.real(f'request{t}', -3000000, 3000000)
        c0 = b.current_charge
        _, r, done, info = b.step(a, normalized=False)
        physics(ctx, b, p, c0, info, done)
        if t == 0:
            b.reset()
            ctx.within(p['min_capacity'], b.current_charge, p['max_capacity'], 'charge within capacity after reset')


@harness('C02', 'normalized', quick=[{}], bounds='normalised request in [0,1] from any valid state')
def normalized(ctx, cfg):
    b, p, c0 = make(ctx, cfg)
    a = ctx.real('request', 0, 1)
    _, r, done, info = b.step(a, normalized=True)
    physics(ctx, b, p, c0, info, done)


@harness('C02', 'setters', quick=[{'via': 'soc'}, {'via': 'current_charge'}],
         bounds='state set through the public soc / current_charge attributes, then one step')
def setters(ctx, cfg):
    b, p, c0 = make(ctx, cfg)
    c = ctx.real('new_charge', 0, 1000000)
    ctx.assume(p['min_capacity'] <= c)
    ctx.assume(c <= p['max_capacity'])
    if cfg['via'] == 'soc':
        b.soc = c / p['max_capacity']
    else:
        b.current_charge = c
    ctx.close(b.current_charge, c, 'charge set')
    ctx.close(b.soc * p['max_capacity'], c, 'soc set')
    c0 = b.current_charge
    a = ctx.real('request', -3000000, 3000000)
    _, r, done, info = b.step(a, normalized=False)
    physics(ctx, b, p, c0, info, done)


@harness('C02', 'in_microgrid', quick=[{'n': 1}, {'n': 2}], bounds='battery (or two) inside a microgrid with a load, arbitrary control')
def in_microgrid(ctx, cfg):
    mix = common.Mix(ctx, ['load'] + ['battery'] * cfg['n'], 2)
    _, _, done, info = mix.mg.run(mix.control(0), normalized=False)
    for i, (p, c0) in enumerate(mix.bats):
        physics(ctx, mix.mg.modules.battery[i], p, c0, info['battery'][i], False)


# ------------------------------------------------------------------ accounting

def account(ctx, b, p, c0, r, info):
    prov, absb = info.get('provided_energy', 0.0), info.get('absorbed_energy', 0.0)
    e = p['efficiency']
    delta = b.current_charge - c0
    ctx.close(delta * e, absb * e * e - prov, 'stored energy change')
    ctx.close(r, -(ctx.abs(delta) * p['battery_cost_cycle']), 'wear cost')


@harness('C03', 'one_step', quick=[{'init': 'charge'}, {'init': 'soc'}, {'init': 'charge', 'norm': True}],
         bounds='any parameters (as C02), any valid state, any request (also normalised)')
def acc_one(ctx, cfg):
    b, p, c0 = make(ctx, cfg)
    a = ctx.real('request', 0, 1) if cfg.get('norm') else ctx.real('request', -3000000, 3000000)
    _, r, done, info = b.step(a, normalized=bool(cfg.get('norm')))
    account(ctx, b, p, c0, r, info)


@harness('C03', 'history', quick=[{'k': 2}], thorough=[{'k': 3}], bounds='k consecutive requests; reset between steps keeps the charge')
def acc_history(ctx, cfg):
    b, p, c0 = make(ctx, cfg)
    for t in range(cfg['k']):
        c0 = b.current_charge
        _, r, done, info = b.step(ctx.real(f'request{t}', -3000000, 3000000), normalized=False)
        account(ctx, b, p, c0, r, info)
        c1, s1 = b.current_charge, b.soc
        b.reset()
        ctx.close(b.current_charge, c1, 'reset keeps the charge')
        ctx.close(b.soc, s1, 'reset keeps the soc')
        ctx.close(b.state_dict()['current_charge'], c1, 'reported charge after reset')


@harness('C03', 'round_trip', quick=[{}], bounds='charge x then request everything back: at most efficiency^2 of the energy returns')
def acc_round_trip(ctx, cfg):
    b, p, c0 = make(ctx, cfg)
    ctx.assume(c0 == p['min_capacity'])
    _, _, _, i1 = b.step(ctx.real('charge_req', -3000000, 0), normalized=False)
    _, _, _, i2 = b.step(ctx.real('discharge_req', 0, 3000000), normalized=False)
    e = p['efficiency']
    ctx.le(i2.get('provided_energy', 0.0), e * e * i1.get('absorbed_energy', 0.0), 'round trip losses')


class Model:
    """A user-defined transition model: loses a fixed fraction in each direction."""

    def __init__(self, f):
        self.f = f
        self.calls = []

    def __call__(self, external_energy_change, **kw):
        self.calls.append((external_energy_change, kw))
        return external_energy_change * self.f


@harness('C03', 'transition_model', quick=[{}], bounds='user-defined linear transition model with factor in [0,1], any state and request')
def acc_model(ctx, cfg):
    f = ctx.real('factor', 0, 1)
    model = Model(f)
    b, p, c0 = make(ctx, cfg, battery_transition_model=model)
    ctx.assume(f <= p['efficiency'])
    lo_req, hi_req = b.max_consumption, b.max_production
    _, r, done, info = b.step(ctx.real('request', -3000000, 3000000), normalized=False)
    prov, absb = info.get('provided_energy', 0.0), info.get('absorbed_energy', 0.0)
    ctx.check(len(model.calls) == 1, 'transition model called once per step')
    ext, kw = model.calls[0]
    ctx.close(ext, absb - prov, 'transition model gets the external energy change')
    for k, v in p.items():
        ctx.close(kw[k], v, f'transition model gets {k}')
    ctx.close(kw['max_production'], hi_req, 'transition model gets max_production')
    ctx.close(kw['max_consumption'], lo_req, 'transition model gets max_consumption')
    ctx.close(kw['state_dict']['current_charge'], c0, 'transition model gets the state')
    ctx.close(b.current_charge, c0 + f * (absb - prov), 'stored energy change')
    ctx.close(r, -(ctx.abs(f * (absb - prov)) * p['battery_cost_cycle']), 'wear cost')


@harness('C03', 'in_microgrid', quick=[{}], bounds='battery in a microgrid with load and renewable, two steps of arbitrary control')
def acc_mg(ctx, cfg):
    mix = common.Mix(ctx, ['load', 'pv', 'battery'], 3)
    p, c = mix.bats[0]
    b = mix.mg.modules.battery[0]
    for t in range(2):
        c0 = b.current_charge
        _, _, _, info = mix.mg.run(mix.control(t), normalized=False)
        i = info['battery'][0]
        account(ctx, b, p, c0, mix.mg.modules.battery[0].logger_last['reward'], i)
