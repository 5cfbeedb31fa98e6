"""C04 genset status machine, C05 genset production, fuel cost and CO2."""
from symx.registry import harness
from . import common


class Ref:
    """The documented start-up / wind-down rules."""

    def __init__(self, on, su, wd, abort):
        self.cur = self.goal = on
        self.su, self.wd, self.abort = su, wd, abort
        self.left = None                     # steps left of a change in progress

    def clone(self):
        r = Ref(self.cur, self.su, self.wd, self.abort)
        r.goal, r.left = self.goal, self.left
        return r

    def step(self, g):
        if self.goal != self.cur and not self.abort:
            g = self.goal
        if g == self.cur:
            self.goal, self.left = self.cur, None
            return
        if self.left is None:
            self.goal = g
            self.left = self.su if g else self.wd
        if self.left == 0:
            self.cur, self.left = g, None
        else:
            self.left = self.left - 1

    def counters(self):
        up, down = (0, self.wd) if self.cur else (self.su, 0)
        if self.left is not None:
            if self.goal:
                up = self.left
            else:
                down = self.left
        return up, down


def check_state(ctx, g, r, when):
    sd = g.state_dict()
    ctx.check(g.current_status == r.cur and sd['current_status'] == r.cur, f'status {when}')
    ctx.check(g.goal_status == r.goal and sd['goal_status'] == r.goal, f'goal {when}')
    up, down = r.counters()
    ctx.check(sd['steps_until_up'] == up, f'steps until up {when}')
    ctx.check(sd['steps_until_down'] == down, f'steps until down {when}')


def check_prediction(ctx, g, r, p):
    for goal in (0, 1):
        n = r.clone()
        n.step(goal)
        before = g.state_dict()
        ctx.check(g.next_status(goal) == n.cur, 'predicted status')
        ctx.close(g.next_max_production(goal), n.cur * p['running_max_production'], 'predicted maximum production')
        ctx.close(g.next_min_production(goal), n.cur * p['running_min_production'], 'predicted minimum production')
        after = g.state_dict()
        for k in before:
            ctx.check(before[k] == after[k], 'prediction does not change the genset')


@harness('C04', 'machine', quick=[{'k': 4, 'abort': a, 'on': o} for a in (True, False) for o in (0, 1)],
         thorough=[{'k': 6, 'abort': a, 'on': o} for a in (True, False) for o in (0, 1)],
         bounds='any start-up and wind-down time 0..1000, any sequence of k goals; prediction and state compared after every step')
def machine(ctx, cfg):
    su, wd = ctx.int('start_up_time', 0, 1000), ctx.int('wind_down_time', 0, 1000)
    g, p = common.genset(ctx, co2=False, start_up_time=su, wind_down_time=wd, allow_abortion=cfg['abort'], init_start_up=bool(cfg['on']))
    r = Ref(cfg['on'], su, wd, cfg['abort'])
    check_state(ctx, g, r, 'initially')
    for t in range(cfg['k']):
        goal = ctx.const_int(f'goal{t}', 0, 1)
        check_prediction(ctx, g, r, p)
        req = 0.0
        _, _, _, info = ctx.must_not_raise('step', g.step, ctx.array([float(goal), req]), normalized=False)
        r.step(goal)
        check_state(ctx, g, r, 'after a step')
        ctx.close(g.max_production, r.cur * p['running_max_production'], 'maximum production by status')
        ctx.close(g.min_production, r.cur * p['running_min_production'], 'minimum production by status')
        ctx.close(info['provided_energy'], r.cur * p['running_min_production'], 'production in the status in effect')


@harness('C04', 'concrete_times', quick=[{'su': a, 'wd': b, 'abort': x} for a, b in ((0, 0), (0, 2), (1, 0), (2, 1)) for x in (True, False)],
         thorough=[{'su': a, 'wd': b, 'abort': x, 'k': 8} for a in range(4) for b in range(4) for x in (True, False)],
         bounds='start-up/wind-down times as configured, k=5 (thorough 8) goals in [0,1], rounded; both initial statuses')
def concrete_times(ctx, cfg):
    on = ctx.const_int('on', 0, 1)
    g, p = common.genset(ctx, co2=False, start_up_time=cfg['su'], wind_down_time=cfg['wd'], allow_abortion=cfg['abort'], init_start_up=bool(on))
    r = Ref(on, cfg['su'], cfg['wd'], cfg['abort'])
    for t in range(cfg.get('k', 5)):
        x = ctx.real(f'goal{t}', 0, 1)
        goal = 1 if x > 0.5 else 0
        g.step(ctx.array([x, p['running_min_production']]), normalized=bool(t % 2) and False)
        r.step(goal)
        check_state(ctx, g, r, 'after a step')


@harness('C04', 'in_microgrid', quick=[{'su': 2, 'wd': 1}, {'su': 0, 'wd': 3}], thorough=[{'su': 1, 'wd': 1}, {'su': 3, 'wd': 0}],
         bounds='a genset in a microgrid driven by normalised controls, 4 steps, any goals in [0,1]; resetting in between keeps the machine consistent')
def in_microgrid(ctx, cfg):
    on = ctx.const_int('on', 0, 1)
    mix = common.Mix(ctx, ['clock', 'genset'], 6, co2=False, genset_kw=dict(start_up_time=cfg['su'], wind_down_time=cfg['wd'], init_start_up=bool(on)))
    mg, p = mix.mg, mix.gens[0]
    ctx.assume(p['running_max_production'] > 0)
    g = mg.modules.genset[0]
    r = Ref(on, cfg['su'], cfg['wd'], True)
    for t in range(4):
        x = ctx.real(f'goal{t}', 0, 1)
        _, _, _, info = mg.run({'genset': [ctx.array([x, 0.0])]}, normalized=True)
        r.step(1 if x > 0.5 else 0)
        check_state(ctx, g, r, 'after a microgrid step')
        ctx.close(info['genset'][0]['provided_energy'], r.cur * p['running_min_production'], 'production in the status in effect')


@harness('C04', 'bad_goal', quick=[{'how': 'step'}, {'how': 'update'}], bounds='any goal outside [0,1] is rejected and changes nothing')
def bad_goal(ctx, cfg):
    g, p = common.genset(ctx, co2=False, start_up_time=2, wind_down_time=1)
    x = ctx.real('goal', -5, 5)
    ctx.assume(ctx.or_(x < 0, x > 1))
    before = g.state_dict()
    if cfg['how'] == 'step':
        _, e = ctx.raises(g.step, ctx.array([x, 0.0]), normalized=False)
    else:
        _, e = ctx.raises(g.update_status, x)
    ctx.check(isinstance(e, (ValueError, AssertionError)), 'goal outside [0,1] rejected')
    for k, v in g.state_dict().items():
        ctx.check(v == before[k], 'rejected goal changes nothing')


# ------------------------------------------------------------------------ C05

@harness('C05', 'one_step', quick=[{'cost': c, 'norm': n, 'su': s} for c in ('linear', 'callable') for n in (False, True) for s in (0, 1)],
         bounds='any limits, fuel and CO2 prices, request 0..3000000 (or normalised), status and goal; one step')
def c05_one(ctx, cfg):
    on = ctx.const_int('on', 0, 1)
    goal = ctx.const_int('goal', 0, 1)
    wd = ctx.const_int('wind_down_time', 0, 1)
    g, p = common.genset(ctx, cost=cfg['cost'], start_up_time=cfg['su'], wind_down_time=wd, init_start_up=bool(on))
    mn, mx = p['running_min_production'], p['running_max_production']
    if cfg['norm']:
        x = ctx.real('request', 0, 1)
        ctx.assume(mx > 0)
        req = x * mx
        action = ctx.array([float(goal), x])
    else:
        req = ctx.real('request', 0, 3000000)
        action = ctx.array([float(goal), req])
    _, reward, done, info = ctx.must_not_raise('step', g.step, action, normalized=cfg['norm'])
    ref = Ref(on, cfg['su'], wd, True)
    ref.step(goal)
    e = ref.cur * ctx.clip(req, mn, mx)
    check_production(ctx, g, p, info, reward, e)
    ctx.check(not done, 'a genset never ends an episode')


def check_production(ctx, g, p, info, reward, e):
    out = info['provided_energy']
    ctx.close(out, e, 'production is the request limited by status and running limits')
    ctx.check('absorbed_energy' not in info, 'a genset absorbs nothing')
    co2 = p['co2_per_unit'] * out
    ctx.close(info['co2_production'], co2, 'reported CO2')
    fuel = p['genset_cost'](out) if callable(p['genset_cost']) else p['genset_cost'] * out
    ctx.close(reward, -(fuel + p['cost_per_unit_co2'] * co2), 'reward is minus fuel and CO2 cost')
    last = g.logger_last
    ctx.close(last['genset_production'], out, 'logged production')
    ctx.close(last['co2_production'], co2, 'logged CO2')
    ctx.close(last['reward'], reward, 'logged reward')


@harness('C05', 'helpers', quick=[{'cost': 'linear'}, {'cost': 'callable'}], bounds='cost functions for any production; marginal cost is the cost of one unit')
def c05_helpers(ctx, cfg):
    g, p = common.genset(ctx, cost=cfg['cost'])
    e = ctx.real('production', 0, 1000000)
    f = p['genset_cost'] if callable(p['genset_cost']) else (lambda x: p['genset_cost'] * x)
    ctx.close(g.get_cost(e), f(e) + p['cost_per_unit_co2'] * p['co2_per_unit'] * e, 'total cost')
    ctx.close(g.get_co2(e), p['co2_per_unit'] * e, 'co2')
    ctx.close(g.get_co2_cost(e), p['cost_per_unit_co2'] * p['co2_per_unit'] * e, 'co2 cost')
    ctx.close(g.marginal_cost, f(1.0) + p['cost_per_unit_co2'] * p['co2_per_unit'], 'marginal cost')


@harness('C05', 'history', quick=[{'k': 3, 'su': 1, 'wd': 1}, {'k': 2, 'su': 0, 'wd': 2}], thorough=[{'k': 4, 'su': 1, 'wd': 2}, {'k': 3, 'su': 2, 'wd': 0}],
         bounds='k steps, any goals and requests: every step produces according to the status in effect')
def c05_history(ctx, cfg):
    on = ctx.const_int('on', 0, 1)
    g, p = common.genset(ctx, start_up_time=cfg['su'], wind_down_time=cfg['wd'], init_start_up=bool(on))
    ref = Ref(on, cfg['su'], cfg['wd'], True)
    for t in range(cfg['k']):
        goal, req = ctx.const_int(f'goal{t}', 0, 1), ctx.real(f'request{t}', 0, 3000000)
        _, reward, _, info = ctx.must_not_raise('step', g.step, ctx.array([float(goal), req]), normalized=False)
        ref.step(goal)
        check_production(ctx, g, p, info, reward, ref.cur * ctx.clip(req, p['running_min_production'], p['running_max_production']))


@harness('C05', 'in_microgrid', quick=[{'spec': ['load', 'genset']}, {'spec': ['clock', 'genset', 'genset']}], bounds='gensets in a microgrid, any goals and requests, one step')
def c05_mg(ctx, cfg):
    mix = common.Mix(ctx, cfg['spec'], 2)
    goals = [ctx.const_int(f'goal{i}', 0, 1) for i in range(len(mix.gens))]
    reqs = [ctx.real(f'request{i}', 0, 3000000) for i in range(len(mix.gens))]
    _, _, _, info = mix.mg.run({'genset': [ctx.array([float(a), b]) for a, b in zip(goals, reqs)]}, normalized=False)
    for i, p in enumerate(mix.gens):
        m = mix.mg.modules.genset[i]
        check_production(ctx, m, p, info['genset'][i], m.logger_last['reward'],
                         goals[i] * ctx.clip(reqs[i], p['running_min_production'], p['running_max_production']))


@harness('C05', 'invalid', quick=[{}], bounds='minimum above maximum production is rejected at construction')
def c05_invalid(ctx, cfg):
    from pymgrid.modules import GensetModule
    a, b = ctx.real('min', 0, 100), ctx.real('max', 0, 100)
    _, e = ctx.raises(GensetModule, running_min_production=a, running_max_production=b, genset_cost=1.0)
    ctx.check(ctx.implies(a > b, isinstance(e, ValueError)), 'rejected')
    ctx.check(ctx.implies(a <= b, e is None), 'accepted')
