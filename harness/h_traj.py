"""C17 built-in trajectories."""
from symx.registry import harness
from . import common
from .h_space import episode, zero_control

N = 10 ** 6


@harness('C17', 'stochastic', quick=[{}], bounds='any range of 1..10^6 steps starting at any step up to 10^6, any draws')
def stochastic(ctx, cfg):
    from pymgrid.microgrid.trajectory import StochasticTrajectory
    ctx.use_random()
    lo, n = ctx.int('lo', 0, N), ctx.int('n', 1, N)
    a, b = ctx.must_not_raise('trajectory', StochasticTrajectory(), lo, lo + n)
    ctx.le(lo, a, 'initial step inside the range')
    ctx.le(b, lo + n, 'final step inside the range')
    ctx.check(a < b, 'initial step before the final step')


@harness('C17', 'fixed_length', quick=[{}], bounds='any range of 1..10^6 steps starting at any step up to 10^6, any requested length 1..10^6, any draws')
def fixed_length(ctx, cfg):
    from pymgrid.microgrid.trajectory import FixedLengthStochasticTrajectory
    ctx.use_random()
    lo, n, k = ctx.int('lo', 0, N), ctx.int('n', 1, N), ctx.int('length', 1, N)
    r, e = ctx.raises(FixedLengthStochasticTrajectory(k), lo, lo + n)
    if k > n:
        ctx.check(isinstance(e, ValueError), 'a range shorter than the length is rejected', repr(e))
        return
    if e is not None:
        ctx.forbid('no trajectory although the range is long enough', type(e).__name__)
        return
    a, b = r
    ctx.le(lo, a, 'initial step inside the range')
    ctx.le(b, lo + n, 'final step inside the range')
    ctx.check(b - a == k, 'exactly the requested length')


@harness('C17', 'deterministic', quick=[{}], bounds='any requested bounds and range up to 10^6')
def deterministic(ctx, cfg):
    from pymgrid.microgrid.trajectory import DeterministicTrajectory
    a, n = ctx.int('a', 0, N), ctx.int('n', 1, N)
    lo, hi = ctx.int('lo', 0, N), ctx.int('hi', 0, N)
    ctx.assume(lo <= a)
    ctx.assume(a + n <= hi)
    f = DeterministicTrajectory(a, a + n)
    for _ in range(2):
        x, y = f(lo, hi)
        ctx.check(x == a, 'initial step as requested')
        ctx.check(y == a + n, 'final step as requested')


def make(ctx, kind, T):
    from pymgrid.microgrid.trajectory import DeterministicTrajectory, FixedLengthStochasticTrajectory, StochasticTrajectory
    if kind == 'stochastic':
        return StochasticTrajectory(), None
    if kind == 'fixed':
        k = ctx.const_int('length', 1, T)
        return FixedLengthStochasticTrajectory(k), k
    a, b = ctx.const_int('a', 0, T - 1), ctx.const_int('b', 1, T)
    ctx.assume(a < b)
    return DeterministicTrajectory(a, b), b - a


@harness('C17', 'microgrid', quick=[{'kind': k, 'T': T} for k in ('stochastic', 'fixed', 'deterministic') for T in (1, 2, 4)],
         thorough=[{'kind': k, 'T': 7} for k in ('stochastic', 'fixed', 'deterministic')],
         bounds='microgrids of 1, 2 and 4 (thorough 7) steps, any draws at construction and two resets; every episode is stepped to its end')
def microgrid(ctx, cfg):
    T = cfg['T']
    ctx.use_random(fork_ints=True)
    traj, k = make(ctx, cfg['kind'], T)
    mix = ctx.must_not_raise('construction', common.Mix, ctx, ['clock', 'pv'], T, traj=traj)
    mg = mix.mg
    for _ in range(2):
        ctx.must_not_raise('reset', mg.reset)
        mods = [m for m in mg.modules.to_list() if hasattr(m, 'time_series')]
        a, b = int(mods[0].initial_step), int(mods[0].final_step)
        ctx.check(0 <= a < b <= T, 'bounds inside the range', f'{a} {b}')
        ctx.check(all(m.initial_step == a and m.final_step == b and m.current_step == a for m in mods), 'all modules share the bounds')
        if k is not None:
            ctx.check(b - a == k, 'requested length', f'{b - a} {k}')
        if a < b <= T:
            episode(ctx, mix, a, b, b - a, zero_control(ctx, mix))


@harness('C17', 'repr', quick=[{}], bounds='trajectories compare equal exactly if they are of the same kind with the same parameters')
def same(ctx, cfg):
    from pymgrid.microgrid.trajectory import DeterministicTrajectory, FixedLengthStochasticTrajectory, StochasticTrajectory
    a, b, k = ctx.const_int('a', 0, 2), ctx.const_int('b', 0, 2), ctx.const_int('k', 1, 2)
    fs = [StochasticTrajectory(), FixedLengthStochasticTrajectory(k), DeterministicTrajectory(a, b)]
    gs = [StochasticTrajectory(), FixedLengthStochasticTrajectory(1), DeterministicTrajectory(1, 2)]
    for i, f in enumerate(fs):
        for j, g in enumerate(gs):
            want = i == j and (i == 0 or (i == 1 and k == 1) or (i == 2 and (a, b) == (1, 2)))
            ctx.check(ctx.must_not_raise('comparison', lambda: f == g) == want, 'equality of trajectories', f'{i} {j}')
