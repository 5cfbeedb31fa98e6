"""The harness-side API.  A harness runs unchanged in two worlds:

* SymCtx  - inputs are symbolic, checks become solver obligations
* ConcCtx - inputs are floats from a solver model, checks are evaluated with a
            tolerance against the *unpatched* code (replay / validation)
"""
import math
import os
import traceback
from fractions import Fraction

import numpy as np

TOL = 1e-9       # concrete tolerance (relative to 1+|a|+|b|)
MARGIN = Fraction(1, 10 ** 6)  # symbolic violations have to exceed this (same scale)


class CheckFailed(Exception):
    def __init__(self, label, detail=''):
        super().__init__(f'{label}: {detail}')
        self.label = label


class SkipCase(BaseException):
    pass


class BaseCtx:
    symbolic = False

    def array(self, rows):
        raise NotImplementedError

    def forbid(self, label, detail=''):
        """An execution that must not happen."""
        self.check(False, label, detail)

    def must_not_raise(self, label, f, *a, **k):
        try:
            return f(*a, **k)
        except Exception as e:
            if os.environ.get('SYMX_TB'):
                traceback.print_exc()
            self.check(False, f'{label}: raised {type(e).__name__}', str(e)[:200])
            raise SkipCase()

    def raises(self, f, *a, **k):
        """(result, exception) of a call of the code under test."""
        try:
            return f(*a, **k), None
        except Exception as e:
            return None, e

    def closes(self, pairs, label):
        for i, (a, b) in enumerate(pairs):
            self.close(a, b, f'{label}[{i}]')

    def within(self, lo, x, hi, label):
        self.le(lo, x, label + ' (lower)')
        self.le(x, hi, label + ' (upper)')

    def min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.ite(self.lt_(x, r), x, r)
        return r

    def max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.ite(self.lt_(r, x), x, r)
        return r

    def abs(self, x):
        return self.max(x, -x)

    def sum(self, xs):
        r = 0.0
        for x in xs:
            r = r + x
        return r

    def clip(self, x, lo, hi):
        return self.max(lo, self.min(x, hi))

    def same_array(self, a, b, label):
        a, b = np.asarray(a, dtype=object).reshape(-1).tolist(), np.asarray(b, dtype=object).reshape(-1).tolist()
        self.check(len(a) == len(b), f'{label}: length', f'{len(a)} != {len(b)}')
        if len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                self.close(x, y, f'{label}[{i}]')


class ConcCtx(BaseCtx):
    def __init__(self, inputs):
        self.inputs = inputs
        self.failures = []
        self.observed = []
        self.nchecks = 0
        self.seeds = {}

    # inputs
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        return float(self.inputs.get(name, lo if lo is not None else 0.0))

    def int(self, name, lo, hi):
        return int(self.inputs.get(name, lo))

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def const_int(self, name, lo, hi):
        return self.int(name, lo, hi)

    def array(self, rows):
        return np.array(rows, dtype=np.float64)

    def assume(self, c):
        if not c:
            raise SkipCase()

    # operators
    def use_rounding(self, on=True, landmarks=None):
        pass

    def ite(self, c, a, b): return a if c else b
    def lt_(self, a, b): return a < b
    def and_(self, *xs): return all(bool(x) for x in xs)
    def or_(self, *xs): return any(bool(x) for x in xs)
    def not_(self, x): return not x
    def implies(self, a, b): return (not a) or bool(b)

    def _scale(self, a, b):
        s = 1.0
        for x in (a, b):
            if math.isfinite(x):
                s += abs(x)
        return s

    def gt_(self, a, b):
        """definitely greater"""
        return float(a) > float(b) + TOL * self._scale(float(a), float(b))

    def eq_(self, a, b):
        a, b = float(a), float(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= TOL * self._scale(a, b)

    # checks
    def check(self, c, label, detail=''):
        self.nchecks += 1
        if not c:
            self.failures.append(f'{label} {detail}'.strip())

    def close(self, a, b, label):
        self.nchecks += 1
        try:
            fa, fb = float(a), float(b)
        except (TypeError, ValueError):
            self.failures.append(f'{label}: not numbers: {a!r} {b!r}')
            return
        if math.isnan(fa) or math.isnan(fb):
            if not (math.isnan(fa) and math.isnan(fb)):
                self.failures.append(f'{label}: {fa!r} != {fb!r}')
        elif not self.eq_(fa, fb):
            self.failures.append(f'{label}: {fa!r} != {fb!r}')
        self.observed.append((label, fa))

    def le(self, a, b, label):
        self.nchecks += 1
        fa, fb = float(a), float(b)
        if not (fa <= fb + TOL * self._scale(fa, fb)):
            self.failures.append(f'{label}: {fa!r} > {fb!r}')
        self.observed.append((label, fa))

    def observe(self, label, v):
        try:
            self.observed.append((label, float(v)))
        except (TypeError, ValueError):
            pass

    def random(self):
        return ConcRandom(self)

    def use_random(self, fork_ints=False):
        src = self.random()
        for n in ('rand', 'randn', 'standard_normal', 'random_sample', 'randint', 'normal', 'uniform', 'triangular', 'random', 'choice', 'default_rng', 'RandomState'):
            setattr(np.random, n, getattr(src, n))
        return src


class ConcRandom:
    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0
        self.draws, self.ranges, self.probabilities = [], [], []

    def _name(self, base):
        self.n += 1
        return f'{base}{self.n}'

    def rand(self, *shape):
        if shape:
            return np.array([self.rand() for _ in range(int(np.prod(shape)))]).reshape(shape)
        return self.ctx.real(self._name('rand'), 0, 1)

    def random(self, size=None):
        return self.rand() if size is None else self.rand(*np.atleast_1d(size))

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is not None:
            return np.array([self.uniform(low, high) for _ in range(int(np.prod(size)))]).reshape(size)
        x = self.ctx.real(self._name('uniform'))
        self.ranges.append((low, high, x))
        return x

    def randint(self, low, high=None, size=None):
        if high is None:
            low, high = 0, low
        if size is not None:
            return np.array([self.randint(low, high) for _ in range(int(np.prod(size)))]).reshape(size)
        if low >= high:
            raise ValueError('low >= high')
        return self.ctx.int(self._name('randint'), low, high)

    def choice(self, a, size=None, replace=True, p=None):
        seq = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if size is not None:
            return np.array([self.choice(seq, p=p) for _ in range(int(np.prod(size)))]).reshape(size)
        if p is not None:
            self.probabilities.append(list(p))
            if len(p) != len(seq) or min(p) < 0 or abs(sum(p) - 1) > 1e-8:
                raise ValueError('probabilities do not sum to 1')
        return seq[self.randint(0, len(seq))]

    def triangular(self, left, mode, right, size=None):
        if size is not None:
            return np.array([self.triangular(left, mode, right) for _ in range(int(np.prod(size)))]).reshape(size)
        if not left <= mode <= right or left == right:
            raise ValueError('left <= mode <= right')
        x = self.ctx.real(self._name('uniform'))
        self.ranges.append((left, right, x))
        return x

    def normal(self, loc=0.0, scale=1.0, size=None):
        if np.any(np.asarray(scale) < 0):
            raise ValueError('scale < 0')
        if size is None:
            size = np.broadcast_shapes(np.shape(loc), np.shape(scale)) or None
        if size is None:
            return loc + scale * self._z()
        loc, scale = np.asarray(loc), np.asarray(scale)
        shape = np.broadcast_shapes(tuple(np.atleast_1d(size)), np.shape(scale))
        if shape != tuple(np.atleast_1d(size)):
            raise ValueError('shape mismatch')
        return loc + np.broadcast_to(scale, shape) * np.array([self._z() for _ in range(int(np.prod(shape)))]).reshape(shape)

    def randn(self, *shape):
        return self.normal(size=shape or None)

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def random_sample(self, size=None):
        return self.random(size)

    def _z(self):
        z = self.ctx.real(self._name('normal'), -10, 10)
        self.draws.append(z)
        return z

    def used(self, x):
        return list(self.draws)         # any of them may have been

    def default_rng(self, *a, **k):
        return self

    RandomState = default_rng

    def integers(self, low, high=None, size=None, endpoint=False, dtype=None):
        if high is None:
            low, high = 0, low
        return self.randint(low, high + bool(endpoint), size)


def make_symctx():
    import z3
    from . import core, nparr
    from .core import is_sym, SymBool, Session, sand, sor, ite, compare, zreal

    class SymCtx(BaseCtx):
        symbolic = True

        def __init__(self, path):
            self.path = path
            self.nchecks = 0

        def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
            return self.path.input(name, 'real', lo, hi, lo_open, hi_open)

        def int(self, name, lo, hi):
            return self.path.input(name, 'int', lo, hi)

        def const_int(self, name, lo, hi):
            """An integer input, concretised by forking (used for steps, lengths)."""
            return int(self.path.input(name, 'int', lo, hi))

        def bool(self, name):
            return self.path.input(name, 'bool', None, None)

        def array(self, rows):
            return nparr.np_array(rows)

        def assume(self, c):
            self.path.assume(c)

        def use_rounding(self, on=True, landmarks=None):
            """From here on float operations of the code under test may round."""
            core.Session.rounding = on
            if landmarks is not None:
                core.Session.landmarks = tuple(landmarks)

        def ite(self, c, a, b): return ite(c, a, b)
        def lt_(self, a, b): return compare('lt', a, b)
        def gt_(self, a, b): return compare('gt', a, b)
        def eq_(self, a, b): return compare('eq', a, b)
        def and_(self, *xs): return sand(xs)
        def or_(self, *xs): return sor(xs)

        def not_(self, x):
            return ~x if type(x) is SymBool else not x

        def implies(self, a, b): return sor([self.not_(a), b])

        def check(self, c, label, detail=''):
            self.nchecks += 1
            if type(c) is SymBool:
                self.path.obligations.append((label, c.z, None))
            elif is_sym(c):
                self.path.obligations.append((label, c.z != 0, None))
            elif not c:
                self.path.obligations.append((label + (f' ({detail})' if detail else ''), z3.BoolVal(False), None))
            else:
                self.path.explorer.trivial += 1

        def _bad(self, a):
            return not is_sym(a) and (a is None or isinstance(a, (str, list, tuple, dict, np.ndarray)) or not math.isfinite(a))

        def close(self, a, b, label):
            self.nchecks += 1
            if self._bad(a) or self._bad(b):
                ok = False
                if not is_sym(a) and not is_sym(b):
                    try:
                        ok = (a == b) or (math.isnan(a) and math.isnan(b))
                    except TypeError:
                        ok = False
                self.path.observed.append((label, None))
                if not ok:
                    self.path.obligations.append((f'{label}: {a!r} != {b!r}', z3.BoolVal(False), None))
                return
            if not is_sym(a) and not is_sym(b):
                if abs(a - b) > 1e-9 * (1 + abs(a) + abs(b)):
                    self.path.obligations.append((f'{label}: {a!r} != {b!r}', z3.BoolVal(False), None))
                else:
                    self.path.explorer.trivial += 1
                self.path.observed.append((label, zreal(a)))
                return
            za, zb = zreal(a), zreal(b)
            d = z3.simplify(za - zb)
            self.path.observed.append((label, za))
            if z3.is_rational_value(d) and d.numerator_as_long() == 0:
                self.path.explorer.trivial += 1
                return
            sc = self._scale(za, zb)
            self.path.obligations.append((label, za == zb, z3.And(d <= sc, -d <= sc)))

        def _scale(self, za, zb):
            m = z3.Q(MARGIN.numerator, MARGIN.denominator)
            ab = lambda x: z3.If(x >= 0, x, -x)
            return m * (1 + ab(za) + ab(zb))

        def le(self, a, b, label):
            self.nchecks += 1
            c = compare('le', a, b)
            if type(c) is not SymBool:
                self.path.observed.append((label, None))
                if not is_sym(a) and not is_sym(b):
                    c = bool(a <= b + 1e-9 * (1 + abs(b) if math.isfinite(b) else 1))
                if not c:
                    self.path.obligations.append((f'{label}: {a!r} > {b!r}', z3.BoolVal(False), None))
                else:
                    self.path.explorer.trivial += 1
                return
            za, zb = zreal(a), zreal(b)
            self.path.observed.append((label, za))
            self.path.obligations.append((label, c.z, za - zb <= self._scale(za, zb)))

        def observe(self, label, v):
            if is_sym(v) and type(v) is not SymBool:
                self.path.observed.append((label, zreal(v)))

        def use_random(self, fork_ints=False):
            Session.random = SymRandom(self)
            Session.random.fork_ints = fork_ints
            return Session.random

    class SymRandom:
        def __init__(self, ctx):
            self.ctx = ctx
            self.n = 0
            self.draws, self.ranges, self.probabilities = [], [], []

        def _name(self, base):
            self.n += 1
            return f'{base}{self.n}'

        def rand(self, *shape):
            if shape:
                return nparr.wrap(nparr.make_array([self.rand() for _ in range(int(np.prod(shape)))]).reshape(shape))
            return self.ctx.real(self._name('rand'), 0, 1, hi_open=True)

        def random(self, size=None):
            return self.rand() if size is None else self.rand(*np.atleast_1d(size))

        def uniform(self, low=0.0, high=1.0, size=None):
            if size is not None:
                return nparr.wrap(nparr.make_array([self.uniform(low, high) for _ in range(int(np.prod(size)))]).reshape(size))
            x = self.ctx.real(self._name('uniform'))
            if not core._nonfinite(low):
                self.ctx.assume(x >= low)
            if not core._nonfinite(high):
                self.ctx.assume(x <= high)
            self.ranges.append((low, high, x))
            return x

        def triangular(self, left, mode, right, size=None):
            if size is not None:
                return nparr.wrap(nparr.make_array([self.triangular(left, mode, right) for _ in range(int(np.prod(size)))]).reshape(size))
            if not bool(sand([compare('le', left, mode), compare('le', mode, right), compare('lt', left, right)])):
                raise ValueError('left <= mode <= right')
            return self.uniform(left, right)

        def randint(self, low, high=None, size=None):
            if high is None:
                low, high = 0, low
            if size is not None:
                return nparr.wrap(nparr.make_array([self.randint(low, high) for _ in range(int(np.prod(size)))]).reshape(size))
            if bool(compare('ge', low, high)):
                raise ValueError('low >= high')
            x = self.ctx.path.input(self._name('randint'), 'int', None, None)
            self.ctx.assume(sand([compare('ge', x, low), compare('lt', x, high)]))
            return int(x) if self.fork_ints else x

        def choice(self, a, size=None, replace=True, p=None):
            seq = list(range(a)) if isinstance(a, int) else list(a)
            if size is not None:
                return nparr.wrap(nparr.make_array([self.choice(seq, p=p) for _ in range(int(np.prod(size)))]).reshape(size))
            if p is None:
                return seq[self.randint(0, len(seq))]
            p = nparr._ravel(nparr.as_obj(p))
            self.probabilities.append(p)
            total = 0.0
            for x in p:
                total = total + x
            if len(p) != len(seq) or not bool(sand([compare('ge', x, 0) for x in p] + [compare('le', abs(total - 1), 1e-8)])):
                raise ValueError('probabilities do not sum to 1')
            k = int(self.randint(0, len(seq)))
            self.ctx.assume(compare('gt', p[k], 0))
            return seq[k]

        def normal(self, loc=0.0, scale=1.0, size=None):
            if bool(sor([compare('lt', s, 0) for s in nparr._ravel(nparr.as_obj(scale))])):
                raise ValueError('scale < 0')
            if size is None:
                size = np.broadcast_shapes(nparr.as_obj(loc).shape, nparr.as_obj(scale).shape) or None
            if size is None:
                return loc + scale * self._z()
            shape = np.broadcast_shapes(tuple(np.atleast_1d(size)), nparr.as_obj(scale).shape)
            if shape != tuple(np.atleast_1d(size)):
                raise ValueError('shape mismatch')
            n = int(np.prod(shape))
            if not n:
                return np.zeros(shape)
            z = [self._z() for _ in range(n)]
            sc = nparr._ravel(np.broadcast_to(nparr.as_obj(scale), shape))
            lc = nparr._ravel(np.broadcast_to(nparr.as_obj(loc), shape))
            return nparr.wrap(nparr.make_array([l + s * x for l, s, x in zip(lc, sc, z)]).reshape(shape))

        def randn(self, *shape):
            return self.normal(size=shape or None)

        def standard_normal(self, size=None):
            return self.normal(size=size)

        def random_sample(self, size=None):
            return self.random(size)

        def _z(self):
            z = self.ctx.real(self._name('normal'), -10, 10)
            self.draws.append(z)
            return z

        def used(self, x):
            """The normal draws that occur in x."""
            if not is_sym(x):
                return []
            seen, todo, names = set(), [zreal(x)], set()
            while todo:
                e = todo.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if e.num_args() == 0:
                    names.add(e.get_id())
                todo.extend(e.children())
            return [z for z in self.draws if is_sym(z) and zreal(z).get_id() in names]

        def seed(self, *a, **k):
            return None

        def default_rng(self, *a, **k):
            return self

        RandomState = default_rng

        def integers(self, low, high=None, size=None, endpoint=False, dtype=None):
            if high is None:
                low, high = 0, low
            return self.randint(low, high + bool(endpoint), size)

    return SymCtx
