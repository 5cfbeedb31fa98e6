"""A stand-in for cvxpy inside pymgrid: expressions are kept and evaluated over symbolic values.

It records the problem that the code under test builds (variables with their attributes,
parameters, constraints, objective) and solves nothing: a harness supplies the solution.
Replay uses the real cvxpy.
"""
import itertools
import types

import numpy as np

from . import core, nparr

_ids = itertools.count(1)


def _val(x):
    return x.value if isinstance(x, Expr) else x


def _leaves(x):
    return x.leaves() if isinstance(x, Expr) else []


class Expr:
    __array_ufunc__ = None
    __array_priority__ = 2000.0

    def __init__(self, f, *args):
        self._f, self.args = f, list(args)

    @property
    def value(self):
        vals = [_val(a) for a in self.args]
        return None if any(v is None for v in vals) else self._f(*vals)

    def leaves(self):
        return [v for a in self.args for v in _leaves(a)]

    @property
    def shape(self):
        return np.shape(self.value)

    @property
    def T(self):
        return Expr(lambda a: np.transpose(a), self)

    def __getitem__(self, k):
        return Expr(lambda a: a[k], self)

    def __add__(self, o): return Expr(lambda a, b: nparr.np_asarray(a) + b, self, o)
    def __radd__(self, o): return Expr(lambda a, b: nparr.np_asarray(a) + b, o, self)
    def __sub__(self, o): return Expr(lambda a, b: nparr.np_asarray(a) - b, self, o)
    def __rsub__(self, o): return Expr(lambda a, b: nparr.np_asarray(a) - b, o, self)
    def __mul__(self, o): return Expr(_mul, self, o)
    def __rmul__(self, o): return Expr(_mul, o, self)
    def __truediv__(self, o): return Expr(lambda a, b: nparr.np_asarray(a) / b, self, o)
    def __neg__(self): return Expr(lambda a: -nparr.np_asarray(a), self)
    def __matmul__(self, o): return Expr(_matmul, self, o)
    def __rmatmul__(self, o): return Expr(_matmul, o, self)
    def __eq__(self, o): return Equality(self, o)
    def __le__(self, o): return Inequality(self, o)
    def __ge__(self, o): return Inequality(o, self)
    def __rle__(self, o): return Inequality(o, self)
    __hash__ = object.__hash__

    def __lt__(self, o):
        raise NotImplementedError('strict inequalities are not allowed')
    __gt__ = __lt__


def _mul(a, b):
    a, b = nparr.np_asarray(a), nparr.np_asarray(b)
    if a.ndim == 2 and b.ndim >= 1 and a.shape != b.shape:
        return _matmul(a, b)
    return a * b


def _matmul(a, b):
    a, b = nparr.as_obj(a), nparr.as_obj(b)

    def dot(xs, ys):
        r = 0.0
        for x, y in zip(xs, ys):
            if core.is_sym(x) or core.is_sym(y):
                if not core.is_sym(x) and x == 0 or not core.is_sym(y) and y == 0:
                    continue
            r = r + x * y
        return r
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError(f'Incompatible dimensions {a.shape} {b.shape}')
        return dot(a.tolist(), b.tolist())
    if a.ndim == 2 and b.ndim == 1:
        if a.shape[1] != b.shape[0]:
            raise ValueError(f'Incompatible dimensions {a.shape} {b.shape}')
        return nparr.wrap(nparr.make_array([dot(r, b.tolist()) for r in a.tolist()]))
    raise NotImplementedError('matmul')


class Leaf(Expr):
    def __init__(self, shape=(), name=None, value=None, **attributes):
        self._shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(shape)
        self.attributes = {'nonneg': False, 'pos': False, 'nonpos': False, 'neg': False, 'boolean': False, 'integer': False, **attributes}
        self.id, self._name, self._value = next(_ids), name, None
        self.args = []
        if value is not None:
            self.value = value

    @property
    def shape(self):
        return self._shape

    @property
    def size(self):
        return int(np.prod(self._shape))

    def leaves(self):
        return [self]

    @property
    def value(self):
        return self._value

    @value.setter
    def value(self, v):
        if v is None:
            self._value = None
            return
        v = nparr.np_array(v) if np.ndim(v) else v
        if np.shape(v) != self._shape:
            raise ValueError(f'Invalid dimensions {np.shape(v)} for {type(self).__name__} value.')
        for e in nparr._ravel(nparr.as_obj(v)):
            if (self.attributes['nonneg'] or self.attributes['pos']) and bool(core.compare('lt', e, 0.0)):
                raise ValueError(f'{type(self).__name__} value must be nonnegative.')
        self._value = v

    def save_value(self, v):
        self._value = v


class Variable(Leaf):
    pass


class Parameter(Leaf):
    pass


class Constraint:
    def __init__(self, a, b):
        self.args = [a if isinstance(a, Expr) else Expr(lambda a=a: a), b if isinstance(b, Expr) else Expr(lambda b=b: b)]

    def leaves(self):
        return [v for a in self.args for v in a.leaves()]

    def __bool__(self):
        raise Exception('Cannot evaluate the truth value of a constraint or chain constraints.')


class Equality(Constraint):
    pass


class Inequality(Constraint):
    pass


class Minimize:
    def __init__(self, e):
        self.args = [e]
        self.expr = e

    @property
    def value(self):
        return self.args[0].value


class Maximize(Minimize):
    pass


class Problem:
    def __init__(self, objective, constraints=None):
        self.objective, self.constraints = objective, list(constraints or [])
        self.status, self.value = None, None

    def _leaves(self):
        out = {}
        for x in [*self.objective.args, *self.constraints]:
            for v in x.leaves():
                out[v.id] = v
        return [out[k] for k in sorted(out)]

    def variables(self):
        return [v for v in self._leaves() if isinstance(v, Variable)]

    def parameters(self):
        return [v for v in self._leaves() if isinstance(v, Parameter)]

    def is_mixed_integer(self):
        return any(v.attributes['boolean'] or v.attributes['integer'] for v in self.variables())

    def is_dcp(self, dpp=False):
        return True

    def solve(self, *a, **k):
        raise NotImplementedError('the stand-in solves nothing')


def module(real):
    m = types.ModuleType('cvxpy')
    for c in (Variable, Parameter, Problem, Minimize, Maximize):
        setattr(m, c.__name__, c)
    m.sum = lambda e, axis=None: Expr(lambda a: nparr._sum(a, axis), e)
    m.multiply = lambda a, b: Expr(lambda x, y: nparr.np_asarray(x) * y, a, b)
    m.hstack = lambda xs: Expr(lambda *v: nparr.np_array([e for x in v for e in nparr._ravel(nparr.as_obj(x))]), *xs)
    m.Constant = lambda x: Expr(lambda: x)
    m.installed_solvers = lambda: ['GLPK_MI']
    m.MOSEK, m.GLPK_MI, m.GLPK, m.ECOS, m.CLARABEL, m.OSQP = 'MOSEK', 'GLPK_MI', 'GLPK', 'ECOS', 'CLARABEL', 'OSQP'
    m.error = real.error
    m.SolverError = real.SolverError
    return m
