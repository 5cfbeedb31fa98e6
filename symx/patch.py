"""Connects the real pymgrid modules to the symbolic values.

Only *names in pymgrid's module globals* are redirected (numpy, float, gym.Box,
gym flatten, pandas.read_csv); the functions of pymgrid themselves are executed
unchanged from /repo/src.  Everything listed here is part of the trusted base.
"""
import builtins
import importlib
import pkgutil
import sys
import types
import warnings

import numpy as np

from . import core, nparr
from .core import is_sym, SymReal, SymInt, SymBool

STUBS = [
    'numpy scalar/array functions on symbolic operands: symx.nparr (exact real arithmetic; isclose/allclose with their tolerances)',
    'float(x) on a symbolic value is the identity',
    'int(x) on a symbolic value in the microgrid generator: the truncated value, as a symbolic integer',
    'builtin min/max of symbolic numbers: an if-then-else term instead of a fork',
    'round(x, n>0) of a symbolic value: an arbitrary value within half a unit of x',
    'pandas.api.types.is_numeric_dtype is true for symbolic numbers',
    'gym.flatten / gym.unflatten of symbolic numbers: the real function applied to their positions; Box.contains: shape and bounds',
    'gym.spaces.Box with symbolic bounds: keeps low/high/shape exactly as given',
    'warning-only bounds message of the normalisation (no effect on values): empty body, except in the normalisation property',
    'cvxpy (only in the mpc module): problems are recorded, not solved - the solution is an arbitrary vector; csr_matrix is the identity',
    'yaml / csv text of a symbolic number: a unique token that loads back to the same number',
]

_FLATTEN = {}


class RandomShim:
    """np.random inside pymgrid: arbitrary values within the documented contract."""

    def __getattr__(self, name):
        src = core.Session.random
        if src is not None and hasattr(src, name):
            return getattr(src, name)
        return getattr(np.random, name)


class NpProxy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        d = self.__dict__
        d.update(nparr.CONSTRUCTORS)
        for n in ['sum', 'mean', 'min', 'max', 'amin', 'amax', 'all', 'any', 'prod', 'isclose', 'allclose', 'where', 'clip',
                  'concatenate', 'stack', 'vstack', 'hstack', 'cumsum', 'array_equal', 'abs', 'absolute', 'sign',
                  'minimum', 'maximum', 'round', 'around', 'dot', 'add', 'subtract', 'multiply', 'divide', 'isnan',
                  'ravel', 'reshape', 'repeat', 'squeeze', 'atleast_1d', 'append', 'column_stack', 'outer', 'average', 'average',
                  'ceil', 'floor', 'less', 'less_equal', 'greater', 'greater_equal', 'logical_and', 'logical_or', 'logical_not']:
            key = 'absolute' if n == 'abs' else n
            if key in nparr.FUNCS or key in nparr.UN or key in nparr.BIN:
                d[n] = nparr.lists_to_arrays(key)
        d['random'] = RandomShim()
        d['float64'] = SymFloat64
        d['float32'] = np.float32

    def __getattr__(self, name):
        return getattr(np, name)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __call__(cls, *args, **kw):
        if args and is_sym(args[0]):
            return args[0] if type(args[0]) is SymReal else SymReal(core.zreal(args[0]))
        if args and isinstance(args[0], nparr.SymArray):
            if args[0].size == 1 and cls._real is float:
                return cls(args[0].item())
            return args[0]
        return cls._real(*args, **kw)

    def __eq__(cls, other):
        return other is cls or other is cls._real or (isinstance(other, np.dtype) and other == np.dtype(cls._real))

    def __hash__(cls):
        return hash(cls._real)


class SymFloat(metaclass=_FloatMeta):
    _real = float
    dtype = np.dtype(float)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, *args, **kw):
        if args and isinstance(args[0], np.ndarray) and args[0].dtype == object and args[0].size == 1:
            args = (args[0].reshape(-1)[0],) + args[1:]
        if args and is_sym(args[0]) and type(args[0]) is not SymBool:
            return core.trunc(args[0])
        return int(*args, **kw)

    def __eq__(cls, other):
        return other is cls or other is int

    def __hash__(cls):
        return hash(int)


class SymIntType(metaclass=_IntMeta):
    """int() that keeps a symbolic integer symbolic instead of forking over its values"""


# modules in which int() rounds quantities (elsewhere it makes indices and loop counts, which fork)
SYMBOLIC_INT = ('pymgrid.MicrogridGenerator',)


class SymFloat64(metaclass=_FloatMeta):
    _real = np.float64
    dtype = np.dtype(np.float64)


def _make_symbox():
    import gym.spaces as gs
    from gym.spaces.space import Space

    class SymBox(gs.Box):
        def __init__(self, low, high, shape=None, dtype=np.float64, seed=None):
            low = nparr.np_asarray(low) if not is_sym(low) else nparr.np_array([low])
            high = nparr.np_asarray(high) if not is_sym(high) else nparr.np_array([high])
            if shape is None:
                shape = low.shape if low.ndim else high.shape
            self.low = np.broadcast_to(nparr.as_obj(low), shape).copy().view(nparr.SymArray)
            self.high = np.broadcast_to(nparr.as_obj(high), shape).copy().view(nparr.SymArray)
            Space.__init__(self, tuple(shape), np.float64, seed)
            self.bounded_below = np.ones(shape, dtype=bool)
            self.bounded_above = np.ones(shape, dtype=bool)

        def contains(self, x):
            if is_sym(x) or not hasattr(x, 'shape'):
                x = nparr.np_asarray(x)
            if x.shape != self.shape:
                return False
            return bool(core.sand(nparr._ravel(nparr.as_obj(nparr.elementwise2(lambda a, b: core.compare('ge', a, b), x, self.low))) +
                                  nparr._ravel(nparr.as_obj(nparr.elementwise2(lambda a, b: core.compare('le', a, b), x, self.high)))))

        __contains__ = contains

        def is_bounded(self, manner='both'):
            return True

        def __eq__(self, other):
            return isinstance(other, gs.Box) and self.shape == other.shape and \
                bool(nparr._allclose(self.low, other.low)) and bool(nparr._allclose(self.high, other.high))

        def __repr__(self):
            return f'Box(symbolic, {self.shape})'

        def sample(self, mask=None):
            src = core.Session.random
            vals = [src.uniform(lo, hi) for lo, hi in zip(nparr._ravel(nparr.as_obj(self.low)), nparr._ravel(nparr.as_obj(self.high)))]
            return nparr.wrap(nparr.make_array(vals).reshape(self.shape))

    class _BoxMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, gs.Box)

        def __subclasscheck__(cls, c):
            return issubclass(c, gs.Box)

        def __call__(cls, low, high, shape=None, dtype=np.float32, seed=None):
            if nparr.has_sym(low) or nparr.has_sym(high):
                return SymBox(low, high, shape, dtype, seed)
            if isinstance(low, np.ndarray) and low.dtype == object:
                low = np.asarray(low).astype(np.float64)
            if isinstance(high, np.ndarray) and high.dtype == object:
                high = np.asarray(high).astype(np.float64)
            if isinstance(dtype, _FloatMeta):
                dtype = np.float64
            return gs.Box(low=low, high=high, shape=shape, dtype=dtype, seed=seed)

    class BoxShim(metaclass=_BoxMeta):
        pass

    return BoxShim


def _flatten_shim():
    import gym.spaces as gs
    real = gs.flatten

    def flatten(space, x):
        """gym.flatten with every number replaced by its index, then mapped back."""
        table = []

        def enc(v):
            if isinstance(v, dict):
                return type(v)((k, enc(e)) for k, e in v.items())
            if isinstance(v, (list, tuple)):
                return [enc(e) for e in v]
            if isinstance(v, np.ndarray):
                out = np.empty(v.shape, dtype=np.float64)
                for i in np.ndindex(*v.shape):
                    table.append(v[i])
                    out[i] = float(len(table) - 1)
                return out
            if is_sym(v) or isinstance(v, (int, float, np.number)):
                table.append(v)
                return float(len(table) - 1)
            return v
        flat = real(space, enc(x))
        return nparr.wrap(nparr.make_array([table[int(i)] for i in flat]))

    def unflatten(space, x):
        """gym.unflatten of the indices, each then replaced by its number."""
        if not nparr.has_sym(x):
            return real_un(space, x)
        vals = nparr._ravel(nparr.as_obj(x))

        def dec(v):
            if isinstance(v, dict):
                return type(v)((k, dec(e)) for k, e in v.items())
            if isinstance(v, (list, tuple)):
                return type(v)(dec(e) for e in v)
            return nparr.wrap(nparr.make_array([vals[int(i)] for i in np.ravel(v)]).reshape(np.shape(v)))
        return dec(real_un(space, np.arange(len(vals), dtype=np.float64).reshape(np.shape(x))))
    real_un = gs.unflatten
    real_contains = gs.Box.contains

    def contains(self, x):
        if not nparr.has_sym(x):
            return real_contains(self, np.asarray(x, dtype=np.float64) if isinstance(x, np.ndarray) and x.dtype == object else x)
        x = nparr.as_obj(x)
        if x.shape != self.shape:
            return False
        return bool(core.sand([core.compare('ge', a, b) for a, b in zip(nparr._ravel(x), nparr._ravel(nparr.as_obj(self.low)))] +
                              [core.compare('le', a, b) for a, b in zip(nparr._ravel(x), nparr._ravel(nparr.as_obj(self.high)))]))
    gs.Box.contains = contains
    return {id(real): flatten, id(real_un): unflatten}


class PdProxy(types.ModuleType):
    def __init__(self, pd):
        super().__init__('pandas')
        self.__dict__['_pd'] = pd

    def __getattr__(self, name):
        return getattr(self.__dict__['_pd'], name)

    def read_csv(self, *a, **k):
        df = self.__dict__['_pd'].read_csv(*a, **k)
        if core.TOKENS and any((df[c].map(lambda v: isinstance(v, float) and v in core.TOKENS)).any() for c in df.columns):
            df = df.astype(object)
            for c in df.columns:
                df[c] = [core.TOKENS.get(v, v) if isinstance(v, float) else v for v in df[c]]
        return df


def _minmax(real, op):
    def f(*args, **kw):
        xs = args[0] if len(args) == 1 else args
        if not kw and isinstance(xs, (list, tuple)) and xs and any(is_sym(x) for x in xs) and \
                all((is_sym(x) or isinstance(x, (int, float, np.number))) and type(x) is not SymBool for x in xs):
            r = xs[0]
            for x in xs[1:]:
                # the builtin keeps the first of equal elements
                r = core.ite(core.compare(op, x, r), x, r)
            return r
        return real(*args, **kw)
    return f


sym_min, sym_max = _minmax(builtins.min, 'lt'), _minmax(builtins.max, 'gt')


def import_all(exclude=('_deprecated.Environments',)):
    import pymgrid
    mods = [pymgrid]
    for m in pkgutil.walk_packages(pymgrid.__path__, 'pymgrid.', onerror=lambda n: None):
        if any(e in m.name for e in exclude):
            continue
        try:
            mods.append(importlib.import_module(m.name))
        except Exception:
            pass
    return mods


NO_NUMPY_PATCH = ()


def install(stub_bounds_check=True):
    """Redirect the globals of every pymgrid module; returns the redirected names."""
    import gym.spaces as gs
    import pandas as pd
    import yaml
    mods = import_all()
    proxy = NpProxy()
    pdproxy = PdProxy(pd)
    box = _make_symbox()
    byid = {**_flatten_shim(), id(gs.Box): box, id(np): proxy, id(np.float64): SymFloat64, id(np.random): proxy.random}
    import cvxpy
    from scipy.sparse import csr_matrix, csc_matrix
    from . import cvx
    byid[id(cvxpy)] = cvx.module(cvxpy)
    byid[id(csr_matrix)] = byid[id(csc_matrix)] = lambda a, *x, **k: a
    from pandas.api.types import is_numeric_dtype
    byid[id(is_numeric_dtype)] = lambda x: True if nparr.has_sym(x) else is_numeric_dtype(x)
    for n, f in proxy.__dict__.items():
        r = getattr(np, n, None)
        if callable(r) and not isinstance(r, type):
            byid[id(r)] = f
    done = []
    for m in mods:
        if m.__name__ in NO_NUMPY_PATCH:
            continue
        g = m.__dict__
        for k, v in list(g.items()):
            if k.startswith('__'):
                continue
            if id(v) in byid:
                g[k] = byid[id(v)]
                done.append(f'{m.__name__}.{k}')
            elif v is pd:
                g[k] = pdproxy
        if 'float' not in g:
            g['float'] = SymFloat
        if 'int' not in g and m.__name__ in SYMBOLIC_INT:
            g['int'] = SymIntType
        for n, fn in (('min', sym_min), ('max', sym_max)):
            if n not in g:
                g[n] = fn
    if stub_bounds_check:
        from pymgrid.utils import space
        for c in vars(space).values():
            if isinstance(c, type) and '_bounds_check' in vars(c):
                c._bounds_check = lambda self, *a, **k: None
                done.append('ModuleSpace._bounds_check -> no-op')
    # pandas sums object columns itself; the sum must stay symbolic
    from pandas.core import nanops
    ensure_numeric = nanops._ensure_numeric
    nanops._ensure_numeric = lambda x: x if nparr.has_sym(x) else ensure_numeric(x)
    # ... and so must standard deviations, also of groups
    nanvar, nanstd = nanops.nanvar, nanops.nanstd

    def symvar(values, *, axis=None, skipna=True, ddof=1, mask=None):
        if not nparr.has_sym(values):
            return nanvar(values, axis=axis, skipna=skipna, ddof=ddof, mask=mask)
        a = np.asarray(values, dtype=object)
        if a.ndim == 2 and axis is not None:
            return np.array([symvar(r, skipna=skipna, ddof=ddof) for r in (a.T if axis == 0 else a)], dtype=object)
        a = [x for x in a.ravel() if x == x] if skipna else list(a.ravel())
        if len(a) <= ddof:
            return np.nan
        mean = sum(a[1:], a[0]) / len(a)
        return sum(((x - mean) * (x - mean) for x in a), 0.0) / (len(a) - ddof)

    def symstd(values, *, axis=None, skipna=True, ddof=1, mask=None):
        if not nparr.has_sym(values):
            return nanstd(values, axis=axis, skipna=skipna, ddof=ddof, mask=mask)
        v = symvar(values, axis=axis, skipna=skipna, ddof=ddof)
        root = lambda x: core.arith('pow', x, 0.5) if core.is_sym(x) else np.sqrt(x)
        return np.array([root(x) for x in v], dtype=object) if isinstance(v, np.ndarray) else root(v)
    nanops.nanvar, nanops.nanstd = symvar, symstd
    # the smallest or largest value without a fork per comparison
    for name, pick in (('nanmin', 'le'), ('nanmax', 'ge')):
        def extreme(values, *, axis=None, skipna=True, mask=None, _orig=getattr(nanops, name), _pick=pick):
            if not nparr.has_sym(values):
                return _orig(values, axis=axis, skipna=skipna, mask=mask)
            a = np.asarray(values, dtype=object)
            if a.ndim == 2 and axis is not None:
                return np.array([extreme(r, skipna=skipna, _orig=_orig, _pick=_pick) for r in (a.T if axis == 0 else a)], dtype=object)
            flat = [x for x in a.ravel() if core.is_sym(x) or x == x]
            conc = [x for x in flat if not core.is_sym(x)]
            out = [min(conc) if _pick == 'le' else max(conc)] if conc else []
            for x in flat:
                if core.is_sym(x):
                    out = [core.ite(core.compare(_pick, out[0], x), out[0], x) if out else x]
            return out[0]
        setattr(nanops, name, extreme)
    from pandas.core.groupby import groupby
    gstd = groupby.GroupBy.std

    def group_std(self, ddof=1, *a, **k):
        if nparr.has_sym(self._selected_obj.to_numpy()):
            return self.agg(lambda x: symstd(x.to_numpy(), ddof=ddof))
        return gstd(self, ddof, *a, **k)
    groupby.GroupBy.std = group_std
    from pandas.core import algorithms
    isin, unique = algorithms.isin, algorithms.unique

    def symisin(comps, values):
        a = np.asarray(comps, dtype=object) if nparr.has_sym(comps) else None
        if a is None:
            return isin(comps, values)
        values = list(values)
        return np.array([any(bool(x == v) for v in values) for x in a], dtype=bool)

    def symunique(values):
        if not nparr.has_sym(values):
            return unique(values)
        out = []
        for x in np.asarray(values, dtype=object).ravel():
            if not any(bool(x == y) for y in out):
                out.append(x)
        a = np.empty(len(out), dtype=object)
        a[:] = out
        return a
    algorithms.isin, algorithms.unique = symisin, symunique
    # yaml codec for symbols
    for t in (SymReal, SymInt, SymBool):
        yaml.SafeDumper.add_representer(t, lambda d, x: d.represent_scalar('tag:yaml.org,2002:float', core.token_str(x)))

    def construct_float(self, node):
        v = _orig_float(self, node)
        return core.TOKENS.get(v, v)
    _orig_float = yaml.constructor.SafeConstructor.construct_yaml_float
    yaml.SafeLoader.add_constructor('tag:yaml.org,2002:float', construct_float)
    warnings.simplefilter('ignore')
    core.Session.random = None
    return done


# ------------------------------------------------ which functions were encoded

class Coverage:
    def __init__(self, root=None):
        from . import env
        self.root = root or env.REPO_SRC + '/pymgrid'
        self.seen = {}

    def start(self):
        mon = sys.monitoring
        mon.use_tool_id(3, 'symx')
        mon.register_callback(3, mon.events.PY_START, self._cb)
        mon.set_events(3, mon.events.PY_START)

    def _cb(self, code, off):
        f = code.co_filename
        if f.startswith(self.root):
            self.seen.setdefault(f[len(self.root) + 1:], set()).add(code.co_qualname)
        return sys.monitoring.DISABLE

    def functions(self):
        return sorted(f'{f}:{q}' for f, qs in self.seen.items() for q in qs if '<' not in q.split('.')[-1])
