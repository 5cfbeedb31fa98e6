"""numpy on symbolic values: an object-dtype ndarray subclass and the numpy
functions pymgrid applies to it."""
import builtins
import math

import numpy as np

from . import core
from .core import SymReal, SymInt, SymBool, is_sym, arith, compare, sand, sor, mkbool, ite


def has_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return builtins.any(is_sym(e) for e in x.ravel().tolist()) if x.ndim else is_sym(x.item())
    if isinstance(x, (list, tuple)) and depth < 6:
        return builtins.any(has_sym(e, depth + 1) for e in x)
    return False


def _ravel(a):
    return [a[i] for i in np.ndindex(*a.shape)] if a.ndim else [a.item()]


def wrap(arr):
    """object ndarray -> SymArray when it holds symbols, else a plain typed array."""
    if not isinstance(arr, np.ndarray):
        return arr
    if arr.dtype != object:
        return np.asarray(arr)
    flat = np.asarray(arr).ravel().tolist()
    if builtins.any(is_sym(e) for e in flat):
        return np.asarray(arr).view(SymArray)
    try:
        out = np.array(flat)
        if out.dtype == object or out.dtype.kind in 'US':
            return np.asarray(arr)
        return out.reshape(arr.shape)
    except Exception:
        return np.asarray(arr)


def as_obj(x):
    if isinstance(x, np.ndarray):
        return np.asarray(x).astype(object) if x.dtype != object else np.asarray(x)
    if not is_sym(x) and hasattr(x, 'to_numpy'):
        return x.to_numpy(dtype=object)
    if is_sym(x) or not isinstance(x, (list, tuple)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return make_array(x)


def make_array(x):
    """np.array(x, dtype=object) with the natural shape, without calling into proxies."""
    if isinstance(x, np.ndarray):
        return np.array(x, dtype=object, subok=False)
    if isinstance(x, (list, tuple)):
        subs = [make_array(e) if isinstance(e, (list, tuple, np.ndarray)) else e for e in x]
        if subs and builtins.all(isinstance(e, np.ndarray) for e in subs):
            shape = subs[0].shape
            if builtins.any(e.shape != shape for e in subs):
                raise ValueError('setting an array element with a sequence. inhomogeneous shape')
            out = np.empty((len(subs),) + shape, dtype=object)
            for i, e in enumerate(subs):
                out[i] = e if e.ndim else e.item()
            return out
        out = np.empty(len(subs), dtype=object)
        for i, e in enumerate(subs):
            if isinstance(e, np.ndarray):
                if e.ndim:
                    raise ValueError('setting an array element with a sequence. inhomogeneous shape')
                e = e.item()
            out[i] = e
        return out
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def elementwise2(f, a, b):
    a, b = as_obj(a), as_obj(b)
    ba, bb = np.broadcast_arrays(a, b)
    out = np.empty(ba.shape, dtype=object)
    for i in np.ndindex(*ba.shape):
        out[i] = f(ba[i], bb[i])
    if out.ndim == 0:
        return out.item()
    return wrap(out)


def elementwise1(f, a):
    a = as_obj(a)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = f(a[i])
    if out.ndim == 0:
        return out.item()
    return wrap(out)


def np_div(a, b):
    """numpy true_divide on one element: no ZeroDivisionError."""
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all='ignore'):
            return float(np.true_divide(a, b))
    try:
        return arith('div', a, b)
    except ZeroDivisionError:
        c = compare('eq', a, 0)
        if bool(c):
            return math.nan
        return math.inf if bool(compare('gt', a, 0)) else -math.inf


def _sign(x):
    if not is_sym(x):
        return np.sign(x)
    return ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0))


def _isnan(x):
    return False if is_sym(x) else bool(np.isnan(x))


def _isfinite(x):
    return True if is_sym(x) else bool(np.isfinite(x))


def _isinf(x):
    return False if is_sym(x) else bool(np.isinf(x))


def _logical_not(x):
    if type(x) is SymBool:
        return ~x
    if is_sym(x):
        return compare('eq', x, 0)
    return not x


def _land(a, b):
    return sand([a, b])


def _lor(a, b):
    return sor([a, b])


def _bitand(a, b):
    if _boolish(a) and _boolish(b):
        return sand([a, b])
    return a & b


def _bitor(a, b):
    if _boolish(a) and _boolish(b):
        return sor([a, b])
    return a | b


def _boolish(a):
    return type(a) is SymBool or isinstance(a, (bool, np.bool_))


def _invert(a):
    if type(a) is SymBool:
        return ~a
    if isinstance(a, (bool, np.bool_)):
        return not a
    return ~a


def _round0(x):
    if not is_sym(x):
        return np.rint(x)
    return float(core.round_(x))


def _unsup(name):
    def f(x):
        return getattr(np, name)(float(x))
    return f


def pmin(a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    return ite(compare('le', a, b), a, b)


def pmax(a, b):
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    return ite(compare('ge', a, b), a, b)


UN = {
    'negative': lambda x: -x, 'positive': lambda x: x, 'absolute': abs, 'fabs': abs,
    'sign': _sign, 'isnan': _isnan, 'isfinite': _isfinite, 'isinf': _isinf,
    'logical_not': _logical_not, 'invert': _invert, 'square': lambda x: x * x,
    'rint': _round0, 'floor': lambda x: core.floor(x) if is_sym(x) else np.floor(x),
    'ceil': lambda x: -core.floor(-x) if is_sym(x) else np.ceil(x),
    'trunc': lambda x: core.trunc(x) if is_sym(x) else np.trunc(x),
    'conjugate': lambda x: x, 'reciprocal': lambda x: np_div(1.0, x),
    'sqrt': lambda x: arith('pow', x, 0.5) if is_sym(x) else np.sqrt(x),
    'exp': _unsup('exp'), 'log': _unsup('log'), 'log1p': _unsup('log1p'), 'sin': _unsup('sin'), 'cos': _unsup('cos'),
}
BIN = {
    'add': lambda a, b: arith('add', a, b), 'subtract': lambda a, b: arith('sub', a, b),
    'multiply': lambda a, b: arith('mul', a, b), 'divide': np_div, 'true_divide': np_div,
    'floor_divide': lambda a, b: arith('floordiv', a, b), 'remainder': lambda a, b: arith('mod', a, b),
    'power': lambda a, b: arith('pow', a, b), 'float_power': lambda a, b: arith('pow', a, b),
    'minimum': pmin, 'maximum': pmax, 'fmin': pmin, 'fmax': pmax,
    'less': lambda a, b: compare('lt', a, b), 'less_equal': lambda a, b: compare('le', a, b),
    'greater': lambda a, b: compare('gt', a, b), 'greater_equal': lambda a, b: compare('ge', a, b),
    'equal': lambda a, b: _eq(a, b), 'not_equal': lambda a, b: _logical_not(_eq(a, b)),
    'logical_and': _land, 'logical_or': _lor, 'bitwise_and': _bitand, 'bitwise_or': _bitor,
    'logical_xor': lambda a, b: mkbool(core.z3.Xor(core.zbool(a), core.zbool(b))),
}


BOOLEAN = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or', 'logical_xor'}


def _eq(a, b):
    r = a == b
    return r if (type(r) is SymBool or isinstance(r, (bool, np.bool_))) else False


REDUCE_ID = {'add': 0.0, 'multiply': 1.0, 'logical_and': True, 'logical_or': False, 'minimum': None, 'maximum': None,
             'bitwise_and': True, 'bitwise_or': False}


def reduce_axis(f, arr, axis, ident, keepdims=False):
    arr = as_obj(arr)
    if axis is None:
        vals = _ravel(arr)
        out = _reduce(f, vals, ident)
        if keepdims:
            return wrap(as_obj([out]).reshape((1,) * arr.ndim))
        return out
    if isinstance(axis, tuple):
        if len(axis) == arr.ndim:
            return reduce_axis(f, arr, None, ident, keepdims)
        axis = axis[0] if len(axis) == 1 else axis
    moved = np.moveaxis(arr, axis, 0)
    out = np.empty(moved.shape[1:], dtype=object)
    for i in np.ndindex(*moved.shape[1:]):
        out[i] = _reduce(f, [moved[(k,) + i] for k in range(moved.shape[0])], ident)
    if keepdims:
        out = np.expand_dims(out, axis)
    if out.ndim == 0:
        return out.item()
    return wrap(out)


def _reduce(f, vals, ident):
    if not vals:
        if ident is None:
            raise ValueError('zero-size array to reduction operation which has no identity')
        return ident
    r = vals[0]
    for v in vals[1:]:
        r = f(r, v)
    return r


def array_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.get('out')
    where = kwargs.get('where', True)
    if method == '__call__':
        if name in UN and len(inputs) == 1:
            r = elementwise1(UN[name], inputs[0])
        elif name in BIN and len(inputs) == 2:
            r = elementwise2(BIN[name], inputs[0], inputs[1])
            if isinstance(r, np.ndarray) and r.size == 0 and name in BOOLEAN:
                r = np.zeros(r.shape, dtype=bool)
        elif name == 'clip':
            r = _clip(inputs[0], inputs[1], inputs[2])
        elif name == 'matmul':
            r = _dot(inputs[0], inputs[1])
        else:
            return NotImplemented
    elif method == 'reduce' and name in BIN:
        r = reduce_axis(BIN[name], inputs[0], kwargs.get('axis', 0), REDUCE_ID.get(name), kwargs.get('keepdims', False))
    elif method == 'outer' and name in BIN:
        a, b = as_obj(inputs[0]), as_obj(inputs[1])
        r = elementwise2(BIN[name], a.reshape(a.shape + (1,) * b.ndim), b)
    elif method == 'accumulate' and name in BIN:
        a = as_obj(inputs[0])
        vals, acc = _ravel(a), []
        for v in vals:
            acc.append(v if not acc else BIN[name](acc[-1], v))
        r = wrap(make_array(acc))
    else:
        return NotImplemented
    if where is not True:
        base = out[0] if out else None
        w = as_obj(where)
        w, rr = np.broadcast_arrays(w, as_obj(r))
        res = np.empty(rr.shape, dtype=object)
        for i in np.ndindex(*rr.shape):
            res[i] = ite(w[i], rr[i], base[i] if base is not None else 0.0)
        r = wrap(res)
    if out:
        o = out[0] if isinstance(out, tuple) else out
        if o.dtype == object or not has_sym(r):
            np.asarray(o)[...] = r
            return o
        # a typed float array cannot hold symbols: hand back a symbolic array
        return r
    return r


def _clip(a, lo, hi):
    r = a
    if lo is not None:
        r = elementwise2(pmax, r, lo)
    if hi is not None:
        r = elementwise2(pmin, r, hi)
    return r


def _dot(a, b):
    a, b = as_obj(a), as_obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise2(BIN['multiply'], a, b)
    if a.ndim == 1 and b.ndim == 1:
        return _reduce(BIN['add'], [arith('mul', x, y) for x, y in zip(_ravel(a), _ravel(b))], 0.0)
    a2 = a.reshape(1, -1) if a.ndim == 1 else a
    b2 = b.reshape(-1, 1) if b.ndim == 1 else b
    out = np.empty((a2.shape[0], b2.shape[1]), dtype=object)
    for i in range(a2.shape[0]):
        for j in range(b2.shape[1]):
            out[i, j] = _reduce(BIN['add'], [arith('mul', a2[i, k], b2[k, j]) for k in range(a2.shape[1])], 0.0)
    if a.ndim == 1:
        out = out[0]
    if b.ndim == 1:
        out = out[..., 0]
    return wrap(out) if out.ndim else out.item()


def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return elementwise2(lambda x, y: core.isclose(x, y, rtol, atol, equal_nan), a, b)


def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = _isclose(a, b, rtol, atol, equal_nan)
    return sand(_ravel(as_obj(r)))


def _where(c, *ab):
    if not ab:
        return np.asarray([bool(x) for x in as_obj(c).ravel()]).reshape(as_obj(c).shape).nonzero()
    a, b = ab
    c, a, b = np.broadcast_arrays(as_obj(c), as_obj(a), as_obj(b))
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape):
        out[i] = ite(c[i], a[i], b[i])
    return wrap(out) if out.ndim else wrap(out).item()


def _mean(a, axis=None, dtype=None, out=None, keepdims=False):
    a = as_obj(a)
    n = a.size if axis is None else a.shape[axis]
    s = reduce_axis(BIN['add'], a, axis, 0.0)
    return s / n if not isinstance(s, np.ndarray) else elementwise2(np_div, s, n)


def _sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_axis(BIN['add'], a, axis, 0.0)


def _amin(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(pmin, a, axis, None)


def _amax(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(pmax, a, axis, None)


def _all(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(_land, elementwise1(lambda x: x if _boolish(x) else _logical_not(_logical_not(x)), as_obj(a)), axis, True)


def _any(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(_lor, elementwise1(lambda x: x if _boolish(x) else _logical_not(_logical_not(x)), as_obj(a)), axis, False)


def _prod(a, axis=None, **k):
    return reduce_axis(BIN['multiply'], a, axis, 1.0)


def _cumsum(a, axis=None, **k):
    acc, out = None, []
    for v in _ravel(as_obj(a)):
        acc = v if acc is None else arith('add', acc, v)
        out.append(acc)
    return wrap(make_array(out))


def _round(a, decimals=0, out=None):
    return elementwise1(lambda x: round(x, decimals), a)


def _std(a, axis=None, **k):
    raise NotImplementedError('std of symbolic values')


def _array_equal(a, b, equal_nan=False):
    a, b = as_obj(a), as_obj(b)
    if a.shape != b.shape:
        return False
    return sand([_eq(x, y) for x, y in zip(_ravel(a), _ravel(b))])


def _isscalar(x):
    return is_sym(x) or _REAL['isscalar'](x)


def _nan_to_num(a, **k):
    return elementwise1(lambda x: x if is_sym(x) else np.nan_to_num(x, **k), a)


def _interp_unsup(*a, **k):
    raise NotImplementedError('np function on symbolic values')


def _strip(x):
    if isinstance(x, SymArray):
        return np.asarray(x)
    if isinstance(x, (list, tuple)):
        return type(x)(_strip(e) for e in x)
    return x


def _structural(name):
    """Shape-only functions: run numpy's own on the object array."""
    def f(*args, **kwargs):
        args = [make_array(a) if is_sym(a) else _strip(a) for a in args]
        r = getattr(np, name)(*args, **kwargs)
        if isinstance(r, np.ndarray):
            return wrap(r) if r.dtype == object else r
        if isinstance(r, (list, tuple)):
            return type(r)(wrap(e) if isinstance(e, np.ndarray) else e for e in r)
        return r
    return f


FUNCS = {
    'isclose': _isclose, 'allclose': _allclose, 'where': _where, 'mean': _mean, 'average': _mean,
    'sum': _sum, 'amin': _amin, 'amax': _amax, 'min': _amin, 'max': _amax, 'all': _all, 'any': _any,
    'prod': _prod, 'product': _prod, 'clip': lambda a, lo=None, hi=None, a_min=None, a_max=None, out=None, **k:
        _clip(a, a_min if lo is None else lo, a_max if hi is None else hi),
    'cumsum': _cumsum, 'round': _round, 'around': _round, 'round_': _round, 'array_equal': _array_equal,
    'dot': _dot, 'nan_to_num': _nan_to_num, 'std': _std, 'var': _std,
    'nansum': _sum, 'nanmin': _amin, 'nanmax': _amax, 'nanmean': _mean,
    'copy': lambda a, **k: np.asarray(a).copy().view(SymArray),
    'copyto': lambda dst, src, **k: dst.__setitem__(Ellipsis, src),
    'shape': lambda a: as_obj(a).shape, 'ndim': lambda a: as_obj(a).ndim, 'size': lambda a, axis=None: as_obj(a).size,
    'outer': lambda a, b, out=None: elementwise2(BIN['multiply'], as_obj(a).reshape(-1, 1), as_obj(b).reshape(1, -1)),
    'ones_like': lambda a, *x, **k: np.ones(as_obj(a).shape), 'zeros_like': lambda a, *x, **k: np.zeros(as_obj(a).shape, dtype=object),
    'full_like': lambda a, v, *x, **k: wrap(_full(as_obj(a).shape, v)), 'empty_like': lambda a, *x, **k: np.zeros(as_obj(a).shape, dtype=object),
    'isreal': lambda a: elementwise1(lambda x: True, a),
    'array_repr': lambda a, *x, **k: repr(np.asarray(a)), 'array_str': lambda a, *x, **k: str(np.asarray(a)),
}
STRUCT = ['concatenate', 'stack', 'vstack', 'hstack', 'column_stack', 'repeat', 'tile', 'reshape', 'ravel', 'transpose',
          'squeeze', 'expand_dims', 'append', 'split', 'array_split', 'atleast_1d', 'atleast_2d', 'broadcast_to', 'flip', 'roll',
          'pad', 'take', 'delete', 'insert', 'moveaxis', 'swapaxes', 'broadcast_arrays', 'fliplr', 'flipud', 'block']
for _n in STRUCT:
    FUNCS.setdefault(_n, _structural(_n))


def _full(shape, v):
    out = np.empty(shape, dtype=object)
    out[...] = v if not is_sym(v) else None
    if is_sym(v):
        for i in np.ndindex(*out.shape):
            out[i] = v
    return out


def array_function(func, types, args, kwargs):
    f = FUNCS.get(func.__name__)
    if f is not None:
        return f(*args, **kwargs)
    # unknown function: run numpy's implementation on the plain object arrays
    args = tuple(_strip(a) for a in args)
    r = func(*args, **kwargs) if not any(is_sym(a) for a in args) else func(*[make_array(a) if is_sym(a) else a for a in args], **kwargs)
    return wrap(r) if isinstance(r, np.ndarray) else r


def _concrete_mask(key):
    """Symbolic boolean mask -> plain bool array, by forking."""
    flat = [bool(e) for e in np.asarray(key).ravel().tolist()]
    return np.array(flat, dtype=bool).reshape(key.shape)


class MaskedSel:
    """arr[mask] with a symbolic mask, kept lazy: storing it back under the same mask merges
    into if-then-else terms, any other use decides the mask by forking."""

    def __init__(self, arr, mask):
        self._arr, self._mask, self._m = arr.copy(), mask, None

    def _mat(self):
        if self._m is None:
            self._m = np.ndarray.__getitem__(self._arr, _concrete_mask(self._mask))
        return self._m

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return getattr(self._mat(), n)

    def __array__(self, *a, **k):
        return np.asarray(self._mat())

    def same(self, mask):
        return mask is self._mask or (mask.shape == self._mask.shape and
                                      all(a is b for a, b in zip(np.asarray(mask).ravel().tolist(), np.asarray(self._mask).ravel().tolist())))


def _delegate(name):
    def f(self, *a):
        return getattr(self._mat(), name)(*[x._mat() if isinstance(x, MaskedSel) else x for x in a])
    return f


for _n in ('add radd sub rsub mul rmul truediv rtruediv neg abs pow len iter getitem setitem lt le gt ge eq ne repr str contains and or invert'.split()):
    setattr(MaskedSel, f'__{_n}__', _delegate(f'__{_n}__'))


class SymArray(np.ndarray):
    __array_priority__ = 1500.0

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)

    def __getitem__(self, key):
        if isinstance(key, SymArray) and key.shape == self.shape:
            return MaskedSel(self, key)
        if isinstance(key, SymArray):
            key = _concrete_mask(key)
        elif isinstance(key, tuple) and any(isinstance(k, SymArray) for k in key):
            key = tuple(_concrete_mask(k) if isinstance(k, SymArray) else k for k in key)
        return super().__getitem__(key)

    def __setitem__(self, key, val):
        if isinstance(val, MaskedSel):
            if isinstance(key, SymArray) and key.shape == self.shape and val.same(key):
                base, new, msk = np.asarray(self), np.asarray(val._arr), np.asarray(key)
                for i in np.ndindex(*self.shape):
                    base[i] = ite(msk[i], new[i], base[i])
                return
            val = val._mat()
        if isinstance(key, SymArray) and key.shape == self.shape:
            v = as_obj(val)
            if v.ndim == 0:
                base = np.asarray(self)
                for i in np.ndindex(*self.shape):
                    base[i] = ite(np.asarray(key)[i], v.item(), base[i])
                return
            key = _concrete_mask(key)
        elif isinstance(key, SymArray):
            key = _concrete_mask(key)
        if hasattr(val, 'to_numpy') and not is_sym(val):
            val = as_obj(val)
            if val.size == 1:
                val = val.ravel()[0]
        if is_sym(val):
            base = np.asarray(self)
            sub = base[key]
            if isinstance(sub, np.ndarray):
                base[key] = _full(sub.shape, val)
            else:
                base[key] = val
            return
        super().__setitem__(key, np.asarray(val) if isinstance(val, SymArray) else val)

    def astype(self, dtype, *a, **k):
        if dtype in (bool, np.bool_):
            return _concrete_mask(self)
        return np.asarray(self).copy().view(SymArray)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _amin(self, axis)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _amax(self, axis)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _sum(self, axis)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _mean(self, axis)

    def prod(self, axis=None, **k):
        return _prod(self, axis)

    def cumsum(self, axis=None, **k):
        return _cumsum(self)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return _all(self, axis)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return _any(self, axis)

    def round(self, decimals=0, out=None):
        return _round(self, decimals)

    def clip(self, lo=None, hi=None, out=None, **k):
        return _clip(self, k.get('min', lo), k.get('max', hi))

    def dot(self, b):
        return _dot(self, b)

    def nonzero(self):
        return _concrete_mask(self).nonzero()

    def argmin(self, axis=None, **k):
        vals = _ravel(np.asarray(self))
        best = 0
        for i in range(1, len(vals)):
            if vals[i] < vals[best]:
                best = i
        return best

    def argmax(self, axis=None, **k):
        vals = _ravel(np.asarray(self))
        best = 0
        for i in range(1, len(vals)):
            if vals[i] > vals[best]:
                best = i
        return best

    def item(self, *args):
        return np.asarray(self).item(*args)

    def tolist(self):
        return np.asarray(self).tolist()

    def __bool__(self):
        if self.size == 1:
            return bool(self.item())
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __reduce__(self):
        raise TypeError('symbolic arrays cannot be pickled')

    def __deepcopy__(self, memo):
        return np.asarray(self).copy().view(SymArray)


_REAL = {n: getattr(np, n) for n in ('isscalar',)}


# -------------------------------------------------------- constructors (np.*)

def np_array(obj, dtype=None, *a, **k):
    if isinstance(obj, SymArray):
        return np.asarray(obj).copy().view(SymArray)
    if has_sym(obj):
        return wrap(make_array(obj))
    return _view(np.array(obj, dtype, *a, **k) if not (dtype is not None and callable(dtype) and not isinstance(dtype, type)) else np.array(obj, np.float64, *a, **k))


def _view(r):
    """arrays of symbols that numpy made from something else (a data frame)"""
    if r.dtype == object and builtins.any(is_sym(e) for e in np.asarray(r).ravel().tolist()):
        return np.asarray(r).view(SymArray)
    return r


def np_asarray(obj, dtype=None, *a, **k):
    if isinstance(obj, SymArray):
        return obj
    if has_sym(obj):
        return wrap(make_array(obj))
    return _view(np.asarray(obj, dtype, *a, **k))


class HybridArray(np.ndarray):
    """Float array made by np.ones/zeros/... inside pymgrid: accepts symbols by
    being an object array underneath."""


def _filled(v):
    def f(shape, dtype=None, *a, **k):
        if dtype is not None and np.dtype(dtype).kind != 'f':
            return {0.0: np.zeros, 1.0: np.ones}[v](shape, dtype, *a, **k)
        out = np.empty(shape, dtype=object)
        out[...] = v
        return out.view(SymArray)
    return f


def np_full(shape, fill, dtype=None, *a, **k):
    if has_sym(fill):
        if is_sym(fill):
            return wrap(_full(shape, fill))
        out = np.empty(shape, dtype=object)
        out[...] = as_obj(fill)
        return wrap(out)
    if dtype is not None and np.dtype(dtype).kind != 'f':
        return np.full(shape, fill, dtype)
    out = np.empty(shape, dtype=object)
    out[...] = fill
    return out.view(SymArray)


CONSTRUCTORS = {
    'array': np_array, 'asarray': np_asarray, 'asanyarray': np_asarray, 'ascontiguousarray': np_asarray,
    'ones': _filled(1.0), 'zeros': _filled(0.0), 'empty': _filled(0.0), 'full': np_full, 'isscalar': _isscalar,
}


def lists_to_arrays(name):
    """numpy functions called with *lists* of symbols do not dispatch by themselves."""
    real = getattr(np, name)
    ours = FUNCS.get(name) or (lambda *a, **k: elementwise1(UN[name], *a) if name in UN else elementwise2(BIN[name], *a))

    def f(*args, **kwargs):
        if any(has_sym(a) for a in args):
            return ours(*args, **kwargs)
        return real(*args, **kwargs)
    f.__name__ = name
    return f
