"""Symbolic values and the path explorer.

The real pymgrid functions run in the real interpreter.  Numbers that the
harness declares as inputs are `SymReal` / `SymInt` proxies that build z3 terms;
every decision the code takes on them goes through `SymBool.__bool__`, which
asks the explorer which way this path goes.  The explorer enumerates the
decision tree depth first by re-execution, and asks the solver whether each
alternative is feasible.
"""
import math
import time
from fractions import Fraction

import numpy as np
import z3

z3.set_param('smt.random_seed', 1)
z3.set_param('nlsat.seed', 1)


class PathAbort(BaseException):
    """The current path is infeasible or must be given up."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class Session:
    """State of the path under execution (one per process)."""
    cur = None
    random = None
    landmarks = ()
    rounding = False        # float operations round (harness/h_rounding.py); exact reals otherwise


class SolverStats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0

    def add(self, other):
        for k, v in other.items():
            setattr(self, k, getattr(self, k) + v)

    def as_dict(self):
        return dict(queries=self.queries, sat=self.sat, unsat=self.unsat,
                    unknown=self.unknown, time=self.time)


STATS = SolverStats()


def solve(constraints, timeout_ms=4000, want_model=True, tactic=None):
    """One solver query. Returns ('sat', model) / ('unsat', None) / ('unknown', None)."""
    t0 = time.time()
    s = z3.Solver() if tactic is None else z3.SolverFor(tactic)
    s.set('timeout', int(timeout_ms))
    s.add(*constraints)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS.time += time.time() - t0
    STATS.queries += 1
    if r == z3.sat:
        STATS.sat += 1
        return 'sat', (s.model() if want_model else None)
    if r == z3.unsat:
        STATS.unsat += 1
        return 'unsat', None
    STATS.unknown += 1
    return 'unknown', None


def solve_hard(constraints, timeout_ms):
    """solve() with a ladder of back ends: default tactic, QF_NRA (nlsat)."""
    r, m = solve(constraints, min(timeout_ms, 3000))
    if r != 'unknown':
        return r, m
    r, m = solve(constraints, timeout_ms, tactic='QF_NRA')
    if r != 'unknown':
        return r, m
    return solve(constraints, timeout_ms)


# ---------------------------------------------------------------- constants

_const_cache = {}


def real_const(x):
    f = Fraction(x)
    c = _const_cache.get(f)
    if c is None:
        c = z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)
        if len(_const_cache) < 200000:
            _const_cache[f] = c
    return c


def model_value(model, term):
    """Value of `term` in `model` as Fraction (or bool); algebraic numbers are approximated."""
    v = model.eval(term, model_completion=True)
    if z3.is_bool(term):
        return z3.is_true(v)
    return z3_to_fraction(v)


def z3_to_fraction(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError(f'no value for {v}')


# ------------------------------------------------------------------ proxies

def is_sym(x):
    t = type(x)
    return t is SymReal or t is SymInt or t is SymBool


_NUM = (int, float, np.integer, np.floating, np.bool_)


def _is_num(x):
    return (isinstance(x, _NUM) and not is_sym(x)) or type(x) is Fraction


def _nonfinite(x):
    return isinstance(x, (float, np.floating)) and not is_sym(x) and not math.isfinite(x)


def zreal(x):
    """z3 Real term of a python number or proxy."""
    t = type(x)
    if t is SymReal:
        return x.z
    if t is SymInt:
        return z3.ToReal(x.z)
    if t is SymBool:
        return z3.If(x.z, z3.RealVal(1), z3.RealVal(0))
    if t is Fraction:
        return real_const(x)
    if isinstance(x, (bool, np.bool_)):
        return real_const(int(x))
    return real_const(x.item() if isinstance(x, np.generic) else x)


def zint(x):
    t = type(x)
    if t is SymInt:
        return x.z
    if t is SymBool:
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def zbool(x):
    t = type(x)
    if t is SymBool:
        return x.z
    if t is SymReal or t is SymInt:
        return x.z != 0
    return z3.BoolVal(bool(x))


def _intlike(x):
    t = type(x)
    if t is SymInt or t is SymBool:
        return True
    if t is SymReal:
        return False
    return isinstance(x, (int, np.integer, np.bool_))


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def mkreal(z):
    return SymReal(z)


def _arr(x):
    return isinstance(x, np.ndarray) or isinstance(x, (list, tuple))


def unwrap0(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item()
    return x


class _SymNum:
    __slots__ = ('z', '__weakref__')
    __array_priority__ = 2000.0

    # -- numpy protocols ----------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import nparr
        return nparr.array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import nparr
        return nparr.array_function(func, types, args, kwargs)

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def squeeze(self):
        return self

    def any(self, *a, **k):
        return self != 0

    def all(self, *a, **k):
        return self != 0

    def astype(self, *a, **k):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError('symbolic values cannot be pickled')

    def is_integer(self):
        if type(self) is SymInt:
            return True
        return mkbool(z3.IsInt(self.z))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    # -- arithmetic ---------------------------------------------------------
    def _bin(self, o, op, rev=False):
        if is_sym(o) or _is_num(o):
            return arith(op, o, self) if rev else arith(op, self, o)
        if isinstance(o, np.ndarray):
            from . import nparr
            return nparr.elementwise2(lambda a, b: arith(op, a, b), *((o, self) if rev else (self, o)))
        return NotImplemented

    def __add__(self, o): return self._bin(o, 'add')
    def __radd__(self, o): return self._bin(o, 'add', True)
    def __sub__(self, o): return self._bin(o, 'sub')
    def __rsub__(self, o): return self._bin(o, 'sub', True)
    def __mul__(self, o): return self._bin(o, 'mul')
    def __rmul__(self, o): return self._bin(o, 'mul', True)
    def __truediv__(self, o): return self._bin(o, 'div')
    def __rtruediv__(self, o): return self._bin(o, 'div', True)
    def __floordiv__(self, o): return self._bin(o, 'floordiv')
    def __rfloordiv__(self, o): return self._bin(o, 'floordiv', True)
    def __mod__(self, o): return self._bin(o, 'mod')
    def __rmod__(self, o): return self._bin(o, 'mod', True)
    def __pow__(self, o): return self._bin(o, 'pow')
    def __rpow__(self, o): return self._bin(o, 'pow', True)

    def __divmod__(self, o): return (self // o, self % o)

    def __neg__(self):
        return type(self)(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.If(self.z >= 0, self.z, -self.z))

    # -- comparisons --------------------------------------------------------
    def _cmp(self, o, op):
        if is_sym(o) or _is_num(o):
            return compare(op, self, o)
        if isinstance(o, np.ndarray):
            from . import nparr
            return nparr.elementwise2(lambda a, b: compare(op, a, b), self, o)
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __eq__(self, o): return self._cmp(o, 'eq')
    def __ne__(self, o): return self._cmp(o, 'ne')

    def __hash__(self):
        return 7

    def __bool__(self):
        return Session.cur.branch(self.z != 0)

    # -- conversions --------------------------------------------------------
    def __float__(self):
        return float(Session.cur.concretise(self.z))

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __round__(self, ndigits=None):
        return round_(self, ndigits)

    def __repr__(self):
        return token_str(self)

    __str__ = __repr__

    def __format__(self, spec):
        return token_str(self)


class SymReal(_SymNum):
    __slots__ = ()

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return float

    def __int__(self):
        return int(trunc(self))


class SymInt(_SymNum):
    __slots__ = ()

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return int

    def __index__(self):
        return int(Session.cur.choose(self.z))

    __int__ = __index__

    def __hash__(self):
        return hash(int(self))

    def bit_length(self):
        return int(self).bit_length()


class SymBool:
    __slots__ = ('z', '__weakref__')
    __array_priority__ = 2000.0
    __array_ufunc__ = _SymNum.__array_ufunc__
    __array_function__ = _SymNum.__array_function__

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return Session.cur.branch(self.z)

    def item(self):
        return self

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def _b(self, o, f):
        if type(o) is SymBool or isinstance(o, (bool, np.bool_)):
            return mkbool(f(self.z, zbool(o)))
        if isinstance(o, np.ndarray):
            from . import nparr
            return nparr.elementwise2(lambda a, b: mkbool(f(zbool(a), zbool(b))), self, o)
        if _is_num(o) or is_sym(o):
            return mkbool(f(self.z, zbool(o)))
        return NotImplemented

    def __and__(self, o): return self._b(o, z3.And)
    __rand__ = __and__
    def __or__(self, o): return self._b(o, z3.Or)
    __ror__ = __or__
    def __xor__(self, o): return self._b(o, z3.Xor)
    __rxor__ = __xor__
    def __invert__(self): return mkbool(z3.Not(self.z))

    def __eq__(self, o):
        if type(o) is SymBool or isinstance(o, (bool, np.bool_)):
            return mkbool(self.z == zbool(o))
        if is_sym(o) or _is_num(o):
            return compare('eq', SymInt(zint(self)), o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) and type(r) is bool else ~r

    def _num(self):
        return SymInt(zint(self))

    def __add__(self, o): return self._num() + o
    def __radd__(self, o): return o + self._num()
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return self._num() * o
    def __rmul__(self, o): return o * self._num()
    def __truediv__(self, o): return self._num() / o
    def __neg__(self): return -self._num()
    def __lt__(self, o): return self._num() < o
    def __le__(self, o): return self._num() <= o
    def __gt__(self, o): return self._num() > o
    def __ge__(self, o): return self._num() >= o
    def __int__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __index__(self): return int(bool(self))
    def __hash__(self): return hash(bool(self))
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __repr__(self):
        return token_str(self)
    __str__ = __repr__

    def __format__(self, spec):
        return token_str(self)


# tokens: a unique float literal per symbolic term, so that text codecs (yaml,
# csv, f-strings) can carry symbols and hand them back (see patch.py).
TOKENS = {}
_TOKEN_OF = {}


def token(x):
    key = (type(x).__name__, x.z.get_id())
    t = _TOKEN_OF.get(key)
    if t is None:
        n = len(TOKENS) + 1
        t = 900000000.0 + n * 16 + 0.5
        TOKENS[t] = x
        _TOKEN_OF[key] = t
    return t


def clear_tokens():
    TOKENS.clear()
    _TOKEN_OF.clear()


def token_str(x):
    return repr(token(x))


# ------------------------------------------------------------- operations

def arith(op, a, b):
    """Python-float semantics on exact reals (int semantics on exact ints)."""
    if not is_sym(a) and not is_sym(b):
        return _conc_arith(op, a, b)
    na, nb = _nonfinite(a), _nonfinite(b)
    if na or nb:
        return _arith_nonfinite(op, a, b)
    ints = _intlike(a) and _intlike(b)
    if op == 'add' or op == 'sub' or op == 'mul':
        # identities keep the terms small
        if op == 'mul':
            if not is_sym(a):
                if a == 1: return b if not (isinstance(a, float) and _intlike(b)) else SymReal(zreal(b))
                if a == 0: return 0 if ints else 0.0
                if a == -1:
                    return SymInt(-zint(b)) if ints else SymReal(-zreal(b))
            if not is_sym(b):
                if b == 1: return a if not (isinstance(b, float) and _intlike(a)) else SymReal(zreal(a))
                if b == 0: return 0 if ints else 0.0
                if b == -1:
                    return SymInt(-zint(a)) if ints else SymReal(-zreal(a))
        elif not is_sym(b) and b == 0:
            return a if ints or type(a) is SymReal else SymReal(zreal(a))
        elif op == 'add' and not is_sym(a) and a == 0:
            return b if ints or type(b) is SymReal else SymReal(zreal(b))
        za, zb = (zint(a), zint(b)) if ints else (zreal(a), zreal(b))
        z = za + zb if op == 'add' else za - zb if op == 'sub' else za * zb
        return fold(z, ints)
    if op == 'div':
        if not is_sym(b):
            if b == 0:
                raise ZeroDivisionError('float division by zero')
            if b == 1:
                return a if type(a) is SymReal else SymReal(zreal(a))
            return fold(zreal(a) / zreal(b), False)
        if Session.cur.branch(zreal(b) == 0):
            raise ZeroDivisionError('float division by zero')
        if not is_sym(a) and a == 0:
            return 0.0
        return fold(zreal(a) / zreal(b), False)
    if op in ('floordiv', 'mod'):
        if is_sym(b):
            if Session.cur.branch(zreal(b) == 0):
                raise ZeroDivisionError('integer division or modulo by zero')
            b = Session.cur.choose_const(b)
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if ints:
            q = z3.ToInt(zreal(a) / zreal(b))
            return SymInt(q) if op == 'floordiv' else SymInt(zint(a) - zint(b) * q)
        q = z3.ToReal(z3.ToInt(zreal(a) / zreal(b)))
        return SymReal(q) if op == 'floordiv' else SymReal(zreal(a) - zreal(b) * q)
    if op == 'pow':
        if is_sym(b):
            b = Session.cur.choose_const(b)
        if not is_sym(a):
            return a ** b
        if float(b).is_integer() and 0 <= b <= 8:
            r = 1
            for _ in range(int(b)):
                r = r * a
            return r
        if float(b).is_integer() and -8 <= b < 0:
            return 1.0 / arith('pow', a, -b)
        if b == 0.5:
            s = Session.cur.fresh_real('sqrt')
            Session.cur.add_definition(z3.And(s >= 0, s * s == zreal(a)))
            return SymReal(s)
        return float(a) ** b
    raise NotImplementedError(op)


_U = Fraction(1, 2 ** 53)


def rounded(z):
    """Result of a float operation with exact value z: any value within half an ulp (relative 2^-53; underflow excluded)."""
    cur = Session.cur
    cache = cur.__dict__.setdefault('rounded', {})
    r = cache.get(z.get_id())
    if r is None:
        r = cur.fresh_real('fl')
        lo, hi = real_const(1 - _U), real_const(1 + _U)
        facts = [z3.If(z >= 0, z3.And(z * lo <= r, r <= z * hi), z3.And(z * hi <= r, r <= z * lo))]
        for m in Session.landmarks:      # rounding is monotone and these are floats
            facts += [z3.Implies(z <= zreal(m), r <= zreal(m)), z3.Implies(z >= zreal(m), r >= zreal(m))]
        cur.add_definition(z3.And(*facts))
        cache[z.get_id()] = r
        cache[('keep', z.get_id())] = z
    return r


def fold(z, ints):
    z = z3.simplify(z)
    if not ints and Session.rounding and not z3.is_rational_value(z) and not (z3.is_const(z)):
        return SymReal(rounded(z))
    if ints:
        if z3.is_int_value(z):
            return z.as_long()
        return SymInt(z)
    if z3.is_rational_value(z):
        f = Fraction(z.numerator_as_long(), z.denominator_as_long())
        x = float(f) if abs(f) < 2 ** 1000 else None
        if x is not None and Fraction(x) == f:
            return x
    return SymReal(z)


def _conc_arith(op, a, b):
    if op == 'add': return a + b
    if op == 'sub': return a - b
    if op == 'mul': return a * b
    if op == 'div': return a / b
    if op == 'floordiv': return a // b
    if op == 'mod': return a % b
    if op == 'pow': return a ** b


def _arith_nonfinite(op, a, b):
    """One operand is inf/nan, the other symbolic (finite)."""
    x = a if _nonfinite(a) else b
    if math.isnan(x):
        return math.nan
    if op == 'add':
        return x
    if op == 'sub':
        return x if x is a else -x
    if op == 'mul':
        s = b if x is a else a
        if Session.cur.branch(zreal(s) == 0):
            return math.nan
        return x if Session.cur.branch(zreal(s) > 0) else -x
    if op == 'div':
        if x is b:
            return 0.0
        if Session.cur.branch(zreal(b) == 0):
            raise ZeroDivisionError('float division by zero')
        return x if Session.cur.branch(zreal(b) > 0) else -x
    raise TypeError(f'{op} with non-finite value')


def compare(op, a, b):
    if not is_sym(a) and not is_sym(b):
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[op]
    for x, other, flip in ((b, a, False), (a, b, True)):
        if _nonfinite(x):
            if math.isnan(x):
                return op == 'ne'
            c = -1 if x > 0 else 1           # sign of other - x
            if flip:
                c = -c                        # a is the infinite one: sign of a - b
            return {'lt': c < 0, 'le': c < 0, 'gt': c > 0, 'ge': c > 0, 'eq': False, 'ne': True}[op]
    if _intlike(a) and _intlike(b):
        za, zb = zint(a), zint(b)
    else:
        za, zb = zreal(a), zreal(b)
    z = (za < zb if op == 'lt' else za <= zb if op == 'le' else za > zb if op == 'gt' else
         za >= zb if op == 'ge' else za == zb if op == 'eq' else za != zb)
    return mkbool(z)


def floor(x):
    if type(x) is SymInt:
        return x
    return SymInt(z3.ToInt(zreal(x)))


def trunc(x):
    if type(x) is SymInt:
        return x
    z = zreal(x)
    return SymInt(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))


def round_(x, ndigits=None):
    if type(x) is SymInt:
        return x
    if ndigits is None:
        n = Session.cur.choose_round(zreal(x))
        return n
    # round to ndigits: exact value not needed to more than half a unit; fresh
    # value within half a unit (over-approximation, listed in the assumptions)
    unit = Fraction(1, 10 ** ndigits) if ndigits >= 0 else Fraction(10 ** -ndigits)
    key = ('round', x.z.get_id(), ndigits)
    r = Session.cur.memo.get(key)
    if r is None:
        r = Session.cur.fresh_real('round')
        h = real_const(unit / 2)
        Session.cur.add_definition(z3.And(r - x.z <= h, x.z - r <= h))
        Session.cur.memo[key] = r
        Session.cur.memo[('keep', x.z.get_id())] = x.z
    return SymReal(r)


def ite(c, a, b):
    """If-then-else without forking (for oracles and merged min/max)."""
    if type(c) is not SymBool:
        return a if c else b
    if type(a) is SymBool or type(b) is SymBool or (isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_))):
        return mkbool(z3.If(c.z, zbool(a), zbool(b)))
    if _nonfinite(a) or _nonfinite(b):
        return a if bool(c) else b
    if _intlike(a) and _intlike(b):
        return SymInt(z3.If(c.z, zint(a), zint(b)))
    return fold(z3.If(c.z, zreal(a), zreal(b)), False)


def smin(a, b):
    return ite(a <= b, a, b)


def smax(a, b):
    return ite(a >= b, a, b)


def sand(xs):
    zs = []
    for x in xs:
        if type(x) is SymBool:
            zs.append(x.z)
        elif is_sym(x):
            zs.append(x.z != 0)
        elif not x:
            return False
    if not zs:
        return True
    return mkbool(z3.And(*zs))


def sor(xs):
    zs = []
    for x in xs:
        if type(x) is SymBool:
            zs.append(x.z)
        elif is_sym(x):
            zs.append(x.z != 0)
        elif x:
            return True
    if not zs:
        return False
    return mkbool(z3.Or(*zs))


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    """numpy.isclose on scalars."""
    if not is_sym(a) and not is_sym(b):
        return bool(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan))
    if _nonfinite(a) or _nonfinite(b):
        return False
    za, zb = zreal(a), zreal(b)
    d = za - zb
    bound = real_const(Fraction(atol)) + real_const(Fraction(rtol)) * z3.If(zb >= 0, zb, -zb)
    return mkbool(z3.And(d <= bound, -d <= bound))


# ------------------------------------------------------------------- paths

class Path:
    """One execution: follows `prefix` decisions, then the model's side."""

    def __init__(self, prefix, model, explorer):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.constraints = []
        self.decided = {}
        self.model = model
        self.explorer = explorer
        self.inputs = {}
        self.memo = {}
        self.nfresh = 0
        self.incomplete = []
        self.obligations = []
        self.observed = []
        self.keep = []
        self.no_model = False

    # -- plumbing
    def fresh_real(self, base):
        self.nfresh += 1
        return z3.Real(f'{base}!{self.nfresh}')

    def fresh_int(self, base):
        self.nfresh += 1
        return z3.Int(f'{base}!{self.nfresh}')

    def add_definition(self, z):
        """A constraint that defines a fresh variable (always satisfiable)."""
        self.constraints.append(z)
        self.remodel(z)

    def remodel(self, z=None):
        """Make sure self.model satisfies the constraints (after z was added)."""
        if self.model is not None and z is not None:
            if z3.is_true(self.model.eval(z, model_completion=True)):
                return
        if self.no_model or self.pos < len(self.prefix):
            return
        r, m = solve(self.constraints, 2000)
        if r == 'unknown':
            r, m = solve_hard(self.constraints, 8000)
        if r == 'unsat':
            raise PathAbort('infeasible')
        self.model = m
        if r == 'unknown':
            self.model = None
            self.no_model = True

    def assume(self, c):
        if type(c) is SymBool:
            z = c.z
        elif is_sym(c):
            z = c.z != 0
        else:
            if not c:
                raise PathAbort('assume')
            return
        self.constraints.append(z)
        # models handed in for a prefix satisfy the prefix constraints, assumptions included
        self.remodel(z)

    def _take(self, z, v, payload=None):
        c = z if v else z3.Not(z)
        self.constraints.append(c)
        self.decisions.append((v, payload))
        self.keep.append(z)
        self.decided[z.get_id()] = v

    def known(self, z):
        """The truth value of a condition this path has already settled, or None."""
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        v = self.decided.get(z.get_id())
        if v is None and z3.is_not(z):
            v = self.decided.get(z.arg(0).get_id())
            v = None if v is None else not v
        return v

    def branch(self, z, payload=None):
        z = z3.simplify(z)
        v = self.known(z)
        if v is not None:
            if payload is not None:
                # a choice always takes one entry of the decision list, which holds the value chosen
                self.pos += 1
                self.decisions.append((v, payload))
            return v
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][0]
            self.pos += 1
            self._take(z, v, payload)
            return v
        self.explorer.tick()
        if self.model is None:
            self.remodel()
        if self.model is not None:
            v = z3.is_true(self.model.eval(z, model_completion=True))
        else:
            v = True
        self.pos += 1
        alt = (list(self.decisions) + [(not v, payload)],
               list(self.constraints) + [z3.Not(z) if v else z])
        self.explorer.push(alt)
        self._take(z, v, payload)
        return v

    def choose(self, z):
        """Concretise an integer term by enumerating its feasible values."""
        zs = z3.simplify(z)
        if z3.is_int_value(zs):
            return zs.as_long()
        n = 0
        while True:
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos][1]
            else:
                if self.model is None:
                    self.remodel()
                if self.model is None:
                    raise PathAbort('unknown')
                v = int(z3_to_fraction(self.model.eval(zs, model_completion=True)))
            if self.branch(zs == v, payload=v):
                return v
            n += 1
            if n > 64:
                self.incomplete.append('choose>64')
                raise PathAbort('choose')

    def choose_round(self, z):
        """round(z) half to even, by enumerating the feasible integers."""
        n = 0
        while True:
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos][1]
            else:
                if self.model is None:
                    self.remodel()
                if self.model is None:
                    raise PathAbort('unknown')
                v = round(z3_to_fraction(self.model.eval(z, model_completion=True)))
            lo, hi = real_const(Fraction(2 * v - 1, 2)), real_const(Fraction(2 * v + 1, 2))
            c = z3.And(lo <= z, z <= hi) if v % 2 == 0 else z3.And(lo < z, z < hi)
            if self.branch(c, payload=v):
                return v
            n += 1
            if n > 64:
                self.incomplete.append('round>64')
                raise PathAbort('choose')

    def choose_const(self, x):
        if type(x) is SymInt or type(x) is SymBool:
            return self.choose(zint(x))
        return float(self.concretise(x.z))

    def concretise(self, z):
        """Last resort (C code wants a float): pin the term to its model value."""
        zs = z3.simplify(z)
        if z3.is_rational_value(zs):
            return Fraction(zs.numerator_as_long(), zs.denominator_as_long())
        if z3.is_int_value(zs):
            return Fraction(zs.as_long())
        if self.model is None:
            self.remodel()
        if self.model is None:
            raise PathAbort('unknown')
        f = z3_to_fraction(self.model.eval(zs, model_completion=True))
        import traceback
        where = ' <- '.join(f'{fr.name}:{fr.lineno}' for fr in reversed(traceback.extract_stack()[-6:-2]))
        self.incomplete.append(f'concretised a symbolic value at {where}')
        self.constraints.append(zs == real_const(f))
        return f

    # -- inputs
    def input(self, name, kind, lo, hi, lo_open=False, hi_open=False):
        if name in self.inputs:
            raise RuntimeError(f'input {name} drawn twice')
        if kind == 'real':
            z = z3.Real(name)
            s = SymReal(z)
        elif kind == 'int':
            z = z3.Int(name)
            s = SymInt(z)
        else:
            z = z3.Bool(name)
            s = SymBool(z)
        self.inputs[name] = (kind, z)
        cs = []
        if kind != 'bool':
            cv = real_const if kind == 'real' else z3.IntVal
            if lo is not None:
                cs.append(z > cv(lo) if lo_open else z >= cv(lo))
            if hi is not None:
                cs.append(z < cv(hi) if hi_open else z <= cv(hi))
        for c in cs:
            self.constraints.append(c)
        if cs and self.model is not None and self.pos >= len(self.prefix):
            if not all(z3.is_true(self.model.eval(c, model_completion=True)) for c in cs):
                self.remodel()
        return s


class Explorer:
    """Depth-first exploration of the decision tree of `run(path)`."""

    def __init__(self, deadline, max_paths=10**9):
        self.work = []
        self.deadline = deadline
        self.max_paths = max_paths
        self.completed = 0
        self.infeasible = 0
        self.branches = 0
        self.undecided = []
        self.unknown_feas = 0

    def push(self, alt):
        self.work.append(alt)

    def tick(self):
        self.branches += 1
        if time.time() > self.deadline:
            raise PathAbort('deadline')

    def next_path(self):
        """Next feasible path, or None."""
        while self.work:
            if time.time() > self.deadline or self.completed >= self.max_paths:
                self.undecided.append(f'{len(self.work)} alternatives not explored: budget')
                self.work.clear()
                return None
            decisions, constraints = self.work.pop()
            if constraints is None:
                return Path(decisions, None, self)
            r, m = solve(constraints, 2000)
            if r == 'unknown':
                r, m = solve_hard(constraints, 6000)
            if r == 'unsat':
                self.infeasible += 1
                continue
            if r == 'unknown':
                self.unknown_feas += 1
                m = None
            return Path(decisions, m, self)
        return None

    def start(self, prefixes=None):
        for p in ([[]] if prefixes is None else prefixes):
            self.work.append((p, None))
