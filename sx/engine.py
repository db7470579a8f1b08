"""Path-forking symbolic execution of real Python code, decided by z3.

The code under test is executed by CPython itself; only its *data* is symbolic.  `S` is a finite real number
given by a z3 term, `B` a truth value given by a z3 formula.  Whenever the code branches on a `B` the engine asks
z3 which outcomes are possible under the current path condition and explores every feasible one (by
re-execution with a recorded decision prefix).  `Ctx.check` asks z3 for values that reach the check on the
current path and violate it; `unsat` discharges the obligation for every value on that path.

NaN / +-inf never live inside an `S`: they are ordinary concrete floats, and harnesses that need
"may be NaN" fork on it, so every path has a concrete NaN pattern.
"""
import math
import os
import threading
import time
from fractions import Fraction

import numpy as np
import z3

from . import poly

CUR = None  # the active exploration context

QUERY_TIMEOUT_MS = 20000


class PathDone(BaseException):
    """Leave the current path (assumption unsatisfiable / path abandoned)."""


class Inconclusive(Exception):
    pass


class Violation(BaseException):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label, self.detail = label, detail


# ----------------------------------------------------------------------------------------------- numbers

def frac(x):
    """Concrete Python/numpy number -> exact Fraction, floats read as their shortest decimal."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    return Fraction(repr(float(x)))


def rv(x):
    f = frac(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}" if f.denominator != 1 else str(f.numerator))


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, bool, np.bool_, Fraction))


def isnan(x):
    return isinstance(x, (float, np.floating)) and x != x


def isinf(x):
    return isinstance(x, (float, np.floating)) and (x == math.inf or x == -math.inf)


def term(x):
    """z3 real term of a finite scalar."""
    if isinstance(x, S):
        return x.t
    if isinstance(x, B):
        return z3.If(x.f, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return term(x.item())
    return rv(x)


def _unwrap(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x[()]
    return x


def mk(t):
    """Wrap a z3 term; fold numerals to floats when they are exactly representable in decimal."""
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        v = float(f)
        if frac(v) == f:
            return np.float64(v)
    return S(t)


def sign_of(x):
    """-1/0/1 of a scalar, forking when symbolic."""
    if isinstance(x, S):
        if bool(x > 0):
            return 1
        return -1 if bool(x < 0) else 0
    return int(x > 0) - int(x < 0)


class S:
    """A finite real number with a z3 term."""
    __slots__ = ("t",)
    __array_priority__ = 2000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, t):
        self.t = t

    # -- numpy protocol (handled in snp)
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import snp
        return snp.do_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import snp
        return snp.do_function(func, types, args, kwargs)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("symbolic value cannot be pickled")

    def __repr__(self):
        s = str(self.t)
        return f"S({s if len(s) < 60 else s[:57] + '...'})"

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return self.t.hash()

    def item(self):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return np.float64(0.0)

    @property
    def T(self):
        return self

    def astype(self, *a, **k):
        return self

    def reshape(self, *shape):
        from . import snp
        return snp.mkarr([self]).reshape(*shape)

    def __getitem__(self, key):
        if key == ():
            return self
        raise IndexError("invalid index to scalar variable.")

    # -- arithmetic
    @staticmethod
    def _arr(o):
        return isinstance(o, np.ndarray) and o.ndim > 0

    def _bin(self, o, fn, ufunc, refl=False):
        o = _unwrap(o)
        if isinstance(o, np.ndarray):
            from . import snp
            return snp.do_ufunc(ufunc, "__call__", (o, self) if refl else (self, o), {})
        if isinstance(o, (list, tuple)):
            from . import snp
            a = snp.mkarr(o)
            return snp.do_ufunc(ufunc, "__call__", (a, self) if refl else (self, a), {})
        if isinstance(o, C):
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating)):
            return NotImplemented if refl else getattr(C(self, 0.0), {"add": "__add__", "subtract": "__sub__",
                   "multiply": "__mul__", "divide": "__truediv__", "true_divide": "__truediv__"}[ufunc.__name__])(o)
        if not (is_num(o) or isinstance(o, (S, B))):
            return NotImplemented
        return fn(o, self) if refl else fn(self, o)

    def __add__(self, o): return self._bin(o, s_add, np.add)
    def __radd__(self, o): return self._bin(o, s_add, np.add, True)
    def __sub__(self, o): return self._bin(o, s_sub, np.subtract)
    def __rsub__(self, o): return self._bin(o, s_sub, np.subtract, True)
    def __mul__(self, o): return self._bin(o, s_mul, np.multiply)
    def __rmul__(self, o): return self._bin(o, s_mul, np.multiply, True)
    def __truediv__(self, o): return self._bin(o, s_div, np.true_divide)
    def __rtruediv__(self, o): return self._bin(o, s_div, np.true_divide, True)
    def __floordiv__(self, o): return self._bin(o, s_floordiv, np.floor_divide)
    def __rfloordiv__(self, o): return self._bin(o, s_floordiv, np.floor_divide, True)
    def __mod__(self, o): return self._bin(o, s_mod, np.remainder)
    def __rmod__(self, o): return self._bin(o, s_mod, np.remainder, True)
    def __pow__(self, o, m=None): return self._bin(o, s_pow, np.power)
    def __rpow__(self, o): return self._bin(o, s_pow, np.power, True)
    def __neg__(self): return mk(-self.t)
    def __pos__(self): return self
    def __abs__(self): return s_abs(self)

    def _cmp(self, o, op, ufunc):
        o = _unwrap(o)
        if isinstance(o, np.ndarray):
            from . import snp
            return snp.do_ufunc(ufunc, "__call__", (self, o), {})
        if not (is_num(o) or isinstance(o, (S, B))):
            return NotImplemented
        return s_cmp(op, self, o)

    def __lt__(self, o): return self._cmp(o, "<", np.less)
    def __le__(self, o): return self._cmp(o, "<=", np.less_equal)
    def __gt__(self, o): return self._cmp(o, ">", np.greater)
    def __ge__(self, o): return self._cmp(o, ">=", np.greater_equal)

    def __eq__(self, o):
        r = self._cmp(o, "==", np.equal)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=", np.not_equal)
        return True if r is NotImplemented else r

    def __bool__(self):
        return CUR.decide(self.t != 0)

    def __float__(self):
        return CUR.concretise(self.t, "float() of a symbolic value")

    def __int__(self):
        neg = bool(self < 0)
        k = CUR.concretise_int(z3.ToInt(-self.t) if neg else z3.ToInt(self.t))
        return -k if neg else k

    def __index__(self):
        if bool(B(z3.Not(z3.IsInt(self.t)))):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CUR.concretise_int(z3.ToInt(self.t))

    def __trunc__(self):
        return int(self)

    def __floor__(self):
        return mk(z3.ToReal(z3.ToInt(self.t)))

    def __ceil__(self):
        return mk(-z3.ToReal(z3.ToInt(-self.t)))

    def __round__(self, n=None):
        return s_round(self, n or 0)

    def is_integer(self):
        return B(z3.IsInt(self.t))


class B:
    """A truth value given by a z3 formula."""
    __slots__ = ("f",)
    __array_priority__ = 2000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, f):
        self.f = f

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import snp
        return snp.do_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import snp
        return snp.do_function(func, types, args, kwargs)

    def __bool__(self):
        return CUR.decide(self.f)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __hash__(self):
        return self.f.hash()

    def __repr__(self):
        return f"B({str(self.f)[:60]})"

    def _l(self, o, fn):
        o = _unwrap(o)
        if isinstance(o, B):
            return mkb(fn(self.f, o.f))
        if isinstance(o, (bool, np.bool_)):
            return mkb(fn(self.f, z3.BoolVal(bool(o))))
        return NotImplemented

    def __and__(self, o): return self._l(o, z3.And)
    __rand__ = __and__
    def __or__(self, o): return self._l(o, z3.Or)
    __ror__ = __or__
    def __xor__(self, o): return self._l(o, z3.Xor)
    __rxor__ = __xor__
    def __invert__(self): return mkb(z3.Not(self.f))

    def __eq__(self, o):
        r = self._l(o, lambda a, b: a == b)
        return s_cmp("==", self, o) if r is NotImplemented and is_num(o) else r

    def __ne__(self, o):
        r = self._l(o, lambda a, b: a != b)
        return s_cmp("!=", self, o) if r is NotImplemented and is_num(o) else r

    def __add__(self, o): return s_add(self, o)
    __radd__ = __add__
    def __mul__(self, o): return s_mul(self, o)
    __rmul__ = __mul__
    def __sub__(self, o): return s_sub(self, o)
    def __rsub__(self, o): return s_sub(o, self)
    def __truediv__(self, o): return s_div(self, o)
    def __lt__(self, o): return s_cmp("<", self, o)
    def __gt__(self, o): return s_cmp(">", self, o)
    def __le__(self, o): return s_cmp("<=", self, o)
    def __ge__(self, o): return s_cmp(">=", self, o)
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))


class C:
    """Complex number with real/imaginary parts that may be symbolic."""
    __slots__ = ("re", "im")
    __array_priority__ = 3000

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(x):
        if isinstance(x, C):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return C(np.float64(x.real), np.float64(x.imag))
        return C(x, 0.0)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import snp
        return snp.do_ufunc(ufunc, method, inputs, kwargs)

    def _ok(self, o):
        return isinstance(o, (C, S, B, complex, np.complexfloating)) or is_num(o)

    def __add__(self, o):
        if not self._ok(o): return NotImplemented
        o = C.of(o)
        return C(s_add(self.re, o.re), s_add(self.im, o.im))
    __radd__ = __add__

    def __neg__(self): return C(s_sub(0.0, self.re), s_sub(0.0, self.im))

    def __sub__(self, o):
        if not self._ok(o): return NotImplemented
        return self + (-C.of(o))

    def __rsub__(self, o):
        if not self._ok(o): return NotImplemented
        return C.of(o) + (-self)

    def __mul__(self, o):
        if not self._ok(o): return NotImplemented
        o = C.of(o)
        return C(s_sub(s_mul(self.re, o.re), s_mul(self.im, o.im)), s_add(s_mul(self.re, o.im), s_mul(self.im, o.re)))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not self._ok(o): return NotImplemented
        o = C.of(o)
        if is_num(o.im) and o.im == 0:
            return C(s_div(self.re, o.re), s_div(self.im, o.re))
        d = s_add(s_mul(o.re, o.re), s_mul(o.im, o.im))
        n = self * o.conjugate()
        return C(s_div(n.re, d), s_div(n.im, d))

    def __rtruediv__(self, o):
        return C.of(o) / self

    def __abs__(self):
        return s_sqrt(s_add(s_mul(self.re, self.re), s_mul(self.im, self.im)))

    def conjugate(self): return C(self.re, s_sub(0.0, self.im))
    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __repr__(self): return f"C({self.re},{self.im})"


def mkb(f):
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return B(f)


def _sym(x):
    return isinstance(x, (S, B))


def _f64(fn, a, b):
    with np.errstate(all="ignore"):
        return fn(np.float64(a), np.float64(b))


def _conc(x):
    """plain number for bool-likes"""
    return float(x) if isinstance(x, (bool, np.bool_)) else x


def s_add(a, b):
    if not _sym(a) and not _sym(b):
        if isinstance(a, (C, complex, np.complexfloating)) or isinstance(b, (C, complex, np.complexfloating)):
            return C.of(a).__add__(b)
        return a + b if _bothint(a, b) else _f64(np.add, a, b)
    if isinstance(a, C) or isinstance(b, C):
        return C.of(a).__add__(b)
    for x, y in ((a, b), (b, a)):
        if not _sym(x):
            if isnan(x) or isinf(x):
                return x
            if x == 0:
                return y if isinstance(y, S) else S(term(y))
    return mk(term(a) + term(b))


def _bothint(a, b):
    return isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) \
        and not isinstance(a, bool) and not isinstance(b, bool)


def s_sub(a, b):
    if not _sym(a) and not _sym(b):
        if isinstance(a, (C, complex, np.complexfloating)) or isinstance(b, (C, complex, np.complexfloating)):
            return C.of(a).__sub__(b)
        return a - b if _bothint(a, b) else _f64(np.subtract, a, b)
    if isinstance(b, C) or isinstance(a, C):
        return C.of(a).__sub__(b)
    if not _sym(a):
        if isnan(a) or isinf(a):
            return a
        if a == 0:
            return mk(-term(b))
    if not _sym(b):
        if isnan(b) or isinf(b):
            return -b
        if b == 0:
            return a if isinstance(a, S) else S(term(a))
    return mk(term(a) - term(b))


def s_mul(a, b):
    if not _sym(a) and not _sym(b):
        if isinstance(a, (C, complex, np.complexfloating)) or isinstance(b, (C, complex, np.complexfloating)):
            return C.of(a).__mul__(b)
        return a * b if _bothint(a, b) else _f64(np.multiply, a, b)
    if isinstance(a, C) or isinstance(b, C):
        return C.of(a).__mul__(b)
    for x, y in ((a, b), (b, a)):
        if not _sym(x):
            if isnan(x):
                return x
            if isinf(x):
                s = sign_of(y)
                return np.float64(math.nan) if s == 0 else np.float64(x * s)
            if x == 0:
                return np.float64(0.0)
            if x == 1:
                return y if isinstance(y, S) else S(term(y))
    ta, tb = term(a), term(b)
    if ta.eq(tb):
        ta = tb = _unabs(ta)
    return mk(ta * tb)


def _unabs(t):
    """x for |x| as s_abs writes it"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = t.children()
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_GE and c.arg(0).eq(x) and z3.is_rational_value(c.arg(1)) and c.arg(1).numerator_as_long() == 0 and y.eq(-x):
            return x
    return t


def s_div(a, b):
    if not _sym(a) and not _sym(b):
        if isinstance(a, (C, complex, np.complexfloating)) or isinstance(b, (C, complex, np.complexfloating)):
            return C.of(a).__truediv__(b)
        return _f64(np.divide, a, b)
    if isinstance(a, C) or isinstance(b, C):
        return C.of(a).__truediv__(b)
    if not _sym(b):
        if isnan(b):
            return b
        if isinf(b):
            return np.float64(0.0)
        if b == 0:
            s = sign_of(a)
            return np.float64(math.nan) if s == 0 else np.float64(s * math.inf)
        if b == 1:
            return a if isinstance(a, S) else S(term(a))
        return mk(term(a) / rv(b))
    if not _sym(a):
        if isnan(a):
            return a
        if isinf(a):
            return np.float64(a * (sign_of(b) or 1))
    tb = term(b)
    if CUR.decide(tb == 0):
        s = sign_of(a)
        return np.float64(math.nan) if s == 0 else np.float64(s * math.inf)
    if not _sym(a) and a == 0:
        return np.float64(0.0)
    ta = term(a)
    if z3.eq(ta, tb):
        return np.float64(1.0)
    return mk(ta / tb)


def s_floordiv(a, b):
    if not _sym(a) and not _sym(b):
        return a // b if _bothint(a, b) and b != 0 else _f64(np.floor_divide, a, b)
    q = s_div(a, b)
    return q.__floor__() if isinstance(q, S) else np.floor(q)


def s_mod(a, b):
    if not _sym(a) and not _sym(b):
        return a % b if _bothint(a, b) and b != 0 else _f64(np.remainder, a, b)
    q = s_floordiv(a, b)
    if isnan(q) or isinf(q):
        return np.float64(math.nan)
    return s_sub(a, s_mul(b, q))


def s_trunc(x):
    if not _sym(x):
        return np.trunc(x)
    return s_floor(x) if not bool(s_cmp("<", x, 0)) else s_ceil(x)


def s_fmod(a, b):
    if not _sym(a) and not _sym(b):
        return _f64(np.fmod, a, b)
    return s_sub(a, s_mul(b, s_trunc(s_div(a, b))))


def s_floor(x): return x.__floor__() if isinstance(x, S) else np.floor(x)
def s_ceil(x): return x.__ceil__() if isinstance(x, S) else np.ceil(x)


def s_round(x, n=0):
    if not _sym(x):
        return np.round(x, n)
    sc = 10 ** n
    y = term(x) * sc
    fl = z3.ToInt(y)
    d = y - z3.ToReal(fl)
    half = z3.RealVal("1/2")
    up = z3.Or(d > half, z3.And(d == half, fl % 2 == 1))
    return mk(z3.ToReal(z3.If(up, fl + 1, fl)) / sc)


def s_pow(a, n):
    if not _sym(a) and not _sym(n):
        if isinstance(a, C):
            return _powi(a, int(n))
        if _bothint(a, n) and n >= 0:
            return a ** n
        return _f64(np.power, a, n)
    if _sym(n):
        raise Inconclusive("symbolic exponent")
    n = float(n)
    if n == int(n):
        n = int(n)
        if n >= 0:
            return _powi(a, n)
        return s_div(1.0, _powi(a, -n))
    if n == 0.5:
        return s_sqrt(a)
    if n == -0.5:
        return s_div(1.0, s_sqrt(a))
    if 2 * n == int(2 * n):
        return s_mul(s_pow(a, int(n - 0.5)), s_sqrt(a))
    raise Inconclusive(f"power {n} of a symbolic value")


def _powi(a, n):
    if n == 0:
        return np.float64(1.0)
    r = a
    for _ in range(n - 1):
        r = s_mul(r, a)
    return r


def s_abs(a):
    if isinstance(a, C):
        return abs(a)
    if not _sym(a):
        return abs(a)
    t = term(a)
    return mk(z3.If(t >= 0, t, -t))


def s_sign(a):
    if not _sym(a):
        return np.float64(np.sign(a))
    t = term(a)
    return mk(z3.If(t > 0, z3.RealVal(1), z3.If(t < 0, z3.RealVal(-1), z3.RealVal(0))))


def s_cmp(op, a, b):
    """-> bool or B, IEEE-like with respect to NaN / inf"""
    if not _sym(a) and not _sym(b):
        return bool({"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op])
    for x in (a, b):
        if isnan(x):
            return op == "!="
    if isinf(a) or isinf(b):
        x = a if isinf(a) else 0.0
        y = b if isinf(b) else 0.0
        return s_cmp(op, x, y)
    x, y = _compare_squares(term(a), term(b))
    f = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
         "==": lambda: x == y, "!=": lambda: x != y}[op]()
    if z3.eq(x, y):
        return op in ("<=", ">=", "==")
    return mkb(f)


def _compare_squares(x, y):
    """two square roots, or a square root and a number that is not negative, compare as their squares do"""
    def square(t):
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return CUR.squares.get(t.decl().name())
        if z3.is_rational_value(t) and t.numerator_as_long() >= 0:
            return t * t
        return None
    if z3.is_rational_value(x) and z3.is_rational_value(y):
        return x, y
    a = square(x)
    b = None if a is None else square(y)
    return (x, y) if b is None else (z3.simplify(a), z3.simplify(b))


def s_max(a, b, nanprop=True):
    if not _sym(a) and not _sym(b):
        if isnan(a): return a if nanprop else b
        if isnan(b): return b if nanprop else a
        return a if a >= b else b
    for x, y in ((a, b), (b, a)):
        if isnan(x): return x if nanprop else y
        if isinf(x): return x if x > 0 else y
    x, y = term(a), term(b)
    return a if z3.eq(x, y) else mk(z3.If(x >= y, x, y))


def s_min(a, b, nanprop=True):
    if not _sym(a) and not _sym(b):
        if isnan(a): return a if nanprop else b
        if isnan(b): return b if nanprop else a
        return a if a <= b else b
    for x, y in ((a, b), (b, a)):
        if isnan(x): return x if nanprop else y
        if isinf(x): return x if x < 0 else y
    x, y = term(a), term(b)
    return a if z3.eq(x, y) else mk(z3.If(x <= y, x, y))


def _fun_cached(kind, t, make):
    key = (kind, t.get_id())
    c = CUR.memo
    if key not in c:
        c[key] = (t, make())     # keep t alive so its id stays unique
    return c[key][1]


def s_sqrt(a):
    if isinstance(a, C):
        raise Inconclusive("complex sqrt")
    if not _sym(a):
        with np.errstate(all="ignore"):
            return np.sqrt(np.float64(a))
    if bool(s_cmp("<", a, 0)):
        return np.float64(math.nan)
    t = z3.simplify(term(a), som=True)

    def make():
        r = z3.Real(CUR.fresh_name("sqrt"))
        lo, hi = CUR.ival(t)
        CUR.ival.bounds[r.decl().name()] = (math.sqrt(max(lo, 0.0)), math.sqrt(hi) if hi >= 0 else INF)
        CUR.squares[r.decl().name()] = t
        CUR.axiom(z3.And(r >= 0, r * r == t))
        return S(r)
    return _fun_cached("sqrt", t, make)


# cos/sin as uninterpreted functions of the (normalised) argument, with the Pythagorean identity per instance;
# the sign of the argument is normalised so that cos(-x)=cos x and sin(-x)=-sin x hold by construction.
COS = z3.Function("COS", z3.RealSort(), z3.RealSort())
SIN = z3.Function("SIN", z3.RealSort(), z3.RealSort())


def _norm_angle(t):
    t = z3.simplify(t, som=True)
    n = z3.simplify(-t, som=True)
    return (t, 1) if str(t) <= str(n) else (n, -1)


def _trig(a):
    t, sg = _norm_angle(term(a))

    def make():
        c, s = COS(t), SIN(t)
        CUR.axiom(z3.And(c * c + s * s == 1, c >= -1, c <= 1, s >= -1, s <= 1,
                         z3.Implies(t == 0, z3.And(c == 1, s == 0))))
        lo, hi = CUR.ival(t)
        m = max(abs(lo), abs(hi))
        if m <= 1.5:
            cl, sm = math.cos(m) - 1e-9, math.sin(m) + 1e-9
            CUR.ival.fun[c.get_id()], CUR.ival.fun[s.get_id()] = (c, (cl, 1.0)), (s, (-sm, sm))
            CUR.axiom(z3.And(c >= rv(cl), s <= rv(sm), s >= rv(-sm)))
        CUR.angles.append(t)
        return S(c), S(s)
    c, s = _fun_cached("trig", t, make)
    return c, (s if sg == 1 else mk(-s.t))


def s_cos(a):
    return _trig(a)[0] if _sym(a) else np.cos(np.float64(a))


def s_sin(a):
    return _trig(a)[1] if _sym(a) else np.sin(np.float64(a))


def s_tan(a):
    return s_div(s_sin(a), s_cos(a)) if _sym(a) else np.tan(a)


def s_exp(a):
    if isinstance(a, C):
        if is_num(a.re) and a.re == 0:
            return C(s_cos(a.im), s_sin(a.im))
        raise Inconclusive("complex exp")
    if not _sym(a):
        return np.exp(a)
    t = z3.simplify(term(a), som=True)

    def make():
        r = z3.Real(CUR.fresh_name("exp"))
        CUR.axiom(z3.And(r > 0, r >= 1 + t, z3.Implies(t == 0, r == 1)))
        return S(r)
    return _fun_cached("exp", t, make)


def s_opaque(name, *args):
    """uninterpreted real function (congruence only)"""
    f = z3.Function("UF_" + name, *([z3.RealSort()] * (len(args) + 1)))
    CUR.opaque.add(name)
    return S(f(*[z3.simplify(term(a), som=True) for a in args]))


# ----------------------------------------------------------------------------------------------- intervals

INF = math.inf
_K = {}


def _widen(lo, hi):
    if lo != lo or hi != hi:
        return -INF, INF
    return (lo - abs(lo) * 1e-12, hi + abs(hi) * 1e-12)


def _imul(a, b):
    ps = []
    for x in a:
        for y in b:
            p = 0.0 if x == 0 or y == 0 else x * y
            ps.append(p)
    return min(ps), max(ps)


class Ival:
    """sound interval evaluation of terms under the declared variable ranges; settles many branches without a query"""

    def __init__(self):
        self.bounds = {}      # const name -> (lo, hi)
        self.fun = {}         # id of a function application -> (term, (lo, hi))
        self.memo = {}

    def __call__(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is None:
            lo, hi = self._eval(t)
            r = (t, _widen(lo, hi))
            self.memo[i] = r
        return r[1]

    def _eval(self, t):
        if z3.is_rational_value(t):
            f = t.numerator_as_long() / t.denominator_as_long()
            return f, f
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                return self.bounds.get(t.decl().name(), (-INF, INF))
            if t.get_id() in self.fun:
                return self.fun[t.get_id()][1]
            if t.decl().name() in ("COS", "SIN"):
                return -1.0, 1.0
            return -INF, INF
        if k == z3.Z3_OP_ADD:
            rs = [self(c) for c in ch]
            return sum(r[0] for r in rs), sum(r[1] for r in rs)
        if k == z3.Z3_OP_SUB:
            r = self(ch[0])
            for c in ch[1:]:
                q = self(c)
                r = (r[0] - q[1], r[1] - q[0])
            return r
        if k == z3.Z3_OP_UMINUS:
            r = self(ch[0])
            return -r[1], -r[0]
        if k == z3.Z3_OP_MUL:
            ids = {}
            for c in ch:
                ids.setdefault(c.get_id(), [c, 0])[1] += 1
            r = (1.0, 1.0)
            for c, n in ids.values():
                r = _imul(r, self._pow(self(c), n))
            return r
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 < ch[1].numerator_as_long() < 9:
            return self._pow(self(ch[0]), ch[1].numerator_as_long())
        if k == z3.Z3_OP_DIV:
            a, b = self(ch[0]), self(ch[1])
            if b[0] > 0 or b[1] < 0:
                inv = (0.0 if b[1] in (INF, -INF) else 1 / b[1], 0.0 if b[0] in (INF, -INF) else 1 / b[0])
                return _imul(a, inv)
            return -INF, INF
        if k == z3.Z3_OP_ITE:
            c = self.truth(ch[0])
            a, b = self(ch[1]), self(ch[2])
            if c is True:
                return a
            if c is False:
                return b
            # If(x >= 0, x, -x) and the like
            if c is None and ch[0].decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_LE) and len(ch[0].children()) == 2:
                x, y = ch[0].children()
                if ch[0].decl().kind() == z3.Z3_OP_GE and z3.is_rational_value(y) and y.numerator_as_long() == 0 and z3.eq(ch[1], x):
                    a = (max(a[0], 0.0), a[1])
                    b = (max(b[0], 0.0), b[1])
            return min(a[0], b[0]), max(a[1], b[1])
        if k == z3.Z3_OP_TO_REAL:
            return -INF, INF
        return -INF, INF

    @staticmethod
    def _pow(r, n):
        if n == 1:
            return r
        a, b = r[0] ** n if abs(r[0]) != INF else (INF if n % 2 == 0 else r[0]), r[1] ** n if abs(r[1]) != INF else (INF if n % 2 == 0 else r[1])
        if n % 2:
            return a, b
        return (0.0 if r[0] <= 0 <= r[1] else min(a, b)), max(a, b)

    def truth(self, f):
        """True / False / None"""
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        k = f.decl().kind()
        ch = f.children()
        if k == z3.Z3_OP_NOT:
            r = self.truth(ch[0])
            return None if r is None else not r
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            rs = [self.truth(c) for c in ch]
            stop = k == z3.Z3_OP_OR
            if any(r is stop for r in rs):
                return stop
            return (not stop) if all(r is (not stop) for r in rs) else None
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2 and z3.is_arith(ch[0]):
            a, b = self(ch[0]), self(ch[1])
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
                k = z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT
            if k == z3.Z3_OP_LE:
                return True if a[1] <= b[0] else (False if a[0] > b[1] else None)
            if k == z3.Z3_OP_LT:
                return True if a[1] < b[0] else (False if a[0] >= b[1] else None)
            apart = a[1] < b[0] or a[0] > b[1]
            if apart:
                return k == z3.Z3_OP_DISTINCT
        return None


# ----------------------------------------------------------------------------------------------- watchdog

_dog = dict(pid=None, deadline=None)


def _watch():
    while True:
        time.sleep(0.25)
        d = _dog["deadline"]
        if d is not None and time.time() > d:
            z3.main_ctx().interrupt()


def _guard(seconds):
    if _dog["pid"] != os.getpid():
        _dog["pid"] = os.getpid()
        threading.Thread(target=_watch, daemon=True).start()
    _dog["deadline"] = time.time() + seconds


def _ask(solver, ms, *extra):
    """check() that ends, also when z3 does not look at its clock; every failure of the solver is `unknown`"""
    _guard(ms / 1000 * 1.5 + 1)
    try:
        return solver.check(*extra)
    except z3.Z3Exception:
        return z3.unknown
    finally:
        _dog["deadline"] = None


# ----------------------------------------------------------------------------------------------- contexts

class Base:
    """What a harness sees; the symbolic (Ctx) and the concrete (Replay) side share this interface."""
    tier = "quick"

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    def allof(self, conds, label):
        for c in conds:
            self.check(c, label)

    def same_str(self, a, b, label):
        self.check(a == b, label, f"{a!r} != {b!r}")

    def raises(self, exc, fn, label):
        """fn() must raise one of exc"""
        try:
            fn()
        except exc:
            return True
        except (Inconclusive, PathDone):
            raise
        self.fail(label, "no exception raised")


class Ctx(Base):
    mode = "sym"

    def __init__(self, prefix, stats, timeout_ms=QUERY_TIMEOUT_MS):
        self.prefix, self.stats, self.timeout = prefix, stats, timeout_ms
        self.trace = []           # decisions taken
        self.pending = []         # alternative prefixes
        self.pc = []
        self._freememo, self.hard = {}, False
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.vars = {}            # name -> (z3 const, kind, lo, hi)
        self.memo, self.angles, self.opaque = {}, [], set()
        self.squares = {}         # square-root variable -> its argument
        self.n = 0
        self.ival = Ival()
        self.reached = set()
        self.incomplete = []
        self.checked = 0

    # -- variables
    def fresh_name(self, base):
        self.n += 1
        return f"_{base}!{self.n}"

    def real(self, name, lo=-4, hi=4, nonzero=False):
        assert name not in self.vars, name
        v = z3.Real(name)
        self.vars[name] = (v, "real", lo, hi)
        self.ival.bounds[name] = (-INF if lo is None else float(lo), INF if hi is None else float(hi))
        cs = []
        if lo is not None:
            cs.append(v >= rv(lo))
        if hi is not None:
            cs.append(v <= rv(hi))
        if nonzero:
            cs.append(v != 0)
        self.axiom(z3.And(*cs) if cs else z3.BoolVal(True))
        return S(v)

    def reals(self, name, shape, lo=-4, hi=4, nonzero=False):
        from . import snp
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self.real(f"{name}[{','.join(map(str, i))}]", lo, hi, nonzero)
        return out.view(snp.SArr)

    def flag(self, name):
        v = z3.Bool(name)
        self.vars[name] = (v, "bool", None, None)
        return self.decide(v)

    def choose(self, name, n):
        """an arbitrary integer 0..n-1 (forks)"""
        v = z3.Int(name)
        self.vars[name] = (v, "int", 0, n - 1)
        self.axiom(z3.And(v >= 0, v < n))
        for k in range(n - 1):
            if self.decide(v == k):
                return k
        return n - 1

    def maybe_nan(self, name, value):
        return np.float64(math.nan) if self.flag(name) else value

    # -- constraints
    def axiom(self, f):
        self.pc.append(f)
        self.solver.add(f)

    def assume(self, cond):
        if isinstance(cond, B):
            self.axiom(cond.f)
            if self.sat() == z3.unsat:
                raise PathDone("assumption")
        elif not cond:
            raise PathDone("assumption")

    def sat(self, *extra):
        t = time.time()
        r = _ask(self.solver, self.timeout, *extra)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        return r

    def decide(self, f):
        known = self.ival.truth(f)
        if known is not None:
            self.stats["by_interval"] += 1
            return known
        f = z3.simplify(f)
        if not (z3.is_true(f) or z3.is_false(f)) and poly.has_div(f):
            f = z3.simplify(poly.unquotient(f, self.squares))
            known = self.ival.truth(f)
            if known is not None:
                self.stats["by_interval"] += 1
                return known
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.axiom(f if d else z3.Not(f))
            return d
        local = self._local(f)
        if local is not None:
            self.stats["by_range"] = self.stats.get("by_range", 0) + 1
            self.trace.append(local)
            self.axiom(f if local else z3.Not(f))
            return local
        self.solver.set("timeout", 1000)
        can_t = self.sat(f)
        can_f = self.sat(z3.Not(f)) if can_t != z3.unknown else z3.unknown
        if can_t == z3.unknown or can_f == z3.unknown:
            self.hard = True
            r = self._sliced([f, z3.Not(f)])
            if r is not None and r[-1] == z3.unsat:
                can_t, can_f = (z3.unsat, z3.sat) if len(r) == 1 else (z3.sat, z3.unsat)
            elif r is not None and r[0] == r[-1] == z3.sat:
                can_t = can_f = z3.sat
            else:
                self.solver.set("timeout", 5000)
                can_t, can_f = self.sat(f), self.sat(z3.Not(f))
        self.solver.set("timeout", self.timeout)
        if can_t == z3.unknown or can_f == z3.unknown:
            self.stats["feas_unknown"] += 1
        if can_t == z3.unsat and can_f == z3.unsat:
            raise PathDone("infeasible")
        if can_t == z3.unsat:
            d = False
        elif can_f == z3.unsat:
            d = True
        else:
            d = True
            self.pending.append(self.trace + [False])
            self.stats["forks"] += 1
        self.trace.append(d)
        self.axiom(f if d else z3.Not(f))
        return d

    # -- slices: only the part of the path condition that shares variables with the query
    def _free(self, f):
        r = self._freememo.get(f.get_id())
        if r is None:
            names, todo, seen = set(), [f], set()
            while todo:
                x = todo.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    names.add(x.decl().name() if not x.num_args() else i)
                todo += x.children()
            r = (f, names)
            self._freememo[f.get_id()] = r
        return r[1]

    def _slice(self, f):
        """path conditions connected to f, or None if that is all of them"""
        todo = [(p, self._free(p)) for p in self.pc]
        n, names, take = len(todo), set(self._free(f)), []
        while True:
            rest = []
            for p, v in todo:
                if v & names or not v:
                    names |= v
                    take.append(p)
                else:
                    rest.append((p, v))
            if len(rest) == len(todo):
                break
            todo = rest
        return take if len(take) < n else None

    def _sliced(self, fs, ms=3000):
        part = self._slice(z3.And(*fs) if len(fs) > 1 else fs[0])
        if part is None:
            return None
        out = []
        for f in fs:
            s = z3.Solver()
            s.set("timeout", ms)
            s.add(*part)
            s.add(f)
            t = time.time()
            r = _ask(s, ms)
            self.stats["queries"] += 1
            self.stats["solver_s"] += time.time() - t
            out.append(r)
            if r == z3.unsat:
                break
        return out

    def _local(self, f):
        """truth of f for all values in the declared ranges of its (few) variables, if it has one"""
        names, todo, seen, nonlin = {}, [f], set(), False
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            k = x.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED:
                if x.num_args():
                    return None
                if x.sort() != z3.RealSort():
                    return None
                names[x.decl().name()] = x
                if len(names) > 4:
                    return None
            if k == z3.Z3_OP_DIV or k == z3.Z3_OP_POWER or k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) for c in x.children()) > 1:
                nonlin = True
            todo += x.children()
        for g, v in ((z3.Not(f), True), (f, False)):
            s = z3.Solver()
            s.set("timeout", 1000)
            for n, x in names.items():
                lo, hi = self.ival.bounds.get(n, (-INF, INF))
                if lo > -INF:
                    s.add(x >= rv(lo))
                if hi < INF:
                    s.add(x <= rv(hi))
            s.add(g)
            t = time.time()
            r = _ask(s, 1000)
            self.stats["queries"] += 1
            self.stats["solver_s"] += time.time() - t
            if r == z3.unsat:
                return v
            if r == z3.sat and v is False:
                break
        return None

    def concretise_int(self, t):
        """fork over the feasible integer values of t (bounded by the declared ranges)"""
        for _ in range(64):
            if self.sat() != z3.sat:
                raise PathDone("infeasible")
            k = self.solver.model().eval(t, model_completion=True).as_long()
            if self.decide(t == k):
                return k
        raise Inconclusive("too many integer values")

    def concretise(self, t, why):
        """last resort at a C boundary: pin the value; recorded as incompleteness"""
        if self.sat() != z3.sat:
            raise PathDone("infeasible")
        m = self.solver.model().eval(t, model_completion=True)
        import traceback
        why += " at " + " < ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in reversed(traceback.extract_stack()[-9:-2]))
        cand = [0.5, 1.0, 0.0, -1.0, 2.0]
        if z3.is_rational_value(m):
            cand.insert(0, float(Fraction(m.numerator_as_long(), m.denominator_as_long())))
        for c in cand:
            if self.sat(t == rv(c)) == z3.sat:
                self.axiom(t == rv(c))
                self.incomplete.append(why)
                return c
        self.incomplete.append(why + " (path abandoned)")
        raise PathDone("cannot concretise")

    # -- obligations
    def reach(self, label):
        """reachability witness"""
        self.reached.add(label)

    def _prove(self, bad, label, detail=""):
        """bad: z3 formula whose satisfiability under the path condition is a violation"""
        self.checked += 1
        self.stats["obligations"] += 1
        self.reached.add(label)
        if not z3.is_false(bad) and self.ival.truth(bad) is False:
            bad = z3.BoolVal(False)
            self.stats["by_interval"] += 1
        bad = z3.simplify(bad, som=True) if not z3.is_false(bad) else bad
        if z3.is_false(bad):
            self.stats["discharged"] += 1
            self.stats["by_simplifier"] += 1
            return
        r = None
        if self.hard:
            r = self._sliced([bad])
            r = z3.unsat if r and r[0] == z3.unsat else None
        if r is None:
            r = self._query(bad)
        if r == z3.unsat:
            self.stats["discharged"] += 1
            return
        if r == z3.unknown:
            self.stats["unknown"] += 1
            self.incomplete.append(f"solver unknown: {label}")
            return
        self.bad = bad
        raise Violation(label, detail)

    def _query(self, bad):
        self.answered = self.solver
        r = self.sat(bad)
        if r == z3.unknown:
            t = time.time()
            for tac in ("qfnra-nlsat", "smt"):
                try:
                    s = z3.TryFor(z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", tac),
                                  self.timeout).solver()
                    s.add(*self.pc)
                    s.add(bad)
                    self.answered = s
                    r = _ask(s, self.timeout)
                except z3.Z3Exception:
                    r = z3.unknown
                self.stats["queries"] += 1
                if r != z3.unknown:
                    break
            self.stats["solver_s"] += time.time() - t
        return r

    def check(self, cond, label, detail=""):
        if isinstance(cond, np.ndarray):
            cond = cond.ravel().tolist()
        if isinstance(cond, (list, tuple)):
            for c in cond:
                self.check(c, label, detail)
            return
        if isinstance(cond, B):
            self._prove(z3.Not(cond.f), label, detail)
        else:
            self._prove(z3.BoolVal(not bool(cond)), label, detail)

    def eq(self, a, b, label, tol=1e-6):
        """a == b elementwise within tol (NaN matches NaN)"""
        from . import snp
        a, b = snp.plain(a), snp.plain(b)
        if a.shape != b.shape:
            return self._prove(z3.BoolVal(True), label, f"shapes {a.shape} != {b.shape}")
        bad = []
        tv = rv(tol)
        for i in np.ndindex(*a.shape):
            x, y = a[i], b[i]
            if isinstance(x, C) or isinstance(y, C):
                raise Inconclusive("complex result")
            sx, sy = isinstance(x, (S, B)), isinstance(y, (S, B))
            if not sx and not sy:
                try:
                    same = (isnan(x) and isnan(y)) or x == y or abs(x - y) <= tol
                except TypeError:
                    same = False
                if not same:
                    return self._prove(z3.BoolVal(True), label, f"at {i}: {x!r} != {y!r}")
                continue
            if (not sx and (isnan(x) or isinf(x) or not is_num(x))) or (not sy and (isnan(y) or isinf(y) or not is_num(y))):
                return self._prove(z3.BoolVal(True), label, f"at {i}: {x!r} != {y!r}")
            d = term(x) - term(y)
            d = z3.simplify(d, som=True)
            if z3.is_rational_value(d) and d.numerator_as_long() == 0:
                continue
            if poly.has_quotient(d) and poly.is_zero(d, self.squares):
                self.stats["by_normal_form"] += 1
                continue
            bad.append(z3.Or(d > tv, d < -tv))
        self._prove(z3.Or(*bad) if len(bad) > 1 else (bad[0] if bad else z3.BoolVal(False)), label, "values differ")

    # -- models
    def _val(self, m, v, kind):
        x = m.eval(v, model_completion=True)
        if kind == "bool":
            return bool(z3.is_true(x))
        if kind == "int":
            return x.as_long()
        if z3.is_algebraic_value(x):
            x = x.approx(30)
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))

    def models(self, bad, rng, n, budget_s=20.0):
        """up to n assignments satisfying the path condition and `bad`, preferring generic values"""
        out = []
        try:
            self._models(out, bad, rng, n, budget_s)
        except z3.Z3Exception:  # the solver was interrupted between an answer and its model
            pass
        return out

    def _models(self, out, bad, rng, n, budget_s):
        t0 = time.time()
        base = z3.Solver()
        base.set("timeout", 4000)
        base.add(*self.pc)
        base.add(bad)
        if _ask(base, 4000) == z3.sat:
            m = base.model()
            out.append({k: self._val(m, v, kd) for k, (v, kd, lo, hi) in self.vars.items()})
        elif (r := self._query(bad)) == z3.sat:
            m = self.answered.model()
            out.append({k: self._val(m, v, kd) for k, (v, kd, lo, hi) in self.vars.items()})
        names = [k for k, v in self.vars.items() if v[1] == "real"]
        while len(out) < n and time.time() - t0 < budget_s:
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(*self.pc)
            s.add(bad)
            order = list(names)
            rng.shuffle(order)
            m = None
            hints = {}
            for k in order:
                v, _, lo, hi = self.vars[k]
                lo = -4 if lo is None else lo
                hi = 4 if hi is None else hi
                for _ in range(3):
                    x = Fraction(rng.randrange(1, 64), 64)
                    hints.setdefault(k, []).append(frac(lo) + (frac(hi) - frac(lo)) * x)
            # all at once first, then greedily
            s.push()
            for k in order:
                s.add(self.vars[k][0] == rv_f(hints[k][0]))
            if _ask(s, 1500) == z3.sat:
                m = s.model()
                s.pop()
            else:
                s.pop()
                hard = 0
                for k in order:
                    if time.time() - t0 > budget_s or hard >= 3:
                        break
                    for h in hints[k][:2]:
                        s.push()
                        s.add(self.vars[k][0] == rv_f(h))
                        r = _ask(s, 1500)
                        if r == z3.sat:
                            m = s.model()
                            break
                        s.pop()
                        hard += r == z3.unknown
                if m is None and _ask(s, 1500) == z3.sat:
                    m = s.model()
            if m is None:
                break
            out.append({k: self._val(m, v, kd) for k, (v, kd, lo, hi) in self.vars.items()})


def rv_f(f):
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


class Rejected(BaseException):
    """the concrete assignment violates an assumption"""


class Replay(Base):
    """Concrete twin of Ctx: the same harness on the real code with real numpy and the solver's values."""
    mode = "conc"

    def __init__(self, values):
        self.values = values
        self.failures = []
        self.reached = set()
        self.used = set()

    def _get(self, name, default):
        self.used.add(name)
        return self.values.get(name, default)

    def real(self, name, lo=-4, hi=4, nonzero=False):
        d = 0.0
        if (lo is not None and lo > 0) or (hi is not None and hi < 0) or nonzero:
            d = (float(lo if lo is not None else hi) + float(hi if hi is not None else lo)) / 2 or 1.0
        return float(self._get(name, d))

    def reals(self, name, shape, lo=-4, hi=4, nonzero=False):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape)
        for i in np.ndindex(*shape):
            out[i] = self.real(f"{name}[{','.join(map(str, i))}]", lo, hi, nonzero)
        return out

    def flag(self, name): return bool(self._get(name, False))
    def choose(self, name, n): return int(self._get(name, 0))
    def maybe_nan(self, name, value): return np.float64(math.nan) if self.flag(name) else value

    def assume(self, cond):
        if not cond:
            raise Rejected()

    def reach(self, label):
        self.reached.add(label)

    def check(self, cond, label, detail=""):
        if isinstance(cond, (list, tuple, np.ndarray)):
            cond = bool(np.all(cond))
        self.reached.add(label)
        if not cond:
            self.failures.append((label, str(detail)))

    def eq(self, a, b, label, tol=1e-6):
        self.reached.add(label)
        try:
            a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (TypeError, ValueError) as e:
            self.failures.append((label, f"not comparable: {e}"))
            return
        if a.shape != b.shape:
            self.failures.append((label, f"shapes {a.shape} != {b.shape}"))
            return
        tol = min(tol, 1e-6) * 0.3
        with np.errstate(all="ignore"):
            ok = (np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(a - b) <= tol * (1 + np.minimum(np.abs(b), 1e3)) + 1e-10 * np.abs(b))
        if not np.all(ok):
            i = tuple(int(k[0]) for k in np.nonzero(~np.atleast_1d(ok)))
            self.failures.append((label, f"at {i}: got {np.atleast_1d(a)[i]!r}, expected {np.atleast_1d(b)[i]!r}"))
