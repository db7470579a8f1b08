"""Symbolic-capable numpy: an object-dtype ndarray subclass (`SArr`) plus a module shim handed to the code under test.

Every floating-point array the code creates through the shim is an `SArr` holding numpy floats and/or symbolic `S`
values; ufuncs and numpy functions applied to it are dispatched here.  Integer, boolean and string arrays stay
ordinary numpy arrays.
"""
import functools
import itertools
import math
import types

import numpy as np

from . import engine as E
from .engine import S, B, C

_OBJ = np.dtype(object)


class SArr(np.ndarray):
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return do_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        return do_function(func, types_, args, kwargs)

    def astype(self, dtype, *a, **k):
        if dtype is float or (not isinstance(dtype, type(object)) and np.dtype(dtype).kind == "f") or \
                (isinstance(dtype, type) and issubclass(dtype, (float, np.floating))):
            return self.copy()
        dt = np.dtype(dtype)
        if dt == _OBJ:
            return self.copy()
        if dt.kind == "c":
            return self.copy()
        out = np.empty(self.shape, dtype=dt)
        for i in np.ndindex(*self.shape):
            x = plain(self)[i]
            out[i] = bool(x) if dt.kind == "b" else (int(x) if dt.kind in "iu" else x)
        return out

    def sum(self, *a, **k): return shim_np.sum(self, *a, **k)
    def mean(self, *a, **k): return shim_np.mean(self, *a, **k)
    def std(self, *a, **k): return shim_np.std(self, *a, **k)
    def var(self, *a, **k): return shim_np.var(self, *a, **k)
    def max(self, *a, **k): return shim_np.max(self, *a, **k)
    def min(self, *a, **k): return shim_np.min(self, *a, **k)
    def dot(self, o, **k): return shim_np.dot(self, o)
    def round(self, decimals=0, out=None): return shim_np.round(self, decimals)
    def argmax(self, *a, **k): return shim_np.argmax(self, *a, **k)
    def argmin(self, *a, **k): return shim_np.argmin(self, *a, **k)
    def clip(self, *a, **k): return shim_np.clip(self, *a, **k)
    def any(self, *a, **k): return np.any(_tobool(self), *a, **k)
    def all(self, *a, **k): return np.all(_tobool(self), *a, **k)
    def conj(self): return shim_np.conj(self)
    def nonzero(self): return np.nonzero(_tobool(self))

    def __setitem__(self, k, v):
        # numpy float arrays take the value of a one-element array for one element, object arrays would hold the array
        if isinstance(v, np.ndarray) and v.size == 1 and self.dtype == object:
            ks = k if isinstance(k, tuple) else (k,)
            if len(ks) == self.ndim and all(isinstance(i, (int, np.integer)) and not isinstance(i, (bool, np.bool_)) for i in ks):
                v = v.reshape(-1)[0]
        super().__setitem__(k, v)

    def __reduce__(self):
        raise TypeError("symbolic array cannot be pickled")

    def __deepcopy__(self, memo):
        return self.copy()

    def __repr__(self):
        return "SArr" + repr(self.view(np.ndarray).tolist())

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def plain(x):
    """object-dtype base ndarray of anything array-like"""
    if isinstance(x, SMasked):
        x = x.filled(np.nan)
    if isinstance(x, np.ndarray):
        if x.dtype == _OBJ:
            return x.view(np.ndarray) if type(x) is not np.ndarray else x
        return _objectify(x)
    if isinstance(x, (S, B, C)) or E.is_num(x) or x is None or isinstance(x, (complex, str)):
        a = np.empty((), dtype=object)
        a[()] = np.float64(x) if isinstance(x, float) else x
        return a
    a = _fromseq(x)
    return a if a.dtype == _OBJ else _objectify(a)


def _objectify(x):
    a = np.empty(x.shape, dtype=object)
    fl = x.reshape(-1)
    a.reshape(-1)[...] = [v for v in fl] if a.size else []
    return a


def _has_sym(x):
    if isinstance(x, (S, B, C)):
        return True
    if isinstance(x, SArr):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == _OBJ and any(isinstance(v, (S, B, C)) for v in x.flat)
    if isinstance(x, SMasked):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(v) for v in x)
    return False


def _truly_sym(x):
    if isinstance(x, (S, B, C)):
        return True
    if isinstance(x, SMasked):
        return _truly_sym(x.data)
    if isinstance(x, np.ndarray):
        return x.dtype == _OBJ and any(isinstance(v, (S, B, C)) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(_truly_sym(v) for v in x)
    if isinstance(x, dict):
        return any(_truly_sym(v) for v in x.values())
    return False


def _shape_of_nested(x):
    if isinstance(x, (np.ndarray, SMasked)):
        return tuple(x.shape)
    if isinstance(x, (list, tuple, range)):
        if not len(x):
            return (0,)
        s = [_shape_of_nested(v) for v in x]
        if any(t != s[0] for t in s):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(x),) + s[0]
    return ()


def _fromseq(x):
    """np.array() of a nested sequence possibly containing symbolic scalars / arrays"""
    if not _has_sym(x):
        return np.array(x)
    shape = _shape_of_nested(x)
    a = np.empty(shape, dtype=object)

    def fill(v, idx):
        if len(idx) == len(shape):
            if isinstance(v, np.ndarray):
                v = v[()]
            a[idx] = np.float64(v) if isinstance(v, float) else v
            return
        for k in range(shape[len(idx)]):
            fill(v[k], idx + (k,))
    fill(x, ())
    return a


def mkarr(x, copy=True):
    """float-like input -> SArr"""
    a = plain(x)
    if copy or not isinstance(x, SArr):
        a = np.array(a, dtype=object, copy=True)
    return a.view(SArr)


def wrap(r):
    """result conversion: object/float arrays -> SArr, others untouched"""
    if isinstance(r, tuple):
        return tuple(wrap(v) for v in r)
    if isinstance(r, list):
        return [wrap(v) for v in r]
    if isinstance(r, SArr):
        return r
    if isinstance(r, np.ma.MaskedArray):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == _OBJ:
            return r.view(SArr) if r.ndim else r[()]
        if r.dtype.kind == "f":
            return _objectify(r).view(SArr) if r.ndim else r[()]
    return r


def _tobool(x):
    a = plain(x)
    out = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(*a.shape):
        out[i] = bool(a[i])
    return out


# ------------------------------------------------------------------------------------------------- ufuncs

def _u1(f):
    return np.frompyfunc(f, 1, 1)


def _u2(f):
    return np.frompyfunc(f, 2, 1)


def _np1(npf):
    def g(x):
        if isinstance(x, (S, B, C)):
            E.CUR.incomplete.append(f"{npf.__name__} pinned")
            x = float(x) if not isinstance(x, C) else complex(float(x.re), float(x.im))
        with np.errstate(all="ignore"):
            return npf(np.float64(x))
    return g


def _isnan(x):
    if isinstance(x, C):
        return E.isnan(x.re) or E.isnan(x.im)
    return (not isinstance(x, (S, B))) and bool(np.isnan(x))


def _isfinite(x): return isinstance(x, (S, B)) or bool(np.isfinite(x))
def _isinf(x): return (not isinstance(x, (S, B))) and bool(np.isinf(x))


def _conjx(x): return x.conjugate() if isinstance(x, C) else x


def _sq(x):
    return E.s_mul(x, x) if not isinstance(x, C) else x * x


def _arctan2(a, b):
    if not E._sym(a) and not E._sym(b):
        return np.arctan2(a, b)
    return E.s_opaque("atan2", a, b)


def _cmpb(op):
    def f(a, b):
        r = E.s_cmp(op, a, b) if not isinstance(a, (str, type(None))) else (a == b if op == "==" else a != b)
        return bool(r)
    return f


def _hyp(a, b):
    return E.s_sqrt(E.s_add(E.s_mul(a, a), E.s_mul(b, b)))


def _copysign(a, b):
    if not E._sym(a) and not E._sym(b):
        return np.copysign(a, b)
    m = E.s_abs(a)
    return m if bool(E.s_cmp(">=", b, 0)) else E.s_sub(0.0, m)


def _heav(a, b):
    s = E.sign_of(a)
    return np.float64(1.0) if s > 0 else (np.float64(0.0) if s < 0 else b)


_ARITH = {
    np.add: _u2(E.s_add), np.subtract: _u2(E.s_sub), np.multiply: _u2(E.s_mul),
    np.true_divide: _u2(E.s_div), np.floor_divide: _u2(E.s_floordiv), np.remainder: _u2(E.s_mod),
    np.fmod: _u2(E.s_fmod),
    np.power: _u2(E.s_pow), np.float_power: _u2(E.s_pow),
    np.negative: _u1(lambda x: E.s_sub(0.0, x)), np.positive: _u1(lambda x: x),
    np.absolute: _u1(E.s_abs), np.fabs: _u1(E.s_abs), np.sign: _u1(E.s_sign),
    np.sqrt: _u1(E.s_sqrt), np.square: _u1(_sq), np.reciprocal: _u1(lambda x: E.s_div(1.0, x)),
    np.cos: _u1(E.s_cos), np.sin: _u1(E.s_sin), np.tan: _u1(E.s_tan), np.exp: _u1(E.s_exp),
    np.maximum: _u2(E.s_max), np.minimum: _u2(E.s_min),
    np.fmax: _u2(functools.partial(E.s_max, nanprop=False)), np.fmin: _u2(functools.partial(E.s_min, nanprop=False)),
    np.floor: _u1(E.s_floor), np.ceil: _u1(E.s_ceil), np.trunc: _u1(E.s_trunc), np.rint: _u1(E.s_round),
    np.conjugate: _u1(_conjx), np.arctan2: _u2(_arctan2), np.hypot: _u2(_hyp),
    np.deg2rad: _u1(lambda x: E.s_mul(x, np.pi / 180)), np.rad2deg: _u1(lambda x: E.s_mul(x, 180 / np.pi)),
    np.copysign: _u2(_copysign), np.heaviside: _u2(_heav),
}
_REDUCE0 = {np.add: np.float64(0.0), np.multiply: np.float64(1.0)}
_PRED = {
    np.isnan: _u1(_isnan), np.isfinite: _u1(_isfinite), np.isinf: _u1(_isinf),
    np.less: _u2(_cmpb("<")), np.less_equal: _u2(_cmpb("<=")), np.greater: _u2(_cmpb(">")),
    np.greater_equal: _u2(_cmpb(">=")), np.equal: _u2(_cmpb("==")), np.not_equal: _u2(_cmpb("!=")),
    np.logical_not: _u1(lambda x: not bool(x)),
    np.logical_and: _u2(lambda a, b: bool(a) and bool(b)), np.logical_or: _u2(lambda a, b: bool(a) or bool(b)),
    np.logical_xor: _u2(lambda a, b: bool(a) != bool(b)),
    np.signbit: _u1(lambda x: bool(E.s_cmp("<", x, 0))),
}
_BITS = {np.bitwise_and, np.bitwise_or, np.bitwise_xor, np.invert}


def do_ufunc(ufunc, method, inputs, kwargs):
    if any(isinstance(x, SMasked) for x in inputs):
        return _masked_ufunc(ufunc, method, inputs, kwargs)
    kwargs = dict(kwargs)
    out = kwargs.pop("out", None)
    kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    where = kwargs.pop("where", True)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    if ufunc in _BITS:   # on B / bool mixtures
        ins = [_tobool(x) if _has_sym(x) else x for x in inputs]
        r = getattr(ufunc, method)(*ins, **kwargs)
    elif ufunc in (np.matmul, np.vecdot if hasattr(np, "vecdot") else np.matmul):
        r = _matmul(inputs[0], inputs[1])
    elif method == "at":
        return _ufunc_at(ufunc, inputs)
    elif ufunc in _PRED:
        f = _PRED[ufunc]
        if method == "reduce":
            base = _tobool(inputs[0])
            r = ufunc.reduce(base, **kwargs)
        else:
            r = getattr(f, method)(*[plain(x) for x in inputs], **kwargs)
            r = r.astype(bool) if isinstance(r, np.ndarray) else bool(r)
    elif ufunc in (np.modf, np.divmod):
        if ufunc is np.divmod:
            r = (do_ufunc(np.floor_divide, method, inputs, {}), do_ufunc(np.remainder, method, inputs, {}))
        else:
            ip = do_ufunc(np.trunc, method, inputs, {})
            r = (do_ufunc(np.subtract, method, (inputs[0], ip), {}), ip)
        return r
    else:
        f = _ARITH.get(ufunc)
        if f is None and ufunc.__name__.endswith("(vectorized)"):
            f = ufunc
        if f is None:
            if ufunc.nin == 1:
                f = _u1(_np1(ufunc))
            else:
                raise E.Inconclusive(f"unsupported ufunc {ufunc.__name__}")
        ins = [plain(x) if i < 2 or method == "__call__" else x for i, x in enumerate(inputs)]
        if method == "reduce":
            r = _reduce(ufunc, f, ins[0], where=where, **kwargs)
            where = True
        elif method == "outer":
            r = f.outer(*ins)
        elif method == "accumulate":
            r = f.accumulate(ins[0], **kwargs)
        else:
            r = getattr(f, method)(*ins, **kwargs)
    if method == "__call__" and where is not True:
        w = np.broadcast_to(np.asarray(where, dtype=bool), np.shape(r))
        base = plain(out).copy() if out is not None else np.full(np.shape(r), np.nan, dtype=object)
        base = np.broadcast_to(base, np.shape(r)).copy()
        base[w] = np.broadcast_to(plain(r), np.shape(r))[w]
        r = base
    if out is not None:
        if isinstance(out, np.ndarray) and out.dtype != _OBJ and out.dtype.kind in "iub" and ufunc not in _PRED and ufunc not in _BITS:
            # numpy's same_kind rule: float results may not be written into integer arrays
            raise TypeError(f"Cannot cast ufunc '{ufunc.__name__}' output from dtype('float64') to {out.dtype!r} with casting rule 'same_kind'")
        if isinstance(out, np.ndarray):
            if out.dtype == _OBJ:
                out.view(np.ndarray)[...] = plain(r)
            else:
                out[...] = r
            return out
    if isinstance(r, np.ndarray):
        return (r.view(SArr) if r.dtype == _OBJ else r) if r.ndim else r[()]
    return r


def _ufunc_at(ufunc, inputs):
    a, idx = inputs[0], inputs[1]
    f = _ARITH[ufunc]
    tgt = a.view(np.ndarray)
    pos = np.arange(tgt.size).reshape(tgt.shape)[idx].ravel()
    flat = tgt.reshape(-1)
    vals = np.broadcast_to(plain(inputs[2]), pos.shape).ravel() if len(inputs) > 2 else [None] * len(pos)
    for p, v in zip(pos, vals):
        flat[p] = f(flat[p], v) if v is not None else f(flat[p])


def _reduce(ufunc, f, a, axis=0, keepdims=False, initial=None, where=True, **_):
    if a.ndim == 0:
        return a[()]
    if axis is None:
        axes = tuple(range(a.ndim))
    else:
        axes = tuple(ax % a.ndim for ax in (axis if isinstance(axis, tuple) else (axis,)))
    rest = [ax for ax in range(a.ndim) if ax not in axes]
    b = np.transpose(a, rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1])
    if where is not True:
        w = np.transpose(np.broadcast_to(where, a.shape), rest + list(axes)).reshape(b.shape)
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        items = [x for k, x in enumerate(b[i]) if where is True or w[i][k]]
        if initial is not None and not isinstance(initial, type(np._NoValue)):
            items = [initial] + items
        if not items:
            if ufunc in _REDUCE0:
                out[i] = _REDUCE0[ufunc]
                continue
            raise ValueError(f"zero-size array to reduction operation {ufunc.__name__} which has no identity")
        out[i] = functools.reduce(lambda x, y: f(x, y), items)
        if isinstance(out[i], (float, int)) and not isinstance(out[i], bool):
            out[i] = np.float64(out[i]) if isinstance(out[i], float) else out[i]
    if keepdims:
        return out.reshape([1 if k in axes else a.shape[k] for k in range(a.ndim)])
    return out if out.ndim else out[()]


def _dot1(x, y):
    acc = np.float64(0.0)
    for p, q in zip(x, y):
        acc = E.s_add(acc, E.s_mul(p, q))
    return acc


def _matmul(a, b):
    a, b = plain(a), plain(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    a2 = a[np.newaxis, :] if a.ndim == 1 else a
    b2 = b[:, np.newaxis] if b.ndim == 1 else b
    if a2.shape[-1] != b2.shape[-2]:
        raise ValueError(f"matmul: Input operand 1 has a mismatch in its core dimension 0 (size {b2.shape[-2]} is different from {a2.shape[-1]})")
    lead = np.broadcast_shapes(a2.shape[:-2], b2.shape[:-2])
    A = np.broadcast_to(a2, lead + a2.shape[-2:])
    Bm = np.broadcast_to(b2, lead + b2.shape[-2:])
    out = np.empty(lead + (a2.shape[-2], b2.shape[-1]), dtype=object)
    for l in np.ndindex(*lead):
        for i in range(a2.shape[-2]):
            for j in range(b2.shape[-1]):
                out[l + (i, j)] = _dot1(A[l][i, :], Bm[l][:, j])
    if a.ndim == 1:
        out = out[..., 0, :]
    if b.ndim == 1:
        out = out[..., 0]
    return out if isinstance(out, np.ndarray) and out.ndim else (out[()] if isinstance(out, np.ndarray) else out)


# ---------------------------------------------------------------------------------------- numpy functions

def h_dot(a, b, out=None):
    a_, b_ = plain(a), plain(b)
    if a_.ndim == 0 or b_.ndim == 0:
        return do_ufunc(np.multiply, "__call__", (a_, b_), {})
    if a_.ndim <= 2 and b_.ndim <= 2:
        if a_.shape[-1] != (b_.shape[0] if b_.ndim == 1 else b_.shape[-2]):
            raise ValueError(f"shapes {a_.shape} and {b_.shape} not aligned")
        return wrap(_matmul(a_, b_))
    return wrap(h_tensordot(a_, b_, ((a_.ndim - 1,), (max(b_.ndim - 2, 0),))))


def h_tensordot(a, b, axes=2):
    a, b = plain(a), plain(b)
    if isinstance(axes, int):
        axes = (list(range(a.ndim - axes, a.ndim)), list(range(axes)))
    aa, bb = [list(x) if isinstance(x, (list, tuple)) else [x] for x in axes]
    fa = [i for i in range(a.ndim) if i not in aa]
    fb = [i for i in range(b.ndim) if i not in bb]
    A = a.transpose(fa + aa).reshape(int(np.prod([a.shape[i] for i in fa])), -1)
    Bm = b.transpose(bb + fb).reshape(A.shape[1], -1)
    return wrap(np.asarray(_matmul(A, Bm), dtype=object).reshape([a.shape[i] for i in fa] + [b.shape[i] for i in fb]))


def h_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if isinstance(a, SMasked):
        return a.sum(axis=axis)
    if isinstance(keepdims, type(np._NoValue)):
        keepdims = False
    p = plain(a)
    if p.size and all(isinstance(x, (bool, np.bool_)) for x in p.flat):
        return np.sum(p.astype(bool), axis=axis)
    return wrap(_reduce(np.add, _ARITH[np.add], p, axis=axis, keepdims=keepdims, where=where))


def h_prod(a, axis=None, **k):
    return wrap(_reduce(np.multiply, _ARITH[np.multiply], plain(a), axis=axis))


def _count(a, axis):
    a = plain(a)
    if axis is None:
        return a.size
    axes = axis if isinstance(axis, tuple) else (axis,)
    return int(np.prod([a.shape[x] for x in axes]))


def h_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    if isinstance(a, SMasked):
        return a.mean(axis=axis)
    if isinstance(keepdims, type(np._NoValue)):
        keepdims = False
    n = _count(a, axis)
    return wrap(do_ufunc(np.true_divide, "__call__", (h_sum(a, axis, keepdims=keepdims), n), {}))


def h_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, mean=None, correction=None):
    if not isinstance(keepdims, bool):
        keepdims = False
    n = _count(a, axis)
    m = h_mean(a, axis, keepdims=True) if axis is not None else h_mean(a)
    d = do_ufunc(np.subtract, "__call__", (plain(a), m), {})
    v = do_ufunc(np.true_divide, "__call__", (h_sum(do_ufunc(np.square, "__call__", (d,), {}), axis, keepdims=keepdims), n - ddof), {})
    if isinstance(v, np.ndarray):
        o = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            o[i] = _constant(plain(v)[i])
        return wrap(o)
    return _constant(v)


def _constant(x):
    """a spread that does not depend on the unknowns is a plain number"""
    if isinstance(x, E.S):
        t = E.z3.simplify(x.t, som=True)
        if E.z3.is_rational_value(t):
            return np.float64(t.numerator_as_long() / t.denominator_as_long())
    return x


def h_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return do_ufunc(np.sqrt, "__call__", (h_var(a, axis, ddof=ddof, keepdims=keepdims),), {})


def _nanmask(a):
    p = plain(a)
    m = np.empty(p.shape, dtype=bool)
    for i in np.ndindex(*p.shape):
        m[i] = _isnan(p[i])
    return m


def _nanreduce(a, axis, fn, empty):
    p = plain(a)
    if axis is None:
        axes = tuple(range(p.ndim))
    else:
        axes = tuple(x % p.ndim for x in (axis if isinstance(axis, tuple) else (axis,)))
    rest = [i for i in range(p.ndim) if i not in axes]
    b = p.transpose(rest + list(axes)).reshape([p.shape[i] for i in rest] + [-1])
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        items = [x for x in b[i] if not _isnan(x)]
        out[i] = fn(items) if items else empty
    return wrap(out) if out.ndim else out[()]


def _kd(a, axis, keepdims, r):
    if keepdims is True:
        p = plain(a)
        axes = tuple(range(p.ndim)) if axis is None else tuple(x % p.ndim for x in (axis if isinstance(axis, tuple) else (axis,)))
        return plain(r).reshape([1 if k in axes else p.shape[k] for k in range(p.ndim)]).view(SArr)
    return r


def _lsum(xs): return functools.reduce(E.s_add, xs, np.float64(0.0))
def _lmean(xs): return E.s_div(_lsum(xs), len(xs))


def _lvar(xs, ddof=0):
    m = _lmean(xs)
    return E.s_div(_lsum([_sq(E.s_sub(x, m)) for x in xs]), len(xs) - ddof)


def h_nanmean(a, axis=None, dtype=None, out=None, keepdims=False, **k): return _kd(a, axis, keepdims, _nanreduce(a, axis, _lmean, np.float64(np.nan)))
def h_nansum(a, axis=None, dtype=None, out=None, keepdims=False, **k): return _kd(a, axis, keepdims, _nanreduce(a, axis, _lsum, np.float64(0.0)))
def h_nanvar(a, axis=None, ddof=0, **k): return _nanreduce(a, axis, lambda x: _lvar(x, ddof), np.float64(np.nan))
def h_nanstd(a, axis=None, ddof=0, **k): return _nanreduce(a, axis, lambda x: E.s_sqrt(_lvar(x, ddof)), np.float64(np.nan))
def h_nanmax(a, axis=None, keepdims=False, **k): return _kd(a, axis, keepdims, _nanreduce(a, axis, lambda x: functools.reduce(E.s_max, x), np.float64(np.nan)))
def h_nanmin(a, axis=None, keepdims=False, **k): return _kd(a, axis, keepdims, _nanreduce(a, axis, lambda x: functools.reduce(E.s_min, x), np.float64(np.nan)))


def _redmm(uf):
    def h(a, axis=None, out=None, keepdims=False, initial=None, where=True):
        p = plain(a)
        return wrap(_reduce(uf, _ARITH[uf], p, axis=axis, keepdims=keepdims is True))
    return h


def _median(xs):
    xs = _sortlist(xs)
    n = len(xs)
    return xs[n // 2] if n % 2 else E.s_div(E.s_add(xs[n // 2 - 1], xs[n // 2]), 2)


def _sortlist(xs, key=False):
    """stable sort, NaN last (forks on comparisons)"""
    idx = sorted(range(len(xs)), key=functools.cmp_to_key(
        lambda i, j: (0 if _isnan(xs[i]) and _isnan(xs[j]) else 1 if _isnan(xs[i]) else -1 if _isnan(xs[j])
                      else -1 if bool(E.s_cmp("<", xs[i], xs[j])) else 1 if bool(E.s_cmp("<", xs[j], xs[i])) else 0)))
    return idx if key else [xs[i] for i in idx]


def h_median(a, axis=None, **k):
    p = plain(a)
    if _nanmask(p).any():
        return _nanreduce(a, axis, lambda x: np.float64(np.nan), np.float64(np.nan))
    return _nanreduce(a, axis, _median, np.float64(np.nan))


def h_nanmedian(a, axis=None, **k): return _nanreduce(a, axis, _median, np.float64(np.nan))


def _along(a, axis, fn):
    p = plain(a)
    if axis is None:
        return fn(list(p.reshape(-1)))
    p2 = np.moveaxis(p, axis, -1)
    res = [fn(list(p2[i])) for i in np.ndindex(*p2.shape[:-1])]
    return res, p2.shape[:-1]


def h_sort(a, axis=-1, kind=None, order=None, **k):
    p = plain(a)
    if axis is None:
        p, axis = p.reshape(-1), -1
    res, lead = _along(p, axis, _sortlist)
    o = np.empty(lead + (p.shape[axis],), dtype=object)
    for i, r in zip(np.ndindex(*lead), res):
        o[i] = r
    return np.moveaxis(o, -1, axis).view(SArr)


def h_argsort(a, axis=-1, kind=None, order=None, **k):
    p = plain(a)
    if axis is None:
        p, axis = p.reshape(-1), -1
    res, lead = _along(p, axis, lambda x: _sortlist(x, True))
    o = np.empty(lead + (p.shape[axis],), dtype=int)
    for i, r in zip(np.ndindex(*lead), res):
        o[i] = r
    return np.moveaxis(o, -1, axis)


def _argm(op, skipnan=False):
    def pick(xs):
        best = None
        for i, x in enumerate(xs):
            if _isnan(x):
                if skipnan:
                    continue
                return i
            if best is None or bool(E.s_cmp(op, x, xs[best])):
                best = i
        if best is None:
            raise ValueError("All-NaN slice encountered" if skipnan else "attempt to get argmax of an empty sequence")
        return best

    def h(a, axis=None, out=None, keepdims=False):
        r = _along(a, axis, pick)
        if axis is None:
            return r
        return np.array(r[0], dtype=int).reshape(r[1])
    return h


def h_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, equal_nan=True, **k):
    xs = list(plain(a).reshape(-1))
    idx = _sortlist(xs, True)
    u, first, inv, cnt = [], [], [0] * len(xs), []
    for i in idx:
        if not u or not (bool(E.s_cmp("==", xs[i], u[-1])) or (_isnan(xs[i]) and _isnan(u[-1]))):
            u.append(xs[i]); first.append(i); cnt.append(0)
        inv[i] = len(u) - 1
        cnt[-1] += 1
        first[-1] = min(first[-1], i)
    out = [mkarr(u) if u else np.array([])]
    if return_index: out.append(np.array(first, dtype=int))
    if return_inverse: out.append(np.array(inv, dtype=int))
    if return_counts: out.append(np.array(cnt, dtype=int))
    return tuple(out) if len(out) > 1 else out[0]


def h_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise E.Inconclusive("np.interp(period=)")
    xa, xp, fp = plain(x), list(plain(xp).reshape(-1)), list(plain(fp).reshape(-1))
    n = len(xp)
    if n == 0 or n != len(fp):
        raise ValueError("fp and xp are not of the same length.")
    out = np.empty(xa.shape, dtype=object)
    for i in np.ndindex(*xa.shape):
        v = xa[i]
        if _isnan(v):
            out[i] = v
        elif bool(E.s_cmp(">", v, xp[-1])):
            out[i] = fp[-1] if right is None else right
        elif bool(E.s_cmp("<", v, xp[0])):
            out[i] = fp[0] if left is None else left
        else:
            j = 0
            while j < n - 1 and bool(E.s_cmp(">=", v, xp[j + 1])):
                j += 1
            if j == n - 1 or bool(E.s_cmp("==", xp[j], v)):
                out[i] = fp[j]
            else:
                sl = E.s_div(E.s_sub(fp[j + 1], fp[j]), E.s_sub(xp[j + 1], xp[j]))
                out[i] = E.s_add(E.s_mul(sl, E.s_sub(v, xp[j])), fp[j])
    return wrap(out) if out.ndim else out[()]


def _det(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    acc = np.float64(0.0)
    for j in range(n):
        if not isinstance(m[0, j], (S, B)) and m[0, j] == 0:
            continue
        sub = np.delete(m[1:], j, axis=1)
        t = E.s_mul(m[0, j], _det(sub))
        acc = E.s_add(acc, t) if j % 2 == 0 else E.s_sub(acc, t)
    return acc


def _blockinv(m):
    """exact inverse by Gauss-Jordan with structural pivoting: constants first, symbolic pivots fork on zero"""
    n = m.shape[0]
    a = np.concatenate([m.copy(), _objectify(np.eye(n))], axis=1)
    for c in range(n):
        piv = None
        for r in range(c, n):
            if not E._sym(a[r, c]) and a[r, c] != 0:
                piv = r
                break
        if piv is None:
            for r in range(c, n):
                if E._sym(a[r, c]):
                    a[r, c] = E.mk(E.z3.simplify(a[r, c].t, som=True))
                    if not E._sym(a[r, c]) and a[r, c] == 0:
                        continue
                    if bool(E.s_cmp("!=", a[r, c], 0)):
                        piv = r
                        break
                    a[r, c] = np.float64(0.0)
        if piv is None:
            raise np.linalg.LinAlgError("Singular matrix")
        if piv != c:
            a[[c, piv]] = a[[piv, c]]
        p = a[c, c]
        a[c] = [E.s_div(x, p) if k != c else np.float64(1.0) for k, x in enumerate(a[c])]
        for r in range(n):
            f = a[r, c]
            if r == c or (not E._sym(f) and f == 0):
                continue
            a[r] = [E.s_sub(x, E.s_mul(f, y)) if k != c else np.float64(0.0) for k, (x, y) in enumerate(zip(a[r], a[c]))]
    return a[:, n:]


def h_inv(a):
    p = plain(a)
    if p.ndim != 2 or p.shape[0] != p.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    fn = getattr(E.CUR, "inv_stub", None)
    if fn is not None:
        return fn(wrap(p))
    return wrap(_blockinv(p))


def h_solve(a, b):
    return h_dot(h_inv(a), b)


def h_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, "fro") or (ord == 2 and np.ndim(x) > 1 and axis is None):
        raise E.Inconclusive(f"norm ord={ord}")
    return do_ufunc(np.sqrt, "__call__", (h_sum(do_ufunc(np.square, "__call__", (plain(x),), {}), axis),), {})


def h_average(a, axis=None, weights=None, returned=False, keepdims=False):
    if isinstance(a, SMasked) or isinstance(weights, SMasked):
        return ma_average(a, axis=axis, weights=weights, returned=returned, keepdims=keepdims, plain_average=True)
    if keepdims and axis is not None:
        r = h_average(a, axis, weights, returned)
        return tuple(np.expand_dims(x, axis) for x in r) if returned else np.expand_dims(r, axis)
    p = plain(a)
    if weights is None:
        avg = h_mean(p, axis)
        if not returned:
            return avg
        n = np.float64(_count(p, axis))
        return avg, (np.full(np.shape(avg), n) if np.ndim(avg) else n)
    w = plain(weights)
    if p.shape != w.shape:
        if axis is None:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        if w.ndim != 1 or w.shape[0] != p.shape[axis]:
            raise ValueError("Shape of weights must be consistent with shape of a along specified axis.")
        w = np.broadcast_to(w, (p.ndim - 1) * (1,) + w.shape).swapaxes(-1, axis)
        w = np.broadcast_to(w, p.shape)
    scl = h_sum(w, axis)
    zero = _tobool(do_ufunc(np.equal, "__call__", (scl, 0.0), {}))
    if np.any(zero):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    avg = do_ufunc(np.true_divide, "__call__", (h_sum(do_ufunc(np.multiply, "__call__", (p, w), {}), axis), scl), {})
    return (avg, scl) if returned else avg


def _polyfit_exact(xs, ws, Y, deg, cov):
    """fixed abscissas and weights: the coefficients are exact linear combinations of the data"""
    from fractions import Fraction as F
    X, Wt = [F(float(v)) for v in xs], [F(float(v)) ** 2 for v in ws]
    n = deg + 1
    V = [[x ** (deg - j) for j in range(n)] for x in X]
    G = [[sum(w * v[i] * v[j] for w, v in zip(Wt, V)) for j in range(n)] + [F(int(i == k)) for k in range(n)] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if G[r][c]), None)
        if p is None:
            raise E.Inconclusive("rank-deficient polynomial fit")
        G[c], G[p] = G[p], G[c]
        G[c] = [v / G[c][c] for v in G[c]]
        for r in range(n):
            if r != c and G[r][c]:
                G[r] = [a - G[r][c] * b for a, b in zip(G[r], G[c])]
    Gi = [row[n:] for row in G]
    P = [[sum(Gi[i][j] * V[k][j] for j in range(n)) * Wt[k] for k in range(len(X))] for i in range(n)]
    Y2 = Y.reshape(len(X), -1)
    out = np.empty((n, Y2.shape[1]), dtype=object)
    for i in range(n):
        for q in range(Y2.shape[1]):
            t = E.z3.simplify(E.z3.Sum(*[E.rv_f(P[i][k]) * E.term(Y2[k, q]) for k in range(len(X))]), som=True)
            out[i, q] = E.mk(t)
    c = mkarr(out.reshape((n,) + Y.shape[1:]))
    if not cov:
        return c
    C = mkarr([[float(v) for v in row] for row in Gi])
    if cov == "unscaled":
        return c, C
    res = plain(do_ufunc(np.subtract, "__call__", (Y, h_dot(np.array([[E.mk(E.rv_f(v)) for v in row] for row in V], dtype=object), plain(c))), {}))
    res = plain(do_ufunc(np.multiply, "__call__", (res, np.array([float(w) for w in ws], dtype=object).reshape((-1,) + (1,) * (res.ndim - 1))), {}))
    fac = E.s_div(h_sum(do_ufunc(np.square, "__call__", (res,), {}), axis=0 if res.ndim > 1 else None), len(X) - n)
    return c, do_ufunc(np.multiply, "__call__", (C, fac), {})


def h_polyfit(x, y, deg, rcond=None, full=False, w=None, cov=False):
    """exact (weighted) least squares through the normal equations"""
    xs = list(plain(x).reshape(-1))
    Y = plain(y)
    if not len(xs):
        raise TypeError("expected non-empty vector for x")
    if Y.shape[0] != len(xs):
        raise TypeError("expected x and y to have same length")
    ws = [np.float64(1.0)] * len(xs) if w is None else list(plain(w).reshape(-1))
    if any(_isnan(v) for v in xs) or any(_isnan(v) for v in Y.reshape(-1)) or any(_isnan(v) for v in ws):
        raise np.linalg.LinAlgError("SVD did not converge in Linear Least Squares")
    if not full and not any(E._sym(v) for v in xs + ws) and any(E._sym(v) for v in Y.reshape(-1)):
        return _polyfit_exact(xs, ws, Y, deg, cov)
    V = np.empty((len(xs), deg + 1), dtype=object)
    for i, v in enumerate(xs):
        for j in range(deg + 1):
            V[i, j] = E.s_mul(E.s_pow(v, deg - j), ws[i])
    YW = np.empty(Y.shape, dtype=object)
    for i in range(len(xs)):
        YW[i] = do_ufunc(np.multiply, "__call__", (Y[i], ws[i]), {})
    G = plain(_matmul(V.T, V))
    Gi = plain(_blockinv(G))
    c = h_dot(Gi, h_dot(V.T, YW))
    if full:
        raise E.Inconclusive("polyfit full")
    if cov:
        if cov == "unscaled":
            return c, Gi.view(SArr)
        res = plain(do_ufunc(np.subtract, "__call__", (YW, h_dot(V, c)), {}))
        fac = E.s_div(h_sum(do_ufunc(np.square, "__call__", (res,), {}), axis=0 if res.ndim > 1 else None), len(xs) - deg - 1)
        return c, do_ufunc(np.multiply, "__call__", (Gi, fac), {})
    return c


def h_polyval(p, x):
    acc = np.float64(0.0) if np.ndim(x) == 0 else mkarr(np.zeros(np.shape(x)))
    for c in plain(p).reshape(-1):
        acc = do_ufunc(np.add, "__call__", (do_ufunc(np.multiply, "__call__", (acc, x), {}), c), {})
    return acc


def h_lstsq(a, b, rcond=None):
    A, b_ = plain(a), plain(b)
    if A.ndim != 2:
        raise np.linalg.LinAlgError("1-dimensional array given. Array must be two-dimensional")
    x = h_dot(plain(_blockinv(plain(_matmul(A.T, A)))), h_dot(A.T, b_))
    return x, None, A.shape[1], None


def h_einsum(*ops, **kw):
    sub, arrs = ops[0], [plain(o) for o in ops[1:]]
    sub = sub.replace(" ", "")
    if "." in sub:
        raise E.Inconclusive("einsum ellipsis")
    if "->" in sub:
        ins, outl = sub.split("->")
    else:
        ins = sub
        letters = sub.replace(",", "")
        outl = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    dims = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            raise ValueError("einstein sum subscripts string does not match operand")
        for c, n in zip(s, a.shape):
            if dims.setdefault(c, n) != n:
                raise ValueError("operands could not be broadcast together (einsum)")
    summed = [c for c in dims if c not in outl]
    out = np.empty([dims[c] for c in outl], dtype=object)
    for oi in np.ndindex(*out.shape):
        env = dict(zip(outl, oi))
        acc = np.float64(0.0)
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            t = None
            for s, a in zip(ins, arrs):
                v = a[tuple(env[c] for c in s)]
                t = v if t is None else E.s_mul(t, v)
            acc = E.s_add(acc, t)
        out[oi] = acc
    return wrap(out) if out.ndim else out[()]


def h_where(cond, *xy):
    c = _tobool(cond) if _has_sym(cond) else np.asarray(cond)
    if not xy:
        return np.nonzero(c)
    x, y = xy
    r = np.where(c, plain(x), plain(y))
    return wrap(r)


def h_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    r = plain(a)
    a_min = min if a_min is None and min is not None else a_min
    a_max = max if a_max is None and max is not None else a_max
    if a_min is not None:
        r = do_ufunc(np.maximum, "__call__", (r, a_min), {})
    if a_max is not None:
        r = do_ufunc(np.minimum, "__call__", (r, a_max), {})
    return wrap(r)


def h_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if isinstance(x, SMasked):
        return SMasked(h_nan_to_num(x.filled(0.0), True, nan, posinf, neginf), x.mask)
    big = np.finfo(float).max

    def f(v):
        if isinstance(v, (S, B)):
            return v
        if np.isnan(v):
            return np.float64(nan)
        if np.isinf(v):
            return np.float64((big if posinf is None else posinf) if v > 0 else (-big if neginf is None else neginf))
        return v
    p = plain(x)
    r = np.frompyfunc(f, 1, 1)(p)
    return wrap(r) if isinstance(r, np.ndarray) else r


def _isclose1(a, b, rtol, atol, equal_nan):
    if _isnan(a) or _isnan(b):
        return bool(equal_nan and _isnan(a) and _isnan(b))
    if E.isinf(a) or E.isinf(b):
        return bool(E.s_cmp("==", a, b))
    return bool(E.s_cmp("<=", E.s_abs(E.s_sub(a, b)), E.s_add(atol, E.s_mul(rtol, E.s_abs(b)))))


def h_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = np.frompyfunc(lambda x, y: _isclose1(x, y, rtol, atol, equal_nan), 2, 1)(plain(a), plain(b))
    return r.astype(bool) if isinstance(r, np.ndarray) else bool(r)


def h_allclose(a, b, **k): return bool(np.all(h_isclose(a, b, **k)))


def h_array_equal(a, b, equal_nan=False):
    a, b = plain(a), plain(b)
    if a.shape != b.shape:
        return False
    return all(bool(E.s_cmp("==", x, y)) or (equal_nan and _isnan(x) and _isnan(y)) for x, y in zip(a.reshape(-1), b.reshape(-1)))


def h_any(a, axis=None, **k): return np.any(_unmask(a, False), axis=axis)
def h_all(a, axis=None, **k): return np.all(_unmask(a, True), axis=axis)


def _unmask(a, v):
    """truth values; masked entries do not count"""
    if not isinstance(a, SMasked):
        return _tobool(a)
    d = a.data.copy()
    d[a.mask] = np.bool_(v)
    return _tobool(d)


def h_count_nonzero(a, axis=None, **k): return np.count_nonzero(_tobool(a), axis=axis)
def h_nonzero(a): return np.nonzero(_tobool(a))
def h_argwhere(a): return np.argwhere(_tobool(a))
def h_flatnonzero(a): return np.flatnonzero(_tobool(a))
def h_real(x): return wrap(np.frompyfunc(lambda v: v.re if isinstance(v, C) else v, 1, 1)(plain(x)))
def h_imag(x): return wrap(np.frompyfunc(lambda v: v.im if isinstance(v, C) else np.float64(0), 1, 1)(plain(x)))


def _angle1(v):
    v = C.of(v)
    return _arctan2(v.im, v.re)


def h_angle(x, deg=False):
    r = np.frompyfunc(_angle1, 1, 1)(plain(x))
    return wrap(r) if isinstance(r, np.ndarray) else r


def h_round(a, decimals=0, out=None):
    r = np.frompyfunc(lambda v: E.s_round(v, decimals), 1, 1)(plain(a))
    return wrap(r) if isinstance(r, np.ndarray) else r


def h_trapezoid(y, x=None, dx=1.0, axis=-1):
    y = plain(y)
    if y.ndim != 1:
        raise E.Inconclusive("trapz nd")
    acc = np.float64(0)
    xs = plain(x) if x is not None else None
    for i in range(len(y) - 1):
        d = E.s_sub(xs[i + 1], xs[i]) if xs is not None else dx
        acc = E.s_add(acc, E.s_mul(d, E.s_div(E.s_add(y[i], y[i + 1]), 2)))
    return acc


def h_svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    fn = getattr(E.CUR, "svd_stub", None)
    if fn is None:
        raise E.Inconclusive("svd of a symbolic matrix")
    return fn(a, full_matrices)


def h_eig(a):
    fn = getattr(E.CUR, "eig_stub", None)
    if fn is None:
        raise E.Inconclusive("eig of a symbolic matrix")
    return fn(a)


def h_cholesky(a, upper=False):
    m = plain(a)
    n = m.shape[0]
    L = _objectify(np.zeros((n, n)))
    for i in range(n):
        for j in range(i + 1):
            s = m[i, j]
            for k in range(j):
                s = E.s_sub(s, E.s_mul(L[i, k], L[j, k]))
            L[i, j] = E.s_sqrt(s) if i == j else E.s_div(s, L[j, j])
    return L.view(SArr)


def h_pinv(a, *k, **kw):
    fn = getattr(E.CUR, "pinv_stub", None)
    if fn is None:
        raise E.Inconclusive("pinv of a symbolic matrix")
    return fn(a)


def h_multi_dot(arrs, out=None):
    return functools.reduce(h_dot, arrs)


def h_diff(a, n=1, axis=-1, **k):
    p = plain(a)
    for _ in range(n):
        hi = [slice(None)] * p.ndim
        lo = [slice(None)] * p.ndim
        hi[axis], lo[axis] = slice(1, None), slice(None, -1)
        p = plain(do_ufunc(np.subtract, "__call__", (p[tuple(hi)], p[tuple(lo)]), {}))
    return p.view(SArr)


def h_cumsum(a, axis=None, **k):
    p = plain(a)
    if axis is None:
        p, axis = p.reshape(-1), 0
    return _ARITH[np.add].accumulate(p, axis=axis).view(SArr)


def h_outer(a, b, out=None):
    return _ARITH[np.multiply].outer(plain(a).reshape(-1), plain(b).reshape(-1)).view(SArr)


def h_ptp(a, axis=None, **k):
    return do_ufunc(np.subtract, "__call__", (_redmm(np.maximum)(a, axis), _redmm(np.minimum)(a, axis)), {})


def h_isin(element, test_elements, assume_unique=False, invert=False, **k):
    e, t = plain(element), list(plain(test_elements).reshape(-1))
    r = np.frompyfunc(lambda v: any(bool(E.s_cmp("==", v, x)) for x in t) != invert, 1, 1)(e)
    return r.astype(bool) if isinstance(r, np.ndarray) else bool(r)


def h_array_repr(a, *k, **kw): return repr(a.view(np.ndarray))
def h_zeros_like(a, dtype=None, *k, **kw): return shim_np.zeros(plain(a).shape, dtype or float) if dtype is None or _isfl(dtype) else np.zeros(plain(a).shape, dtype)
def h_ones_like(a, dtype=None, *k, **kw): return shim_np.ones(plain(a).shape, dtype or float) if dtype is None or _isfl(dtype) else np.ones(plain(a).shape, dtype)
def h_full_like(a, fill, dtype=None, *k, **kw): return shim_np.full(plain(a).shape, fill)
def h_fill_diagonal(a, val, wrap=False): np.fill_diagonal(a.view(np.ndarray), val)
def h_isscalar(x): return True


def h_allnan(*a, **k): raise E.Inconclusive("unsupported")


HANDLERS = {
    np.dot: h_dot, np.tensordot: h_tensordot, np.sum: h_sum, np.prod: h_prod, np.mean: h_mean, np.var: h_var, np.std: h_std,
    np.nanmean: h_nanmean, np.nansum: h_nansum, np.nanvar: h_nanvar, np.nanstd: h_nanstd, np.nanmax: h_nanmax,
    np.nanmin: h_nanmin, np.max: _redmm(np.maximum), np.min: _redmm(np.minimum), np.amax: _redmm(np.maximum),
    np.amin: _redmm(np.minimum), np.median: h_median, np.nanmedian: h_nanmedian, np.sort: h_sort, np.argsort: h_argsort,
    np.argmax: _argm(">"), np.argmin: _argm("<"), np.nanargmax: _argm(">", True), np.nanargmin: _argm("<", True),
    np.unique: h_unique, np.interp: h_interp, np.linalg.inv: h_inv, np.linalg.solve: h_solve, np.linalg.norm: h_norm,
    np.linalg.det: lambda a: _det(plain(a)), np.linalg.svd: h_svd, np.linalg.eig: h_eig, np.linalg.eigh: h_eig, np.linalg.pinv: h_pinv,
    np.linalg.cholesky: h_cholesky,
    np.linalg.multi_dot: h_multi_dot, np.linalg.lstsq: h_lstsq, np.average: h_average, np.polyfit: h_polyfit,
    np.polyval: h_polyval, np.einsum: h_einsum, np.where: h_where, np.clip: h_clip, np.nan_to_num: h_nan_to_num,
    np.isclose: h_isclose, np.allclose: h_allclose, np.array_equal: h_array_equal, np.any: h_any, np.all: h_all,
    np.count_nonzero: h_count_nonzero, np.nonzero: h_nonzero, np.argwhere: h_argwhere, np.flatnonzero: h_flatnonzero,
    np.real: h_real, np.imag: h_imag, np.angle: h_angle, np.round: h_round, np.around: h_round, np.diff: h_diff,
    np.cumsum: h_cumsum, np.outer: h_outer, np.ptp: h_ptp, np.isin: h_isin, np.zeros_like: h_zeros_like,
    np.ones_like: h_ones_like, np.full_like: h_full_like, np.fill_diagonal: h_fill_diagonal,
    np.inner: lambda a, b: h_dot(a, np.transpose(b)), np.vdot: lambda a, b: h_dot(plain(a).reshape(-1), plain(b).reshape(-1)),
    np.array_repr: h_array_repr, np.trapezoid: h_trapezoid,
}
if hasattr(np, "trapz"):
    HANDLERS[np.trapz] = h_trapezoid
if hasattr(np, "in1d"):
    HANDLERS[np.in1d] = h_isin


def _deconc(x):
    """concrete twin of an argument (no symbolic contents)"""
    if isinstance(x, SArr):
        return _back(x)
    if isinstance(x, tuple):
        return tuple(_deconc(v) for v in x)
    if isinstance(x, list):
        return [_deconc(v) for v in x]
    if isinstance(x, dict):
        return {k: _deconc(v) for k, v in x.items()}
    return x


def _back(x):
    p = x.view(np.ndarray)
    if all(isinstance(v, (bool, np.bool_)) for v in p.flat) and p.size:
        return p.astype(bool)
    return p.astype(float)


_STRUCTURAL = {np.concatenate, np.stack, np.hstack, np.vstack, np.column_stack, np.transpose, np.reshape, np.ravel, np.repeat,
               np.tile, np.roll, np.delete, np.insert, np.append, np.diag, np.squeeze, np.expand_dims, np.moveaxis,
               np.swapaxes, np.broadcast_to, np.take, np.split, np.array_split, np.flip, np.fliplr, np.flipud, np.atleast_1d,
               np.atleast_2d, np.copy, np.shape, np.ndim, np.size, np.take_along_axis, np.rollaxis, np.triu, np.tril,
               np.copyto, np.dstack, np.block, np.meshgrid, np.compress, np.choose, np.select, np.resize, np.rot90, np.diagonal,
               np.broadcast_arrays, np.put, np.place, np.putmask, np.hsplit, np.vsplit, np.result_type, np.may_share_memory,
               np.shares_memory}


def _toplain(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, (S, B, C)):
        return plain(x)
    if isinstance(x, tuple):
        return tuple(_toplain(v) for v in x)
    if isinstance(x, list):
        return [_toplain(v) for v in x]
    if isinstance(x, dict):
        return {k: _toplain(v) for k, v in x.items()}
    return x


def do_function(func, types_, args, kwargs):
    if func in _STRUCTURAL:
        kwargs = {k: v for k, v in kwargs.items() if k not in ("dtype", "casting")}
        return wrap(func(*[_toplain(a) for a in args], **{k: _toplain(v) for k, v in kwargs.items()}))
    h = HANDLERS.get(func)
    if h is not None:
        if func not in _INPLACE and not any(_truly_sym(a) for a in args) and not any(_truly_sym(v) for v in kwargs.values()) \
                and not any(isinstance(a, SMasked) for a in list(args) + list(kwargs.values())):
            with np.errstate(all="ignore"):
                return wrap(func(*[_deconc(a) for a in args], **{k: _deconc(v) for k, v in kwargs.items()}))
        _mask_aware(func, args, kwargs)
        return h(*args, **kwargs)
    if not any(_truly_sym(a) for a in args) and not any(_truly_sym(v) for v in kwargs.values()):
        with np.errstate(all="ignore"):
            return wrap(func(*[_deconc(a) for a in args], **{k: _deconc(v) for k, v in kwargs.items()}))
    try:
        return wrap(func._implementation(*args, **kwargs))
    except (TypeError, AttributeError) as e:
        raise E.Inconclusive(f"numpy function {func.__name__} on symbolic data: {e}")


_INPLACE = {np.fill_diagonal}
_MASK_AWARE = {np.nan_to_num, np.any, np.all, np.sum, np.mean, np.average}


def _mask_aware(func, args, kwargs):
    if func not in _MASK_AWARE and any(isinstance(a, SMasked) for a in list(args) + list(kwargs.values())):
        raise E.Inconclusive(f"{func.__name__} on a masked symbolic array")


# ------------------------------------------------------------------------------------------- masked arrays

class SMasked:
    """the part of numpy.ma the code base may use, for symbolic data with a concrete mask"""
    __array_priority__ = 5000
    __array_ufunc__ = None

    def __init__(self, data, mask=None, fill_value=None):
        if isinstance(data, SMasked):
            m0, data = data.mask, data.data
        else:
            m0 = None
        self.data = plain(data).copy()
        if mask is None or mask is False:
            self.mask = np.zeros(self.data.shape, dtype=bool)
        else:
            self.mask = np.broadcast_to(_tobool(mask) if _has_sym(mask) else np.asarray(mask, dtype=bool), self.data.shape).copy()
        if m0 is not None:
            self.mask |= m0

    shape = property(lambda s: s.data.shape)
    ndim = property(lambda s: s.data.ndim)
    size = property(lambda s: s.data.size)
    T = property(lambda s: SMasked(s.data.T, s.mask.T))

    def __len__(self): return len(self.data)

    def filled(self, v=np.nan):
        d = self.data.copy()
        d[self.mask] = np.float64(v) if isinstance(v, float) else v
        return d.view(SArr)

    def reshape(self, *s): return SMasked(self.data.reshape(*s), self.mask.reshape(*s))
    def transpose(self, *s): return SMasked(self.data.transpose(*s), self.mask.transpose(*s))
    def copy(self): return SMasked(self.data, self.mask)
    def compressed(self): return self.data[~self.mask].view(SArr)
    def astype(self, *a, **k): return self.copy()

    def __getitem__(self, k):
        d, m = self.data[k], self.mask[k]
        if isinstance(d, np.ndarray):
            return SMasked(d, m)
        return np.ma.masked if m else d

    def __setitem__(self, k, v):
        if isinstance(v, SMasked):
            self.data[k], self.mask[k] = v.data, v.mask
        else:
            self.data[k] = plain(v) if isinstance(v, np.ndarray) else v
            self.mask[k] = False

    def _op(self, ufunc, o, refl=False):
        od, om = (o.data, o.mask) if isinstance(o, SMasked) else (plain(o), np.zeros(np.shape(plain(o)), dtype=bool))
        m = np.broadcast_arrays(self.mask, om)
        m = m[0] | m[1]
        a, b = np.broadcast_to(self.data, m.shape).copy(), np.broadcast_to(od, m.shape).copy()
        a[m], b[m] = np.float64(1.0), np.float64(1.0)
        r = do_ufunc(ufunc, "__call__", (b, a) if refl else (a, b), {})
        if ufunc in (np.true_divide,):
            bad = ~np.frompyfunc(_isfinite, 1, 1)(plain(r)).astype(bool)
            m = m | bad
        if isinstance(r, np.ndarray) and r.dtype == bool:
            return SMasked(_objectify(r), m)
        return SMasked(r, m)

    def __add__(self, o): return self._op(np.add, o)
    def __radd__(self, o): return self._op(np.add, o, True)
    def __sub__(self, o): return self._op(np.subtract, o)
    def __rsub__(self, o): return self._op(np.subtract, o, True)
    def __mul__(self, o): return self._op(np.multiply, o)
    def __rmul__(self, o): return self._op(np.multiply, o, True)
    def __truediv__(self, o): return self._op(np.true_divide, o)
    def __rtruediv__(self, o): return self._op(np.true_divide, o, True)
    def __pow__(self, o): return self._op(np.power, o)
    def __neg__(self): return self._op(np.multiply, -1.0)
    def __abs__(self): return _masked_ufunc(np.absolute, "__call__", (self,), {})

    def __array_function__(self, func, types_, args, kwargs):
        if func in (np.ma.average, np.average):
            return ma_average(*args, **kwargs)
        if func in HANDLERS:
            _mask_aware(func, args, kwargs)
            return HANDLERS[func](*args, **kwargs)
        if func in (np.transpose,):
            return self.transpose(*args[1:], **kwargs)
        if func in (np.reshape,):
            return self.reshape(*args[1:], **kwargs)
        if func in (np.shape,):
            return self.shape
        raise E.Inconclusive(f"{func.__name__} on a masked symbolic array")

    def sum(self, axis=None, **k):
        d = self.data.copy()
        d[self.mask] = np.float64(0.0)
        s = h_sum(d, axis)
        am = np.all(self.mask, axis=axis)
        if np.ndim(s) == 0 and not isinstance(s, np.ndarray):
            return np.ma.masked if am else s
        return SMasked(s, am)

    def count(self, axis=None): return np.sum(~self.mask, axis=axis)

    def mean(self, axis=None, **k):
        s = self.sum(axis)
        n = self.count(axis)
        if isinstance(s, SMasked):
            return s / SMasked(np.where(n == 0, 1, n).astype(float), n == 0)
        return s if s is np.ma.masked else E.s_div(s, float(n))


def _masked_ufunc(ufunc, method, inputs, kwargs):
    if method != "__call__":
        raise E.Inconclusive(f"masked ufunc {ufunc.__name__}.{method}")
    if len(inputs) == 1:
        x = inputs[0]
        d = x.data.copy()
        d[x.mask] = np.float64(1.0)
        r = do_ufunc(ufunc, "__call__", (d,), {})
        if ufunc in (np.isnan, np.isfinite):
            return SMasked(_objectify(r), x.mask)
        m = x.mask.copy()
        if ufunc in (np.sqrt, np.log, np.reciprocal):
            m = m | ~np.frompyfunc(_isfinite, 1, 1)(plain(r)).astype(bool)
        return SMasked(r, m)
    a, b = inputs
    return a._op(ufunc, b) if isinstance(a, SMasked) else b._op(ufunc, a, True)


def ma_average(a, axis=None, weights=None, returned=False, keepdims=False, plain_average=False):
    """numpy.ma.average, or (plain_average) numpy.average applied to masked arrays"""
    if keepdims is not False and keepdims is not np._NoValue and keepdims:
        if axis is None:
            raise E.Inconclusive("masked average with keepdims over all axes")
        r = ma_average(a, axis, weights, returned, plain_average=plain_average)
        ed = lambda x: SMasked(np.expand_dims(x.data, axis), np.expand_dims(x.mask, axis)) if isinstance(x, SMasked) else np.expand_dims(x, axis)
        return tuple(ed(x) for x in r) if returned else ed(r)
    a = a if isinstance(a, SMasked) else SMasked(a)
    if weights is None:
        avg = a.mean(axis)
        scl = a.count(axis)
        return (avg, scl) if returned else avg
    w = weights if isinstance(weights, SMasked) else SMasked(weights)
    if a.shape != w.shape:
        if axis is None:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        wd = np.broadcast_to(w.data, (a.ndim - 1) * (1,) + w.shape).swapaxes(-1, axis)
        wm = np.broadcast_to(w.mask, (a.ndim - 1) * (1,) + w.shape).swapaxes(-1, axis)
        w = SMasked(np.broadcast_to(wd, a.shape), np.broadcast_to(wm, a.shape))
    if plain_average:
        scl = w.sum(axis)
        sd, sm = (scl.data, scl.mask) if isinstance(scl, SMasked) else (plain(scl), np.zeros(np.shape(scl), dtype=bool))
        for v, m in zip(np.ravel(sd), np.ravel(sm)):
            if not m and v is not np.ma.masked and bool(E.s_cmp("==", v, 0.0)):
                raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    else:
        # numpy.ma: weights masked where the data are masked
        w = SMasked(w.data, w.mask | a.mask)
        scl = w.sum(axis)
    num = (a * w).sum(axis)
    if isinstance(num, SMasked) or isinstance(scl, SMasked):
        avg = num / scl
    elif num is np.ma.masked or scl is np.ma.masked:
        avg = np.ma.masked
    else:
        avg = E.s_div(num, scl)
    return (avg, scl) if returned else avg


# ------------------------------------------------------------------------------------------- module shims

def _isfl(dtype):
    if dtype is None or dtype is float:
        return True
    try:
        return np.dtype(dtype).kind == "f"
    except TypeError:
        return False


class _NS(types.ModuleType):
    """module proxy: overrides first, then the real module"""

    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self.__dict__["_real"], k)


def _creator(fn):
    def make(shape, dtype=float, order="C", **k):
        if _isfl(dtype):
            return _objectify(fn(shape, dtype=float)).view(SArr)
        return fn(shape, dtype=dtype)
    return make


def c_array(x, dtype=None, copy=True, order=None, ndmin=0, subok=False, **k):
    if isinstance(x, SMasked):
        x = x.data
    if dtype is not None and not _isfl(dtype) and dtype is not object:
        if isinstance(x, SArr) or _has_sym(x):
            a = (mkarr(x)).astype(dtype)
        else:
            a = np.array(x, dtype=dtype)
    elif dtype is None and not _has_sym(x):
        a = np.array(x)
        if a.dtype.kind == "f":
            a = _objectify(a).view(SArr)
        elif a.dtype == _OBJ:
            a = a.view(SArr)
    else:
        a = mkarr(x)
        if dtype is float or _isfl(dtype) and dtype is not None:
            p = a.view(np.ndarray)
            for i in np.ndindex(*p.shape):
                if not isinstance(p[i], (S, C)):
                    p[i] = np.float64(p[i])
    while a.ndim < ndmin:
        a = a[np.newaxis]
    return a


def c_asarray(x, dtype=None, order=None, **k):
    if isinstance(x, SArr) and (dtype is None or _isfl(dtype)):
        return x
    if isinstance(x, np.ndarray) and x.dtype.kind != "f" and x.dtype != _OBJ and (dtype is None or x.dtype == np.dtype(dtype)):
        return x
    return c_array(x, dtype=dtype)


def c_full(shape, fill_value, dtype=None, **k):
    if dtype is not None and not _isfl(dtype):
        return np.full(shape, fill_value, dtype=dtype)
    if dtype is None and isinstance(fill_value, (bool, np.bool_, int, np.integer)):
        return np.full(shape, fill_value)
    a = np.empty(shape, dtype=object)
    a[...] = plain(fill_value) if isinstance(fill_value, (np.ndarray, list, tuple)) else \
        (np.float64(fill_value) if isinstance(fill_value, float) else fill_value)
    return a.view(SArr)


def c_arange(*a, **k):
    if any(isinstance(x, S) for x in a):
        raise E.Inconclusive("arange with symbolic bounds")
    return wrap(np.arange(*a, **k))


def c_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not _has_sym(start) and not _has_sym(stop):
        return wrap(np.linspace(start, stop, num, endpoint=endpoint, retstep=retstep, dtype=dtype, axis=axis))
    if np.ndim(start) or np.ndim(stop):
        start, stop = np.broadcast_arrays(plain(start), plain(stop))
        cols = [c_linspace(start[i], stop[i], num, endpoint) for i in np.ndindex(*start.shape)]
        r = np.empty((num,) + start.shape, dtype=object)
        for i, c in zip(np.ndindex(*start.shape), cols):
            r[(slice(None),) + i] = plain(c)
        return r.view(SArr)
    div = num - 1 if endpoint else num
    st = E.s_div(E.s_sub(stop, start), div) if div > 0 else np.float64(np.nan)
    out = [E.s_add(start, E.s_mul(float(i), st)) if i else start for i in range(num)]
    if endpoint and num > 1:
        out[-1] = stop
    r = mkarr(out)
    return (r, st) if retstep else r


def c_wrap(fn):
    @functools.wraps(fn)
    def g(*a, **k):
        return wrap(fn(*a, **k))
    return g


def _fwd(fn, h=None):
    """numpy function whose argument may be a plain list of symbolic scalars or a masked array (no dispatch)"""
    @functools.wraps(fn)
    def g(*a, **k):
        if any(_has_sym(x) for x in a) or any(_has_sym(v) for v in k.values()):
            args = [x if not isinstance(x, (list, tuple)) or fn in _SEQ else mkarr(x) if _has_sym(x) else x for x in a]
            return do_function(fn, (), args, k)
        return wrap(fn(*a, **k))
    return g


_SEQ = {np.concatenate, np.hstack, np.vstack, np.stack, np.column_stack, np.dstack, np.block, np.linalg.multi_dot, np.meshgrid,
        np.broadcast_arrays, np.reshape, np.transpose, np.select}


class _R:
    """numpy.random replacement: nondeterministic stub, values delivered by the active harness"""

    def _draw(self, kind, size):
        fn = getattr(E.CUR, "random_stub", None)
        if fn is None:
            raise E.Inconclusive("np.random used without a stub")
        return fn(kind, size)

    def randn(self, *shape):
        return self._draw("normal", tuple(int(s) for s in shape))

    def standard_normal(self, size=None):
        return self._draw("normal", () if size is None else ((size,) if np.isscalar(size) else tuple(size)))

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(plain(loc), plain(scale)).shape
        z = self._draw("normal", (int(size),) if np.isscalar(size) else tuple(size))
        return loc + scale * z

    def __getattr__(self, k):
        def f(*a, **kw):
            raise E.Inconclusive(f"np.random.{k}")
        if k in ("seed", "get_state", "set_state"):
            return lambda *a, **kw: None
        return f


def _masked_invalid(x, copy=True):
    p = plain(x)
    return SMasked(p, ~np.frompyfunc(_isfinite, 1, 1)(p).astype(bool))


_ma_over = dict(
    array=lambda data, mask=None, **k: SMasked(data, mask) if _has_sym(data) or isinstance(data, np.ndarray) and data.dtype == _OBJ
    else SMasked(plain(data), mask),
    average=ma_average,
    masked_invalid=_masked_invalid,
    MaskedArray=SMasked,
    mean=lambda a, axis=None, **k: SMasked(a).mean(axis) if not isinstance(a, SMasked) else a.mean(axis),
    sum=lambda a, axis=None, **k: SMasked(a).sum(axis) if not isinstance(a, SMasked) else a.sum(axis),
    masked_where=lambda c, a, copy=True: SMasked(a, c),
    sqrt=lambda a: do_ufunc(np.sqrt, "__call__", (a if isinstance(a, SMasked) else SMasked(a),), {}),
    filled=lambda a, fill_value=np.nan: a.filled(fill_value) if isinstance(a, SMasked) else a,
    getmaskarray=lambda a: a.mask.copy() if isinstance(a, SMasked) else np.zeros(np.shape(a), dtype=bool),
)
_ma_over["masked_array"] = _ma_over["array"]
shim_ma = _NS("numpy.ma", np.ma, _ma_over)

_lin_names = ["inv", "svd", "eig", "eigh", "norm", "det", "pinv", "solve", "lstsq", "multi_dot", "cholesky"]
shim_linalg = _NS("numpy.linalg", np.linalg, {n: _fwd(getattr(np.linalg, n)) for n in _lin_names})

_over = dict(
    zeros=_creator(np.zeros), ones=_creator(np.ones), empty=_creator(np.zeros), full=c_full, array=c_array, asarray=c_asarray,
    asanyarray=c_asarray, ascontiguousarray=c_asarray, asfortranarray=c_asarray, copy=lambda a, **k: c_array(a),
    eye=c_wrap(np.eye), identity=c_wrap(np.identity), arange=c_arange, linspace=c_linspace,
    logspace=c_wrap(np.logspace), ma=shim_ma, linalg=shim_linalg, random=_R(),
    fromiter=lambda it, dtype=float, count=-1: c_array(list(it), dtype=dtype),
    isscalar=lambda x: True if isinstance(x, (S, B)) else np.isscalar(x),
    iscomplexobj=lambda x: False if _has_sym(x) else np.iscomplexobj(x),
    vectorize=np.vectorize,
)


class _UF:
    """callable ufunc proxy that understands lists of symbolic scalars and masked arrays"""

    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def _go(self, method, a, k):
        if any(_has_sym(x) for x in a) or any(_has_sym(v) for v in k.values()):
            return do_ufunc(self.u, method, a, k)
        with np.errstate(all="ignore"):
            return wrap(getattr(self.u, method)(*a, **k))

    def __call__(self, *a, **k): return self._go("__call__", a, k)
    def reduce(self, *a, **k): return self._go("reduce", a, k)
    def accumulate(self, *a, **k): return self._go("accumulate", a, k)
    def outer(self, *a, **k): return self._go("outer", a, k)
    def at(self, *a, **k): return self._go("at", a, k)
    def __getattr__(self, n): return getattr(self.u, n)


for _n in dir(np):
    _f = getattr(np, _n)
    if _n in _over or _n.startswith("_"):
        continue
    if isinstance(_f, np.ufunc):
        _over[_n] = _UF(_f)
    elif callable(_f) and not isinstance(_f, type) and (_f in HANDLERS or _f in _STRUCTURAL if getattr(_f, "__hash__", None) else False):
        _over[_n] = _fwd(_f)

shim_np = _NS("numpy", np, _over)


def _m1(name, fn):
    def g(x):
        if isinstance(x, np.ndarray):
            x = x.item() if x.size == 1 else x
        return fn(x) if isinstance(x, (S, B, C)) else getattr(math, name)(x)
    return g


shim_math = _NS("math", math, dict(
    sqrt=_m1("sqrt", E.s_sqrt), cos=_m1("cos", E.s_cos), sin=_m1("sin", E.s_sin), tan=_m1("tan", E.s_tan), exp=_m1("exp", E.s_exp),
    fabs=_m1("fabs", E.s_abs), isnan=_m1("isnan", _isnan), isfinite=_m1("isfinite", _isfinite), isinf=_m1("isinf", _isinf),
    floor=_m1("floor", lambda x: int(E.s_floor(x))), ceil=_m1("ceil", lambda x: int(E.s_ceil(x))),
    pow=lambda a, b: E.s_pow(a, b), hypot=lambda a, b: _hyp(a, b), copysign=lambda a, b: _copysign(a, b),
    atan2=lambda a, b: _arctan2(a, b), fmod=lambda a, b: E.s_fmod(a, b),
    isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(E.s_cmp("<=", E.s_abs(E.s_sub(a, b)),
                E.s_max(E.s_mul(rel_tol, E.s_max(E.s_abs(a), E.s_abs(b))), abs_tol))) if _has_sym(a) or _has_sym(b) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol),
    fsum=lambda xs: functools.reduce(E.s_add, list(xs), np.float64(0.0)),
    prod=lambda xs, start=1: functools.reduce(E.s_mul, list(xs), start),
))
