"""Imports the code under test from /repo -- symbolically (numpy/math/at proxied) or for real -- and owns the stubs."""
import builtins
import copy
import importlib
import os
import sys

import numpy as np

REPO = os.environ.get("PYSC_REPO", "/repo")
MODE = None
_AT_STUBBABLE = ("lattice_track", "lattice_pass", "element_pass", "element_track", "internal_lpass", "find_orbit6", "find_orbit4",
                 "find_orbit", "get_optics", "linopt6", "linopt", "linopt2", "linopt4", "patpass", "atpass", "get_tune", "get_chrom")
_SCIPY_STUBBABLE = ("fmin", "curve_fit", "fsolve", "least_squares", "minimize")
stubs = {}           # active stubs: name -> callable
_real = {}


def _dispatch(name, real):
    def f(*a, **k):
        fn = stubs.get(name)
        if fn is not None:
            return fn(*a, **k)
        if MODE == "sym":
            from . import engine, snp
            if name in _SCIPY_STUBBABLE or any(snp._truly_sym(x) for x in list(a) + list(k.values())):
                raise engine.Inconclusive(f"{name} called without a stub")
        return real(*a, **k)
    f.__name__ = name
    return f


def load(mode):
    """import pySC; returns nothing, afterwards use `mod(name)`"""
    global MODE
    MODE = mode
    sys.path.insert(0, REPO)
    import at
    import scipy.optimize
    import scipy.special
    import scipy.stats
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import logging
    logging.disable(logging.CRITICAL)
    for n in _AT_STUBBABLE:
        if hasattr(at, n):
            _real[n] = getattr(at, n)
    for n in _SCIPY_STUBBABLE:
        _real[n] = getattr(scipy.optimize, n)
    disp = {n: _dispatch(n, r) for n, r in _real.items()}
    at_over = {n: disp[n] for n in _AT_STUBBABLE if n in disp}
    sc_over = {n: disp[n] for n in _SCIPY_STUBBABLE}
    if mode == "sym":
        from . import snp
        from .snp import shim_np, shim_math, wrap, _NS
        at_over["get_s_pos"] = lambda *a, **k: _spos(at, *a, **k)
        at_over["get_value_refpts"] = lambda *a, **k: _valrefs(at, *a, **k)
        at_over["set_value_refpts"] = at.set_value_refpts
        _patch_elements(at)
    else:
        from .snp import _NS
    at_proxy = _NS("at", at, at_over)
    so_proxy = _NS("scipy.optimize", scipy.optimize, sc_over)
    st_proxy = scipy.stats
    if mode == "sym":
        class _T:
            def ppf(self, q, df, *a, **k):
                from . import snp, engine
                if not snp._truly_sym(df) and not snp._truly_sym(q):
                    return wrap(scipy.stats.t.ppf(snp._deconc(q), snp._deconc(df)))
                p = snp.plain(df)
                o = np.frompyfunc(lambda v: engine.s_opaque("tppf", v), 1, 1)(p)
                return wrap(o) if isinstance(o, np.ndarray) else o

            def __getattr__(self, n):
                return getattr(scipy.stats.t, n)
        st_proxy = _NS("scipy.stats", scipy.stats, dict(t=_T()))
    sp_proxy = _NS("scipy", sys.modules["scipy"], dict(optimize=so_proxy, stats=st_proxy))
    top = {"at": at_proxy, "scipy": sp_proxy}
    exact = {"at": at_proxy, "scipy.optimize": so_proxy, "scipy.stats": st_proxy, "scipy": sp_proxy}
    if mode == "sym":
        from .snp import shim_ma, shim_linalg
        top.update(numpy=shim_np, math=shim_math)
        exact.update({"numpy": shim_np, "math": shim_math, "numpy.ma": shim_ma, "numpy.linalg": shim_linalg,
                      "numpy.random": shim_np.random})
    real_import = builtins.__import__

    def hook(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and globals is not None and str(globals.get("__name__", "")).split(".")[0] == "pySC":
            if name in exact and (fromlist or "." not in name):
                return exact[name]
            root = name.split(".")[0]
            if root in top and not fromlist:
                real_import(name, globals, locals, fromlist, level)
                return top[root]
        return real_import(name, globals, locals, fromlist, level)

    builtins.__import__ = hook
    import pySC
    for dirpath, _, files in os.walk(os.path.join(REPO, "pySC")):
        for f in sorted(files):
            if f.endswith(".py") and f not in ("__init__.py", "example.py"):
                rel = os.path.relpath(os.path.join(dirpath, f), REPO)[:-3].replace(os.sep, ".")
                importlib.import_module(rel)
    # interactive plotting is outside every claim
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("pySC") and hasattr(m, "plt"):
            pass
    assert pySC.__file__.startswith(REPO), pySC.__file__


def mod(name):
    return importlib.import_module(name)


def _spos(at, *a, **k):
    from . import snp
    ring = k.get("ring", a[0] if a else None)
    refpts = k.get("refpts", a[1] if len(a) > 1 else None)
    from .engine import s_add
    s = [np.float64(0.0)]
    for el in ring:
        s.append(s_add(s[-1], getattr(el, "Length", 0.0)))
    out = snp.mkarr(s)
    if refpts is None or refpts is at.All:
        return out
    return out[at.get_bool_index(ring, refpts)]


def _valrefs(at, *a, **k):
    from . import snp
    ring, refpts, attr = a[:3]
    index = k.get("index", a[3] if len(a) > 3 else None)
    vals = []
    for el in at.refpts_iterator(ring, refpts):
        v = getattr(el, attr)
        vals.append(v if index is None else v[index])
    return snp.c_array(vals)


def _patch_elements(at):
    from . import snp, engine
    El = at.lattice.elements.Element
    orig = El.__setattr__
    scalars = {float, int} | {getattr(at.lattice.elements, n) for n in ("_float", "_int") if hasattr(at.lattice.elements, n)}

    def setattr_(self, key, value):
        conv = self._conversions.get(key)
        if isinstance(value, np.ndarray) and value.dtype == object:
            if conv in scalars and value.size == 1:
                value = value.reshape(-1)[0]
            else:
                if conv is not None and conv not in scalars and value.ndim > 1 and key not in ("R1", "R2"):
                    value = value.reshape(-1)
                return object.__setattr__(self, key, value if isinstance(value, snp.SArr) or key not in self._conversions
                                          else value.view(snp.SArr))
        if isinstance(value, (engine.S, engine.B)):
            if conv is not None and conv not in scalars:
                value = snp.mkarr([value])
            return object.__setattr__(self, key, value)
        if isinstance(value, (list, tuple)) and snp._has_sym(value) and conv is not None:
            return object.__setattr__(self, key, snp.mkarr(value))
        orig(self, key, value)
        v = self.__dict__.get(key)
        if isinstance(v, np.ndarray) and v.dtype.kind == "f":
            object.__setattr__(self, key, snp.wrap(v))
        elif isinstance(v, float) and not isinstance(v, np.floating):
            object.__setattr__(self, key, v)
    El.__setattr__ = setattr_


# ---------------------------------------------------------------------------------------------- stubs

class stub:
    """context manager: at / scipy / random stubs for both modes"""

    def __init__(self, **fns):
        self.fns = fns

    def __enter__(self):
        self.old = dict(stubs)
        stubs.update(self.fns)
        return self

    def __exit__(self, *a):
        stubs.clear()
        stubs.update(self.old)


class random:
    """np.random.* stub.  fn(kind, shape) -> array (or scalar for shape ())"""

    def __init__(self, ctx, fn):
        self.ctx, self.fn = ctx, fn

    def __enter__(self):
        if MODE == "sym":
            self.old = getattr(self.ctx, "random_stub", None)
            self.ctx.random_stub = self.fn
        else:
            self.old = {n: getattr(np.random, n) for n in ("randn", "standard_normal", "normal")}
            np.random.randn = lambda *s: self.fn("normal", tuple(int(x) for x in s))
            np.random.standard_normal = lambda size=None: self.fn("normal", () if size is None else ((size,) if np.isscalar(size) else tuple(size)))
            np.random.normal = lambda loc=0.0, scale=1.0, size=None: loc + scale * self.fn(
                "normal", np.broadcast(loc, scale).shape if size is None else ((size,) if np.isscalar(size) else tuple(size)))
        return self

    def __exit__(self, *a):
        if MODE == "sym":
            self.ctx.random_stub = self.old
        else:
            for n, f in self.old.items():
                setattr(np.random, n, f)


class patched:
    """replace a pySC function by a stub at every place pySC refers to it (e.g. the BPM reading for the feedback loops)"""

    def __init__(self, modname, attr, fn):
        self.modname, self.attr, self.fn = modname, attr, fn

    def __enter__(self):
        orig = getattr(mod(self.modname), self.attr)
        self.places = []
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").split(".")[0] == "pySC":
                for k, v in list(vars(m).items()):
                    if v is orig:
                        self.places.append((m, k, v))
                        setattr(m, k, self.fn)
        return self

    def __exit__(self, *a):
        for m, k, v in self.places:
            setattr(m, k, v)
