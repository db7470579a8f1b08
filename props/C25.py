"""Weighted statistics of measurements."""
from props.common import *

BOUNDS = dict(data="up to 4 values or a 2x3 table, any axis, any errors including missing and vanishing ones, any values missing")
ASSUMPTIONS = ["the quantile of the t distribution is an arbitrary function of the degrees of freedom"]


def st():
    return W.mod("pySC.utils.stats")


def groups(shape, axis):
    """index groups that are reduced together, in the order of the result"""
    axes = tuple(range(len(shape))) if axis is None else (axis,) if isinstance(axis, int) else axis
    axes = tuple(a % len(shape) for a in axes)
    keep = [i for i in range(len(shape)) if i not in axes]
    out = []
    for k in np.ndindex(*[shape[i] for i in keep]):
        g = [idx for idx in np.ndindex(*shape) if tuple(idx[i] for i in keep) == k]
        out.append(g)
    return [shape[i] for i in keep], out


def total(xs):
    return sum(xs[1:], xs[0])


class Data:
    def __init__(self, ctx, shape, errors, missing=(), few=False):
        """errors: None, 'sym', 'equal', 'nan', 'zero'; missing: indices of missing values"""
        d = np.full(shape, NAN, dtype=object if W.MODE == "sym" else float)
        e = d.copy()
        same = ctx.real("e", 0.125, 2) if errors == "equal" else None
        for i in np.ndindex(*shape):
            t = "".join(map(str, i))
            if i not in missing:
                d[i] = ctx.real("d" + t, -2, 2)
            e[i] = same if same is not None else 0.5
            if few:
                e[i] = same if same is not None else (0.5, 1.0, 0.25, 2.0, 0.5, 1.0)[np.ravel_multi_index(i, shape)]
            if errors in ("sym", "nan", "zero") and not (few and any(i)):
                e[i] = ctx.real("e" + t, 0.125, 2)
        if errors in ("nan", "zero"):
            e[tuple(0 for _ in shape)] = NAN if errors == "nan" else 0.0
        self.shape, self.missing = shape, set(missing)
        self.d, self.given = arr(d), None if errors is None else arr(e)
        self.weighted = errors in ("sym", "equal", "const") or errors in ("nan", "zero") and tuple(0 for _ in shape) in self.missing
        self.e = e

    def w(self, i):
        return 1 / (self.e[i] * self.e[i]) if self.weighted else 1.0

    def use(self, g):
        return [i for i in g if i not in self.missing]


def mean_of(D, g, f=lambda x: x):
    u = D.use(g)
    return total([D.w(i) * f(D.d[i]) for i in u]) / total([D.w(i) for i in u])


def compare(ctx, got, shape, exp, label):
    ctx.check(np.shape(got) == tuple(shape), label + ": its shape")
    for a, b in zip(np.asarray(got).reshape(-1) if W.MODE == "conc" else np.reshape(got, -1), exp):
        ctx.eq(a, b, label)


def unchanged(ctx, D, d0, e0):
    ctx.eq(D.d, d0, "arguments are left as they are")
    if e0 is not None:
        ctx.eq(D.given, e0, "arguments are left as they are")


def mean(ctx, shape, axis, errors, missing=None):
    D = Data(ctx, shape, errors, missing or ())
    d0, e0 = D.d.copy(), None if D.given is None else D.given.copy()
    f = st().weighted_mean if missing is None else st().weighted_nanmean
    got = f(D.d, axis=axis) if errors is None else f(D.d, errors=D.given, axis=axis)
    sh, gs = groups(shape, axis)
    compare(ctx, got, sh, [mean_of(D, g) for g in gs], "mean weighted with inverse squared errors, plain without usable errors")
    unchanged(ctx, D, d0, e0)


def rms(ctx, shape, axis, errors, missing=None):
    D = Data(ctx, shape, errors, missing or ())
    d0, e0 = D.d.copy(), None if D.given is None else D.given.copy()
    f = st().weighted_rms if missing is None else st().weighted_nanrms
    got = f(D.d, axis=axis) if errors is None else f(D.d, errors=D.given, axis=axis)
    if errors is None and missing is None:
        ctx.eq(st().rms(D.d, axis), got, "unweighted root mean square")
    sh, gs = groups(shape, axis)
    compare(ctx, got, sh, [vsqrt(mean_of(D, g, lambda x: x * x)) for g in gs], "weighted root mean square")
    unchanged(ctx, D, d0, e0)


def size_of(D, g):
    if not D.weighted:
        n = float(len(g))
    else:
        s = total([D.w(i) for i in g])
        n = s * s / total([D.w(i) * D.w(i) for i in g])
    return vmax(n, 2.0)


def size(ctx, shape, axis, errors):
    D = Data(ctx, shape, errors, few=True)
    weights = None if errors is None else arr([[D.w(i) for i in np.ndindex(*shape)]]).reshape(shape)
    got = st().effective_sample_size(D.d, weights, axis=axis)
    sh, gs = groups(shape, axis)
    compare(ctx, got, sh, [size_of(D, g) for g in gs], "effective sample size, at least two")
    ub = st().unbias_variance(D.d, weights, axis=axis)
    compare(ctx, ub, sh, [size_of(D, g) / (size_of(D, g) - 1) for g in gs], "correction of the variance for small samples")
    if errors == "equal":
        for g, n in zip(gs, np.reshape(got, -1)):
            ctx.eq(n, float(max(len(g), 2)), "equal weights count every value")


def weights(ctx, shape, errors):
    D = Data(ctx, shape, errors)
    e0 = None if D.given is None else D.given.copy()
    got = st().weights_from_errors(D.given)
    if not D.weighted:
        ctx.check(got is None, "no weights without usable errors")
    else:
        compare(ctx, got, shape, [D.w(i) for i in np.ndindex(*shape)], "weights are inverse squared errors")
        p = ctx.real("period", 0.5, 4)
        compare(ctx, st().weights_from_errors(D.given, period=p), shape, [D.w(i) * p * p / (st().PI2 * st().PI2) for i in np.ndindex(*shape)], "errors are fractions of the period")
        ctx.eq(D.given, e0, "arguments are left as they are")


def error(ctx, shape, axis, errors, t=False):
    D = Data(ctx, shape, errors, few=True)
    d0, e0 = D.d.copy(), None if D.given is None else D.given.copy()
    kw = {} if t else dict(t_value_corr=False)
    if errors is not None:
        kw["errors"] = D.given
    got = st().weighted_error(D.d, axis=axis, **kw)
    sh, gs = groups(shape, axis)
    exp = []
    for g in gs:
        m = mean_of(D, g)
        v = mean_of(D, g, lambda x: (x - m) * (x - m))
        if D.weighted:
            v = v + 1 / total([D.w(i) for i in g])
        n = size_of(D, g)
        s = vsqrt(v * (n / (n - 1)))
        if t:
            s = s * st().t_value_correction(n)
        exp.append(s)
    compare(ctx, got, sh, exp, "error of the mean: spread and errors, corrected for small samples")
    unchanged(ctx, D, d0, e0)


SH = (("vec", (3,), None), ("cols", (2, 3), 0), ("rows", (2, 2), 1), ("last", (2, 2), -1), ("all", (2, 2), None), ("both", (2, 2), (0, 1)))
CASES = [Case(f"mean-{n}-{e}", mean, shape=s, axis=a, errors=e) for n, s, a in SH for e in (None, "sym", "equal", "nan", "zero")]
CASES += [Case(f"nanmean-{n}-{e}", mean, shape=s, axis=a, errors=e, missing=m) for n, s, a, m in (("vec", (4,), None, ((1,),)), ("cols", (2, 3), 0, ((0, 0), (1, 2))), ("none", (3,), None, ())) for e in (None, "sym", "nan", "zero")]
CASES += [Case(f"rms-{n}-{e}", rms, shape=s, axis=a, errors=e) for n, s, a in SH[:3] for e in (None, "sym", "zero")]
CASES += [Case(f"nanrms-{e}", rms, shape=(2, 3), axis=0, errors=e, missing=((0, 0), (1, 2))) for e in (None, "sym")]
CASES += [Case(f"size-{n}-{e}", size, shape=s, axis=a, errors=e) for n, s, a in (("vec", (4,), None), ("one", (1,), None), ("cols", (3, 2), 0), ("rows", (2, 3), 1)) for e in (None, "sym", "equal")]
CASES += [Case(f"weights-{e}", weights, shape=(2, 2), errors=e) for e in (None, "sym", "nan", "zero")]
CASES += [Case(f"error-{n}-{e}{'-t' if t else ''}", error, shape=s, axis=a, errors=e, t=t) for n, s, a in (("vec", (3,), None), ("one", (1,), None), ("cols", (3, 2), 0), ("both", (1, 3), (0, 1))) for e in (None, "sym", "equal", "zero", "const") for t in (False, True) if not (t and e in ("equal", "sym") and n != "one")]
AX = (("rows", (2, 3), 1), ("last", (2, 3), -1), ("first", (3, 2), -2), ("mixed", (2, 2), (0, -1)), ("lastonly", (2, 3), (-1,)), ("cube", (2, 1, 2), (0, 2)), ("cubelast", (2, 1, 3), (-1, 1)), ("cubeall", (1, 2, 2), None))
CASES += [Case(f"error-{n}-{e}", error, shape=s, axis=a, errors=e) for n, s, a in AX for e in (None, "const", "zero")]
CASES += [Case(f"error-{n}-None-t", error, shape=s, axis=a, errors=None, t=True) for n, s, a in AX[:4]]
CASES += [Case(f"{f.__name__}-{n}-{e}", f, shape=s, axis=a, errors=e) for f in (mean, rms) for n, s, a in AX[2:] for e in (None, "sym")]
CASES += [Case(f"size-{n}-{e}", size, shape=s, axis=a, errors=e) for n, s, a in AX[1:7] for e in (None, "equal")]
CASES += [Case("nanmean-last-sym", mean, shape=(2, 3), axis=-1, errors="sym", missing=((0, 0), (1, 2))), Case("nanrms-mixed-None", rms, shape=(2, 2), axis=(0, -1), errors=None, missing=((1, 0),))]
