"""Applying errors: every registered uncertainty becomes an error within its cut-off; nothing else is touched."""
from props.common import *

BOUNDS = dict(elements="ring of 8 elements, <= 2 BPMs, <= 2 magnets, <= 2 cavities", uncertainties="arbitrary in [0,2]", cutoffs="default 2, explicit, per field",
              draws="arbitrary; up to 2 draws beyond the cut-off per run")
ASSUMPTIONS = ["random numbers are arbitrary reals; those beyond the cut-off are redrawn, the second draw being inside", "drift space exists when the circumference is scaled"]


def _ring():
    return new_SC(lattice([cavity("RF"), drift(), monitor("B1"), quad("Q1"), drift("D2"), monitor("B2"), dipole("Q2"), quad("Q3"), drift("D3")]))


def _bound(ctx, v, s, cut, label):
    a, b = np.ravel(v), np.broadcast_to(s, np.shape(v)).ravel() if W.MODE == "conc" else _bc(s, v)
    for x, y in zip(a, b):
        ctx.check(abs(x) <= cut * y + 1e-9, label)


def _bc(s, v):
    from sx import snp
    return list(np.broadcast_to(snp.plain(s), np.shape(v)).ravel()) if isinstance(s, np.ndarray) else [s] * int(np.prod(np.shape(v)) or 1)


def _pairs(v, s):
    from sx import snp
    vs = list(np.ravel(snp.plain(v) if W.MODE == "sym" else np.asarray(v)))
    if isinstance(s, np.ndarray):
        ss = list(np.ravel(snp.plain(s) if W.MODE == "sym" else s))
    else:
        ss = [s] * len(vs)
    return list(zip(vs, ss))


def sig(ctx, name, n):
    return ctx.real(name, 0.0625, 2) if n == 0 else ctx.reals(name, n, 0.0625, 2)


FIELDS = dict(
    BPM=dict(Offset=2, CalError=2, Roll=0, SumError=0, Noise=2, NoiseCO=2),
    RF=dict(VoltageOffset=0, VoltageCalError=0, FrequencyOffset=0, FrequencyCalError=0, TimeLagOffset=0, TimeLagCalError=0),
    Magnet=dict(MagnetOffset=3, MagnetRoll=3, CalErrorA=2, CalErrorB=2, BendingAngle=0))
REG = dict(BPM="register_bpms", RF="register_cavities", Magnet="register_magnets")


def setup(ctx, what, explicit):
    """what: kind -> (ordinates, fields); explicit: field -> cut-off"""
    SC = _ring()
    want = {}
    for kind, (ords, fields) in what.items():
        kw = {}
        for f in fields:
            s = sig(ctx, f"{kind}.{f}", FIELDS[kind][f])
            cut = explicit.get(f)
            kw[f] = s if cut is None else [s, cut]
            for o in ords:
                want[o, f] = (kind, s, cut)
        getattr(SC, REG[kind])(np.array(ords), **kw)
    return SC, want


def apply(ctx, what, explicit=(), nsigma=None, free=0, twice=False, extra=()):
    explicit = dict(explicit)
    SC, want = setup(ctx, what, explicit)
    for o in extra:
        SC.register_bpms(np.array([o]))
    if "Magnet" in what:
        for o in what["Magnet"][0]:
            symmag(ctx, SC.RING[o], f"m{o}")
    before = snap(SC)
    dflt = 2 if nsigma is None else nsigma
    inside = min([1.0, dflt] + [c for c in explicit.values()])
    for rep in range(2 if twice else 1):
        d = CutDraws(ctx, f"z{rep}.", n_free=free, inside=inside)
        with W.random(ctx, d):
            SC.apply_errors() if nsigma is None else SC.apply_errors(nsigma)
    allow, pairs = [], []
    for (o, f), (kind, s, cut) in want.items():
        attr = "BendingAngleError" if f == "BendingAngle" else f
        v = getattr(SC.RING[o], attr)
        if "Noise" in f:
            ctx.eq(v, s if cut is None else s * 1.0, "noise levels are applied as they are")
        else:
            ctx.check(np.shape(v) == np.shape(s), "one error per uncertainty component", f"{f}: {np.shape(v)}")
            _bound(ctx, v, s, dflt if cut is None else cut, "errors stay within the cut-off")
            pairs += _pairs(v, s)
        allow.append((o, attr))
    drawn(ctx, pairs, d.flat, "every error is its uncertainty times a random number of its own")
    for kind, (ords, fields) in what.items():
        for o in ords:
            if kind == "Magnet":
                allow += [(o, k) for k in ("PolynomA", "PolynomB", "SupportOffset", "SupportRoll", "T1", "T2", "R1", "R2", "MaxOrder")]
                e = SC.RING[o]
                for X in "AB":
                    p = getattr(e, "SetPoint" + X) * (1 + getattr(e, "CalError" + X))
                    if X == "B" and hasattr(e, "BendingAngleError"):
                        p = arr([p[0] + e.BendingAngleError * getattr(e, "BendingAngle", 0.0) / e.Length, p[1]])
                    ctx.eq(getattr(e, "Polynom" + X), p, "the fields follow the applied errors")
            if kind == "RF":
                allow += [(o, k) for k in ("Voltage", "Frequency", "TimeLag")]
                e = SC.RING[o]
                for k in ("Voltage", "Frequency", "TimeLag"):
                    p = getattr(e, k + "SetPoint")
                    got, w = getattr(e, k), p * (1 + getattr(e, k + "CalError")) + getattr(e, k + "Offset")
                    ctx.eq((got - w) / 1e6, 0.0, "the cavity follows the applied errors")
            if kind == "BPM":
                allow += [(o, k) for k in ("SupportOffset", "SupportRoll")]
    for (o, k) in allow:
        before["RING"][o].setdefault(k, None)
    for o in range(len(SC.RING)):
        if SC.RING[o].PassMethod == "DriftPass":
            ctx.eq(SC.RING[o].Length, before["RING"][o]["Length"], "no circumference error, no scaling")
    same_state(ctx, before, SC, "errors are applied only where uncertainties are registered", allow, parts=("RING", "IDEAL", "SIG", "ORD"))


def injection(ctx, nsigma, free):
    SC = _ring()
    SC.INJ.Z0ideal = ctx.reals("zi", 6, -2, 2)
    SC.INJ.Z0 = ctx.reals("z0", 6, -2, 2)
    SC.SIG.staticInjectionZ = ctx.reals("s", 6, 0.0625, 2)
    SC.SIG.randomInjectionZ = ctx.reals("r", 6, 0, 2)
    before = snap(SC)
    d = CutDraws(ctx, "z", n_free=free, inside=1.0)
    with W.random(ctx, d):
        SC.apply_errors() if nsigma is None else SC.apply_errors(nsigma)
    cut = 2 if nsigma is None else nsigma
    dz = SC.INJ.Z0 - SC.INJ.Z0ideal
    _bound(ctx, dz, SC.SIG.staticInjectionZ, cut, "static injection error within the cut-off")
    drawn(ctx, _pairs(dz, SC.SIG.staticInjectionZ), d.flat, "static injection errors are drawn per coordinate")
    ctx.eq(SC.INJ.randomInjectionZ, SC.SIG.randomInjectionZ, "random injection jitter is configured")
    for k in before["INJ"]:
        if k not in ("Z0", "randomInjectionZ", "postFun"):
            eq_val(ctx, before["INJ"][k], vars(SC.INJ)[k], "other injection settings stay")
    same_state(ctx, before, SC, "injection errors touch nothing else", parts=("RING", "IDEAL", "SIG", "ORD"))


def circumference(ctx, free):
    SC = _ring()
    s = ctx.real("sig", 0.0625, 0.125)
    SC.SIG.Circumference = s
    C0 = sum(getattr(e, "Length", 0.0) for e in SC.RING)
    before = snap(SC)
    d = CutDraws(ctx, "z", n_free=free, inside=1.0)
    with W.random(ctx, d):
        SC.apply_errors()
    C1 = 0.0
    for e in SC.RING:
        C1 = C1 + getattr(e, "Length", 0.0)
    rel = C1 / C0 - 1
    ctx.check(abs(rel) <= 2 * s + 1e-9, "circumference error within the cut-off")
    if W.MODE == "sym":
        ctx.check(_some([abs(rel - s * z) <= 1e-6 for z in d.flat]), "circumference error is drawn from its uncertainty")
    else:
        ctx.check(any(abs(rel - s * z) <= 1e-6 for z in d.flat), "circumference error is drawn from its uncertainty")
    same_state(ctx, before, SC, "only drifts are scaled", [(i, "Length") for i in (1, 4, 8)], parts=("RING", "IDEAL", "SIG", "ORD"))


def _some(bs):
    import z3
    return E.mkb(z3.Or(*[b.f if isinstance(b, E.B) else z3.BoolVal(bool(b)) for b in bs]))


def cutoff(ctx, shape, cut, free, vec):
    """the truncated generator itself: arbitrary draws, at most `free` of them outside"""
    c = ctx.real("cut", 0.5, 3) if cut is None else cut
    d = CutDraws(ctx, "z", n_free=free, inside=0.5)
    f = W.mod("pySC.utils.sc_tools").randnc
    with W.random(ctx, d):
        out = f(c, shape) if not vec else f(cut_off=c, shape=shape)
    ctx.check(np.shape(out) == tuple(shape), "requested shape")
    _bound(ctx, out, 1.0, c if cut is None or cut > 0 else -cut, "random numbers stay within the cut-off")
    drawn(ctx, _pairs(out, 1.0), d.flat, "random numbers are distinct draws")


ALLB, ALLR, ALLM = tuple(FIELDS["BPM"]), tuple(FIELDS["RF"]), ("MagnetOffset", "CalErrorA", "CalErrorB", "BendingAngle")
CASES = [
    Case("bpm-all", apply, what=dict(BPM=((2, 5), ALLB))),
    Case("bpm-some", apply, what=dict(BPM=((5,), ("Offset", "Roll"))), extra=(2,)),
    Case("bpm-cut", apply, what=dict(BPM=((2,), ("Offset",))), free=2),
    Case("bpm-cut-explicit", apply, what=dict(BPM=((2,), ("Offset", "CalError"))), explicit=dict(Offset=1.5), free=2),
    Case("bpm-cut-nsigma", apply, what=dict(BPM=((2,), ("Roll", "SumError"))), explicit=dict(Roll=3), nsigma=1, free=2),
    Case("bpm-twice", apply, what=dict(BPM=((2, 5), ("Offset", "Roll", "Noise"))), twice=True),
    Case("rf-all", apply, what=dict(RF=((0,), ALLR))),
    Case("rf-cut", apply, what=dict(RF=((0,), ("VoltageCalError", "TimeLagOffset"))), nsigma=1.25, free=2),
    Case("rf-cut-explicit", apply, what=dict(RF=((0,), ("VoltageOffset", "FrequencyOffset"))), explicit=dict(FrequencyOffset=3), free=2),
    Case("mag-all", apply, what=dict(Magnet=((6,), ("CalErrorA", "CalErrorB", "BendingAngle")))),
    Case("mag-cal", apply, what=dict(Magnet=((3, 6), ("CalErrorA", "CalErrorB")))),
    Case("mag-offset", apply, what=dict(Magnet=((3, 7), ("MagnetOffset",)))),
    Case("mag-cut", apply, what=dict(Magnet=((6,), ("CalErrorB", "BendingAngle"))), free=2),
    Case("mag-cut-explicit", apply, what=dict(Magnet=((6,), ("CalErrorB", "CalErrorA"))), explicit=dict(CalErrorA=1), nsigma=3, free=2),
    Case("mag-twice", apply, what=dict(Magnet=((3, 6), ("CalErrorB", "MagnetOffset"))), twice=True),
    Case("all-kinds", apply, what=dict(BPM=((2, 5), ("Offset",)), RF=((0,), ("VoltageOffset",)), Magnet=((3,), ("CalErrorB",)))),
    Case("injection", injection, nsigma=None, free=0),
    Case("injection-cut", injection, nsigma=None, free=2),
    Case("injection-nsigma", injection, nsigma=3, free=2),
    Case("circumference", circumference, free=0),
    Case("circumference-cut", circumference, free=1),
]
for sh in ((), (1,), (3,), (2, 2), (2, 1, 2)):
    CASES.append(Case(f"randnc-{'x'.join(map(str, sh)) or 'scalar'}", cutoff, shape=sh, cut=None, free=2, vec=False))
CASES += [Case("randnc-kw", cutoff, shape=(2,), cut=2, free=2, vec=True), Case("randnc-negative", cutoff, shape=(2,), cut=-2, free=2, vec=False),
          Case("randnc-deep", cutoff, quick=False, shape=(2, 3), cut=None, free=6, vec=False)]
