"""Magnet setpoints: absolute / relative-to-nominal / additive requests, skew limit, isolation, dipole compensation."""
from props.common import *

BOUNDS = dict(elements="ring of <= 6 elements, up to 2 magnets addressed at once (3 in the thorough tier)", setpoints="[-4,4]", orders="0..2",
              limits="(0,3]", calibration="[-0.5,0.5]")
ASSUMPTIONS = ["addressed ordinates are distinct", "skew limits are non-negative, as registered",
               "dipole compensation: non-zero design gradient, bending angle and length"]


def setmag(ctx, kinds, skew, order, method, limited, form="array"):
    mk = {"q": lambda i: quad(f"Q{i}", 0.5, n=3), "s": lambda i: sext(f"S{i}"), "c": lambda i: corrector(f"C{i}")}
    el = [drift()] + [mk[k](i) for i, k in enumerate(kinds)] + [drift("D2"), quad("BY", n=3)]
    SC = new_SC(lattice(el))
    ords = list(range(1, len(kinds) + 1))
    by = len(kinds) + 2
    lim = {}
    for o in ords:
        if limited:
            lim[o] = ctx.real(f"lim{o}", 0.0, 3)
            SC.register_magnets(np.array([o]), SkewQuad=lim[o])
        else:
            SC.register_magnets(np.array([o]))
    SC.register_magnets(np.array([by]), HCM=1.0)
    for o in ords + [by]:
        e = SC.RING[o]
        symmag(ctx, e, f"m{o}")
        e.NomPolynomA = ctx.reals(f"nomA{o}", len(e.NomPolynomA), -2, 2)
        e.NomPolynomB = ctx.reals(f"nomB{o}", len(e.NomPolynomB), -2, 2)
    SC.update_magnets()
    before = snap(SC)
    if form == "int":
        x = [ctx.choose(f"n{i}", 4) - 1 for i in range(len(ords))]
        arg = x if len(x) > 1 else x[0]
    elif form == "scalar":
        x = [ctx.real("x")] * len(ords)
        arg = x[0]
    else:
        x = [ctx.real(f"x{i}") for i in range(len(ords))]
        arg = arr(x) if form == "array" else list(x)
    o_arg = (ords[0] if len(ords) == 1 else list(ords)) if form in ("scalar", "list", "int") else np.array(ords)
    rev = form == "reversed"
    if rev:
        o_arg, arg = np.array(ords[::-1]), arr(x[::-1])
    keep = arg.copy() if isinstance(arg, np.ndarray) else None
    SC.set_magnet_setpoints(o_arg, arg, skew, order, method)
    if keep is not None:
        ctx.eq(arg, keep, "the caller's setpoints are left alone")
    L = "A" if skew else "B"
    allow = []
    for v, o in zip(x, ords):
        e, b = SC.RING[o], before["RING"][o]
        want = {"abs": v, "rel": v * b["NomPolynom" + L][order], "add": v + b["SetPoint" + L][order]}[method]
        if limited and skew and order == 1:
            want = clipsym(want, lim[o])
            ctx.check(abs(getattr(e, "SetPoint" + L)[order]) <= lim[o] + 1e-9, "skew setpoint within its limit")
        sp = getattr(e, "SetPoint" + L)
        ctx.eq(sp[order], want, "setpoint equals the request")
        for k in range(len(sp)):
            if k != order:
                ctx.eq(sp[k], b["SetPoint" + L][k], "other orders keep their setpoint")
            ctx.eq(getattr(e, "Polynom" + L)[k], sp[k] * (1 + b["CalError" + L][k]), "field follows the setpoint")
        allow += [(o, "SetPoint" + L), (o, "Polynom" + L), (o, "KickAngle")]
    same_state(ctx, before, SC, "only the addressed component changes", allow)


def compensation(ctx, method, hcm, bend, limited):
    """changing the gradient of a combined-function bend with dipole compensation keeps its dipole field"""
    SC = new_SC(lattice([drift(), dipole("B", 1.0, 0.125, 0.75), drift("D2"), dipole("B2", 1.0, 0.125, 0.75)]))
    lim = ctx.real("lim", 0.0, 3) if limited else 1000.0
    if hcm:
        SC.register_magnets(np.array([1, 3]), HCM=lim, CF=1)
    else:
        SC.register_magnets(np.array([1, 3]), CF=1)
    e = SC.RING[1]
    e.Length = ctx.real("len", 0.25, 2)
    e.BendingAngle = ctx.real("theta", -1, 1) if bend else 0.0
    e.NomPolynomB = arr([0.0, ctx.real("nom", -2, 2)])
    ctx.assume(abs(e.NomPolynomB[1]) >= 0.25)
    if bend:
        ctx.assume(abs(e.BendingAngle) >= 0.0625)
    e.SetPointB = ctx.reals("sp", 2, -2, 2)
    if limited:
        ctx.assume(abs(e.SetPointB[0] * e.Length) <= lim)
    SC.update_magnets()
    before = snap(SC)
    v = ctx.real("x")
    SC.set_magnet_setpoints(np.array([1]), arr([v]), False, 1, method, dipole_compensation=True)
    b = before["RING"][1]
    want = {"abs": v, "rel": v * b["NomPolynomB"][1], "add": v + b["SetPointB"][1]}[method]
    ctx.eq(e.SetPointB[1], want, "gradient setpoint equals the request")
    if hcm and bend:
        if limited:
            old = -b["SetPointB"][0] * e.Length
            step = (want - b["SetPointB"][1]) / b["NomPolynomB"][1] * e.BendingAngle
            ctx.eq(-e.SetPointB[0] * e.Length, clipsym(old + step, lim), "compensating corrector obeys its limit")
        else:
            ctx.eq(e.PolynomB[0], b["PolynomB"][0], "dipole field is compensated")
    else:
        ctx.eq(e.SetPointB[0], b["SetPointB"][0], "no corrector, no compensation")
    same_state(ctx, before, SC, "only the addressed magnet changes", [(1, "SetPointB"), (1, "PolynomB")])


def nocomp(ctx, order):
    """without dipole compensation, or for other orders, the corrector setpoint is left alone"""
    SC = new_SC(lattice([drift(), at_dip3(), drift("D2")]))
    SC.register_magnets(np.array([1]), HCM=1.0)
    e = SC.RING[1]
    symmag(ctx, e, "m")
    SC.update_magnets()
    before = snap(SC)
    SC.set_magnet_setpoints(1, ctx.real("x"), False, order, "abs", dipole_compensation=order != 1)
    for k in range(3):
        if k != order:
            ctx.eq(e.SetPointB[k], before["RING"][1]["SetPointB"][k], "other orders keep their setpoint")
    same_state(ctx, before, SC, "only the addressed magnet changes", [(1, "SetPointB"), (1, "PolynomB")])


def at_dip3():
    import at
    return at.Dipole("B", 1.0, 0.125, 0.75, PolynomB=[0.0, 0.75, 0.5], PolynomA=[0.0, 0.0, 0.0])


CASES = []
for m in ("abs", "rel", "add"):
    for sk in (False, True):
        t = "A" if sk else "B"
        for o in (0, 1, 2):
            CASES.append(Case(f"{m}-{t}{o}-qs", setmag, kinds="qs", skew=sk, order=o, method=m, limited=True))
            CASES.append(Case(f"{m}-{t}{o}-sq-nolim", setmag, kinds="sq", skew=sk, order=o, method=m, limited=False, form="reversed"))
            CASES.append(Case(f"{m}-{t}{o}-scalar", setmag, kinds="qs", skew=sk, order=o, method=m, limited=True, form="scalar"))
            CASES.append(Case(f"{m}-{t}{o}-list1", setmag, kinds="q", skew=sk, order=o, method=m, limited=True, form="list"))
            CASES.append(Case(f"{m}-{t}{o}-int", setmag, kinds="q", skew=sk, order=o, method=m, limited=True, form="int"))
            CASES.append(Case(f"{m}-{t}{o}-deep3", setmag, quick=False, kinds="qsq", skew=sk, order=o, method=m, limited=True))
    for hcm in (True, False):
        for bend in (True, False):
            CASES.append(Case(f"comp-{m}-{hcm}-{bend}", compensation, method=m, hcm=hcm, bend=bend, limited=False))
    CASES.append(Case(f"comp-{m}-limit", compensation, method=m, hcm=True, bend=True, limited=True))
CASES += [Case(f"nocomp-{o}", nocomp, order=o) for o in (0, 1, 2)]
