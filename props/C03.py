"""Corrector setpoints: absolute / relative / additive requests, length & sign convention, clipping, isolation, round trip."""
from props.common import *

BOUNDS = dict(elements="ring of 6 elements, up to 2 correctors addressed at once", setpoints="[-4,4]", calibration="[-0.5,0.5]",
              limits="(0,3]", length="(0,2] (thick), CorrectorPass", polynomial_orders="<= 3")
ASSUMPTIONS = ["addressed ordinates are distinct", "corrector limits are non-negative, as registered",
               "magnet lengths are positive for non-CorrectorPass elements"]


def _mk(ctx, kinds):
    """drift / mags / drift / bystander"""
    el = [drift()]
    for i, k in enumerate(kinds):
        el.append({"q": lambda: quad(f"Q{i}", 0.5), "c": lambda: corrector(f"C{i}"), "s": lambda: sext(f"S{i}")}[k]())
    el += [drift("D2"), quad("BY", 0.5)]
    SC = new_SC(lattice(el))
    n = len(kinds)
    return SC, list(range(1, n + 1)), n + 2


def _limits(ctx, SC, ords, dims):
    lim = {}
    for o in ords:
        kw = {}
        for d in dims:
            lim[o, d] = ctx.real(f"lim{o}.{d}", 0.0, 3)
        if 0 in dims:
            kw["HCM"] = lim[o, 0]
        if 1 in dims:
            kw["VCM"] = lim[o, 1]
        SC.register_magnets(np.array([o]), **kw)
    return lim


def setcm(ctx, kinds, skew, method, limited, form="array"):
    SC, ords, by = _mk(ctx, kinds)
    dim = 1 if skew else 0
    L = "A" if skew else "B"
    if limited:
        lim = _limits(ctx, SC, ords, (0, 1))
    else:
        SC.register_magnets(np.array(ords))
        lim = {}
    SC.register_magnets(np.array([by]))
    for o in ords + [by]:
        symmag(ctx, SC.RING[o], f"m{o}")
        if SC.RING[o].PassMethod != "CorrectorPass":
            SC.RING[o].Length = ctx.real(f"len{o}", 0.0625, 2)
    SC.update_magnets()
    before = snap(SC)
    x = [ctx.real(f"x{i}") for i in range(len(ords))] if form != "int" else None
    if form == "int":
        x = [ctx.choose(f"n{i}", 4) - 1 for i in range(len(ords))]
        arg = x if len(x) > 1 else x[0]
    elif form == "scalar":
        x = [x[0]] * len(ords)
        arg = x[0]
    elif form == "list":
        arg = list(x)
    else:
        arg = arr(x)
    o_arg = ords[0] if form == "scalar" and len(ords) == 1 else (list(ords) if form == "list" else np.array(ords))
    kept = copy.deepcopy(arg) if isinstance(arg, (np.ndarray, list)) else arg
    SC.set_cm_setpoints(o_arg, arg, skew, method)
    ctx.eq(arg, kept, "arguments are left unmodified")
    allow = []
    for i, o in enumerate(ords):
        el = SC.RING[o]
        norm = 1.0 if el.PassMethod == "CorrectorPass" else (1.0 if skew else -1.0) * el.Length
        old = before["RING"][o][f"SetPoint{L}"][0] * norm
        want = {"abs": x[i], "rel": x[i] * old, "add": x[i] + old}[method]
        got = SC.get_cm_setpoints(o, skew)
        ctx.eq(len(np.atleast_1d(got)), 1, "one value per ordinate")
        if limited:
            ctx.check(abs(got[0]) <= lim[o, dim] + 1e-9, "setpoint within the corrector limit")
            want = clipsym(want, lim[o, dim])
        ctx.eq(got[0], want, "effective strength equals the request")
        sp = getattr(el, f"SetPoint{L}")
        ctx.eq(sp[0] * norm, want, "stored setpoint follows the length and sign convention")
        ctx.eq(sp[1:], before["RING"][o][f"SetPoint{L}"][1:], "other multipole orders untouched")
        ctx.eq(getattr(el, f"Polynom{L}")[0], sp[0] * (1 + getattr(el, f"CalError{L}")[0]), "field follows the setpoint")
        allow += [(o, f"SetPoint{L}"), (o, f"Polynom{L}"), (o, "KickAngle")]
    same_state(ctx, before, SC, "nothing but the addressed dipole component changes", allow)


def roundtrip(ctx, kind, skew):
    SC, ords, by = _mk(ctx, kind)
    SC.register_magnets(np.array(ords), HCM=3.0, VCM=2.0)
    for o in ords:
        symmag(ctx, SC.RING[o], f"m{o}")
        if SC.RING[o].PassMethod != "CorrectorPass":
            SC.RING[o].Length = ctx.real(f"len{o}", 0.0625, 2)
    SC.update_magnets()
    sp = SC.get_cm_setpoints(np.array(ords), skew)
    lim = 2.0 if skew else 3.0
    for v in sp:
        ctx.assume(abs(v) <= lim)
    before = snap(SC)
    SC.set_cm_setpoints(np.array(ords), sp, skew)
    same_state(ctx, before, SC, "writing back what was read changes nothing")
    y = [ctx.real(f"y{i}", -2, 2) for i in range(len(ords))]
    SC.set_cm_setpoints(np.array(ords), arr(y), skew)
    ctx.eq(SC.get_cm_setpoints(np.array(ords), skew), y, "reading returns what was written")
    SC.set_cm_setpoints(np.array(ords), arr(y), skew, "add")
    SC.set_cm_setpoints(np.array(ords), -1 * arr(y), skew, "add")
    ctx.check([abs(2 * v) > lim or abs(g - v) <= 1e-9 for v, g in zip(y, SC.get_cm_setpoints(np.array(ords), skew))]
              if W.MODE == "conc" else
              [(abs(2 * v) > lim) | (abs(g - v) <= 1e-9) for v, g in zip(y, SC.get_cm_setpoints(np.array(ords), skew))],
              "adding and removing a step returns to the start")


def corrector_kick(ctx):
    SC, ords, by = _mk(ctx, "c")
    SC.register_magnets(np.array(ords), HCM=3.0, VCM=3.0)
    symmag(ctx, SC.RING[1], "m")
    h, v = ctx.real("h", -3, 3), ctx.real("v", -3, 3)
    SC.set_cm_setpoints(1, h, False)
    SC.set_cm_setpoints(1, v, True)
    el = SC.RING[1]
    ctx.eq(el.KickAngle, arr([h * (1 + el.CalErrorB[0]), v * (1 + el.CalErrorA[0])]), "kick angles follow both planes")


def child(ctx, skew):
    SC, ords, by = _mk(ctx, "qq")
    SC.register_magnets(np.array([1]), HCM=2.0, VCM=2.0, MasterOf=np.array([[2]]))
    symmag(ctx, SC.RING[1], "m")
    before = snap(SC)
    SC.set_cm_setpoints(1, ctx.real("x"), skew)
    for a in "AB":
        ctx.eq(getattr(SC.RING[2], "Polynom" + a), getattr(SC.RING[1], "Polynom" + a), "slave magnet follows its master")
    same_ring(ctx, before["RING"], SC.RING, "only master and slave change", [(1, None), (2, "PolynomA"), (2, "PolynomB")])


CASES = []
for m in ("abs", "rel", "add"):
    for sk in (False, True):
        for lim in (False, True):
            CASES.append(Case(f"{m}-{'V' if sk else 'H'}-{'lim' if lim else 'nolim'}-qc", setcm, kinds="qc", skew=sk, method=m, limited=lim))
        CASES.append(Case(f"{m}-{'V' if sk else 'H'}-list-qs", setcm, kinds="qs", skew=sk, method=m, limited=True, form="list"))
        CASES.append(Case(f"{m}-{'V' if sk else 'H'}-scalar-q", setcm, kinds="q", skew=sk, method=m, limited=True, form="scalar"))
        CASES.append(Case(f"{m}-{'V' if sk else 'H'}-scalar-cq", setcm, kinds="cq", skew=sk, method=m, limited=True, form="scalar"))
        CASES.append(Case(f"{m}-{'V' if sk else 'H'}-int-q", setcm, kinds="q", skew=sk, method=m, limited=True, form="int"))
        CASES.append(Case(f"{m}-{'V' if sk else 'H'}-3-deep", setcm, quick=False, kinds="qcq", skew=sk, method=m, limited=True))
for sk in (False, True):
    CASES.append(Case(f"roundtrip-{'V' if sk else 'H'}", roundtrip, kind="qc", skew=sk))
    CASES.append(Case(f"slave-{'V' if sk else 'H'}", child, skew=sk))
CASES.append(Case("kick", corrector_kick))
