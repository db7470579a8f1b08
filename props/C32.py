"""verify_structure: accepts every consistent machine, rejects the inconsistent ones, changes nothing."""
from props.common import *

BOUNDS = dict(machine="10 elements; any selection of kinds registered, arbitrary set points, errors, limits and angles", tables="2 to 4 (thorough: 6) orders per table and magnet")
ASSUMPTIONS = ["offset tables come in pairs"]


def ring():
    return lattice([drift("D0"), quad("Q1", n=3), drift("D1"), corrector("C"), dipole("B", 1.0, 0.125, 0.5), drift("D2"), quad("Q2"), monitor("M"),
                    cavity("RF"), drift("D3")])


def machine(ctx, kinds, slaves=False, sup=("Girder",), cf=False, sig=False):
    SC = new_SC(ring())
    if "bpm" in kinds:
        SC.register_bpms(np.array([7]), **(dict(CalError=np.array([0.1, 0.1])) if sig else {}))
    if "mag" in kinds:
        kw = dict(MasterOf=np.array([[6]])) if slaves else {}
        if sig:
            kw["CalErrorB"] = np.array([0.0, 0.1])
        SC.register_magnets(np.array([1]), **kw)
    if "cm" in kinds:
        SC.register_magnets(np.array([3]), HCM=ctx.real("hlim", 0, 2), VCM=ctx.real("vlim", 0, 2))
    if "dip" in kinds:
        SC.register_magnets(np.array([4]), **(dict(CF=1, HCM=ctx.real("dlim", 0, 2)) if cf else dict(SkewQuad=1.0)))
    if "rf" in kinds:
        SC.register_cavities(np.array([8]), **(dict(VoltageOffset=1e3) if sig else {}))
    for s in sup:
        SC.register_supports(np.array([[0], [6]]), s, Offset=np.array([1e-4, 1e-4, 0.0]))
    for o in SC.ORD.Magnet:
        el = SC.RING[o]
        symmag(ctx, el, f"m{o}")
        el.NomPolynomB = ctx.reals(f"nom{o}", len(el.NomPolynomB), -1, 1)
        if hasattr(el, "BendingAngle"):
            el.BendingAngle = ctx.real(f"angle{o}", -1, 1)
    for o in SC.ORD.BPM:
        SC.RING[o].CalError = ctx.reals(f"cal{o}", 2, -1, 1)
    SC.INJ.beamSize = ctx.reals("bs", (6, 6), 0, 1)
    SC.SIG.randomInjectionZ = ctx.reals("rz", 6, 0, 1)
    SC.SIG.staticInjectionZ = ctx.reals("sz", 6, 0, 1)
    return SC


def accepted(ctx, kinds, **kw):
    SC = machine(ctx, kinds, **kw)
    before = snap(SC)
    try:
        SC.verify_structure()
    except E.Inconclusive:
        raise
    except Exception as e:
        ctx.check(False, "a consistent machine is accepted", f"{type(e).__name__}: {e}")
        return
    ctx.reach("accepted")
    ctx.check(True, "a consistent machine is accepted")
    same_state(ctx, before, SC, "the check changes nothing")


def attempt(ctx, SC, bad):
    """rejected exactly when bad"""
    before = snap(SC)
    try:
        SC.verify_structure()
        raised = None
    except E.Inconclusive:
        raise
    except ValueError as e:
        raised = e
    ctx.reach("rejected" if bad else "accepted")
    ctx.check((raised is not None) == bad, "rejected exactly if inconsistent", f"bad: {bad}, raised: {raised!r}")
    same_state(ctx, before, SC, "the check changes nothing")


def lengths(ctx, what, o=1, top=3):
    """any two lengths of the tables that belong together, everything else consistent"""
    SC = machine(ctx, ("bpm", "mag", "cm", "dip", "rf"), cf=True)
    el = SC.RING[o]
    n, m = 2 + ctx.choose(what + ".n", top), 2 + ctx.choose(what + ".m", top)
    a, b = ctx.reals("ta", n, -1, 1), ctx.reals("tb", m, -1, 1)
    if what == "poly":
        el.PolynomA, el.PolynomB = a, b
    elif what == "spB":
        el.SetPointB, el.CalErrorB = a, b
    elif what == "spA":
        el.SetPointA, el.CalErrorA = a, b
    else:
        el.PolynomAOffset, el.PolynomBOffset = a, b
    attempt(ctx, SC, n != m)


def bending(ctx):
    SC = machine(ctx, ("mag", "dip"), cf=True)
    SC.RING[1].CombinedFunction = ctx.flag("cf1")
    SC.RING[4].CombinedFunction = ctx.flag("cf4")
    gone = ctx.flag("no angle")
    if gone:
        del SC.RING[4].BendingAngle
    bad = SC.RING[1].CombinedFunction or (gone and SC.RING[4].CombinedFunction)
    ctx.check(not hasattr(SC.RING[1], "BendingAngle"), "a quadrupole has no bending angle")
    attempt(ctx, SC, bool(bad))


def supports(ctx):
    have = [t for t in ("Section", "Plinth", "Girder") if ctx.flag(t)]
    SC = machine(ctx, ("mag",), sup=have)
    attempt(ctx, SC, bool(have) and "Girder" not in have)


def shapes(ctx, what):
    SC = machine(ctx, ("mag", "bpm"))
    shapes_ = [(6, 6), (6,), (5, 5), (6, 5), (1, 6), (5,), (7,), (36,)]
    shp = shapes_[ctx.choose("shape", len(shapes_))]
    v = ctx.reals("v", shp, 0, 1)
    if what == "beamSize":
        SC.INJ.beamSize = v
    else:
        SC.SIG[what] = v
    attempt(ctx, SC, shp != ((6, 6) if what == "beamSize" else (6,)))


def unusual(ctx, what):
    """odd but not inconsistent"""
    SC = machine(ctx, ALL, sig=True)
    if what == "twice":
        SC.ORD.BPM, SC.ORD.HCM, SC.ORD.VCM, SC.ORD.RF = np.array([7, 7]), np.array([3, 3]), np.array([3, 3]), np.array([8, 8])
    elif what == "order":
        SC.ORD.Magnet, SC.ORD.BPM = np.array([4, 1, 3]), np.array([7, 2])
        SC.RING[2].CalError = ctx.reals("cal2", 2, -1, 1)
    elif what == "fields":
        for o in SC.ORD.Magnet:
            SC.SIG.Magnet[o].update(NoSuchField=ctx.real(f"no{o}", 0, 1))
        for o in SC.ORD.RF:
            SC.SIG.RF[o].update(NoSuchOffset=ctx.real(f"no{o}", 0, 1))
        for o in SC.ORD.BPM:
            SC.SIG.BPM[o].update(NoSuchOffset=ctx.real(f"no{o}", 0, 1))
    elif what == "apertures":
        SC.RING[2].EApertures = ctx.reals("ea", 2, 0, 1)
        SC.RING[2].RApertures = ctx.reals("ra", 4, -1, 1)
        SC.RING[5].RApertures = ctx.reals("rb", 4, -1, 1)
    attempt(ctx, SC, False)


ALL = ("bpm", "mag", "cm", "dip", "rf")
CASES = [Case("none", accepted, kinds=(), sup=())]
for k in ALL:
    CASES.append(Case(f"only-{k}", accepted, kinds=(k,)))
    CASES.append(Case(f"without-{k}", accepted, kinds=tuple(x for x in ALL if x != k)))
CASES += [
    Case("all", accepted, kinds=ALL, sup=("Girder", "Plinth", "Section")),
    Case("all-cf", accepted, kinds=ALL, cf=True, sup=("Girder", "Plinth")),
    Case("all-sig", accepted, kinds=ALL, cf=True, sig=True),
    Case("slaves", accepted, kinds=("mag",), slaves=True),
    Case("slaves-all", accepted, kinds=ALL, slaves=True, cf=True, sig=True),
    Case("bending", bending),
    Case("supports", supports),
]
for w in ("poly", "spA", "spB", "offset"):
    CASES.append(Case(f"lengths-{w}", lengths, what=w))
    CASES.append(Case(f"lengths-{w}-cm", lengths, what=w, o=3))
    CASES.append(Case(f"lengths-{w}-deep", lengths, quick=False, what=w, o=4, top=5))
for w in ("beamSize", "randomInjectionZ", "staticInjectionZ"):
    CASES.append(Case(f"shape-{w}", shapes, what=w))

for w in ("twice", "order", "fields", "apertures"):
    CASES.append(Case(f"unusual-{w}", unusual, what=w))
