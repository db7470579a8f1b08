"""Registration: exactly the requested elements become known, with their design set points, no errors and the given uncertainties."""
from props.common import *

BOUNDS = dict(elements="<= 4 candidate elements per kind", calls="<= 2 successive registrations of <= 2 arbitrary ordinates each (any order, repeated)",
              values="uncertainties, limits and strengths arbitrary")
ASSUMPTIONS = ["structures of one type registered with distinct end points", "slave tables have one column per registered master"]

CAND = dict(BPM=(1, 4, 7), RF=(0, 5, 9), Magnet=(2, 3, 6, 8))
REG = dict(BPM="register_bpms", RF="register_cavities", Magnet="register_magnets")


def _ring(ctx):
    SC = new_SC(lattice([cavity("R0"), monitor("B1"), quad("Q2"), corrector("C3"), monitor("B4"), cavity("R5", V=2e6, lag=0.5),
                         dipole("D6"), monitor("B7"), sext("S8"), cavity("R9", f=4e8)]))
    for o, n in ((2, 2), (6, 2), (8, 3)):
        SC.RING[o].PolynomB = ctx.reals(f"pb{o}", n, -2, 2)
        SC.RING[o].PolynomA = ctx.reals(f"pa{o}", n, -2, 2)
    for o in (0, 5, 9):
        SC.RING[o].Voltage = ctx.real(f"V{o}", 1, 4)
        SC.RING[o].TimeLag = ctx.real(f"T{o}", -1, 1)
    return SC


ZERO = dict(BPM=dict(Noise=2, NoiseCO=2, Offset=2, SupportOffset=2, Roll=0, SupportRoll=0, CalError=2, SumError=0),
            RF={p + f: 0 for p in ("Voltage", "Frequency", "TimeLag") for f in ("Offset", "CalError")},
            Magnet=dict(MagnetOffset=3, MagnetRoll=3, SupportOffset=3, SupportRoll=3, T1=6, T2=6))
KW = dict(BPM=("Noise", "Offset", "Roll"), RF=("VoltageOffset", "TimeLagCalError"), Magnet=("MagnetOffset", "CalErrorB"))
SIZE = dict(Noise=2, Offset=2, Roll=0, VoltageOffset=0, TimeLagCalError=0, MagnetOffset=3, CalErrorB=2)


def zero(n):
    return 0.0 if n == 0 else zeros(n)


def check_element(ctx, kind, el, before):
    for k, n in ZERO[kind].items():
        ctx.eq(getattr(el, k), zero(n), "registered elements start without errors", )
    if kind == "RF":
        for p in ("Voltage", "Frequency", "TimeLag"):
            ctx.eq(getattr(el, p + "SetPoint"), before[p], "set points are the present values")
            ctx.eq(getattr(el, p), before[p], "registration leaves the fields alone")
    if kind == "Magnet":
        for X in "AB":
            p = before["Polynom" + X]
            ctx.eq(getattr(el, "NomPolynom" + X), p, "design strengths are the present values")
            ctx.eq(getattr(el, "SetPoint" + X), p, "set points are the present values")
            ctx.eq(getattr(el, "CalError" + X), zeros(len(p)), "registered elements start without errors")
            ctx.eq(getattr(el, "Polynom" + X), p, "registration leaves the fields alone")


def uncertainty(ctx, tag, field, form):
    s = ctx.real(tag, 0, 2) if SIZE[field] == 0 else ctx.reals(tag, SIZE[field], 0, 2)
    return s if form == "plain" else [s, 1.5]


def same_sigma(ctx, got, want, label):
    if isinstance(want, list):
        ctx.check(isinstance(got, (list, tuple)) and len(got) == 2 and got[1] == want[1], label, f"{got!r}")
        got, want = got[0], want[0]
    ctx.eq(got, want, label)


def register(ctx, kind, plan, other=False):
    """plan: list of (number of ordinates, fields) per call; ordinates arbitrary among the candidates"""
    SC = _ring(ctx)
    cand = CAND[kind]
    if other:   # the other kinds are registered already and stay as they are
        for k in CAND:
            if k != kind:
                getattr(SC, REG[k])(np.array(CAND[k][:2]))
    before = snap(SC)
    known, sig = set(), {}
    for c, (n, fields) in enumerate(plan):
        ords = [cand[ctx.choose(f"o{c}.{i}", len(cand))] for i in range(n)]
        kw = {}
        for f in fields:
            form = "list" if f.endswith("!") else "plain"
            kw[f.rstrip("!")] = uncertainty(ctx, f"s{c}.{f}", f.rstrip("!"), form)
        given = np.array(ords)
        getattr(SC, REG[kind])(given, **kw)
        ctx.eq(given, np.array(ords), "the caller's ordinates are left alone")
        known |= set(ords)
        for o in ords:
            sig.setdefault(o, {}).update(kw)
    o = list(SC.ORD[kind])
    ctx.check(o == sorted(known), "the list is sorted, complete and free of duplicates", f"{o} {known}")
    ctx.check(set(SC.SIG[kind]) == known | set(before["SIG"][kind]), "uncertainties are kept per registered element")
    for e in known:
        check_element(ctx, kind, SC.RING[e], before["RING"][e])
        ctx.check(set(SC.SIG[kind][e]) == set(sig[e]), "exactly the given uncertainties", f"{SC.SIG[kind][e]}")
        for f, v in sig[e].items():
            same_sigma(ctx, SC.SIG[kind][e][f], v, "uncertainties as given, the latest counts")
    before["ORD"].pop(kind)
    before["SIG"].pop(kind)
    same_ring(ctx, before["RING"], SC.RING, "other elements are left alone", [(e, None) for e in known])
    same_ring(ctx, before["IDEAL"], SC.IDEALRING, "the ideal ring is left alone")
    for P in ("ORD", "SIG"):
        for k in before[P]:
            eq_val(ctx, before[P][k], SC[P][k] if False else getattr(SC, P)[k], "other registrations are left alone")


def magnet_types(ctx, first, second):
    """corrector planes, skew quadrupoles and combined-function flags of up to two registrations"""
    SC = _ring(ctx)
    want = dict(HCM=set(), VCM=set(), SkewQuad=set())
    lim, skew, cf, reg = {}, {}, set(), set()
    for c, spec in enumerate((first, second)):
        if spec is None:
            continue
        ords = [CAND["Magnet"][ctx.choose(f"o{c}.{i}", 4)] for i in range(2 - c)]
        kw = {k: True if k == "CF" else ctx.real(f"lim{c}.{k}", 0, 2) for k in spec}
        SC.register_magnets(np.array(ords), **kw)
        for o in ords:
            reg.add(o)
            for k, v in kw.items():
                if k == "CF":
                    cf.add(o)
                    continue
                want[k].add(o)
                if k == "SkewQuad":
                    skew[o] = v
                else:
                    lim.setdefault(o, [0.0, 0.0])["HV".index(k[0])] = v
    for k in want:
        ctx.check(list(SC.ORD[k]) == sorted(want[k]), f"{k} list", f"{SC.ORD[k]} {want[k]}")
    ctx.check(list(SC.ORD.Magnet) == sorted(reg), "magnet list")
    ctx.check(list(SC.ORD.CM[0]) == sorted(want["HCM"]) and list(SC.ORD.CM[1]) == sorted(want["VCM"]), "corrector lists")
    for o in reg:
        e = SC.RING[o]
        ctx.check(hasattr(e, "CMlimit") == (o in lim), "corrector limits only for correctors")
        if o in lim:
            ctx.eq(e.CMlimit, arr(lim[o]), "corrector limits per plane")
        ctx.check(hasattr(e, "SkewQuadLimit") == (o in skew), "skew limits only for skew quadrupoles")
        if o in skew:
            ctx.eq(e.SkewQuadLimit, skew[o], "skew quadrupole limit")
        ctx.check(bool(getattr(e, "CombinedFunction", False)) == (o in cf), "combined-function flag")
        ctx.check(not set(SC.SIG.Magnet[o]) & {"HCM", "VCM", "SkewQuad", "CF", "MasterOf"}, "types are not uncertainties")


def slaves(ctx, n, rows):
    SC = _ring(ctx)
    ms = [CAND["Magnet"][ctx.choose(f"m{i}", 4)] for i in range(n)]
    ctx.assume(len(set(ms)) == n)
    tab = np.array([[10 * r + j for j in range(n)] for r in range(rows)]) % 10
    SC.register_magnets(np.array(ms), MasterOf=tab)
    for j, m in enumerate(ms):
        ctx.check(list(SC.RING[m].MasterOf) == list(tab[:, j]), "slaves are the master's column of the table", f"{SC.RING[m].MasterOf}")
    for o in CAND["Magnet"]:
        if o not in ms:
            ctx.check(not hasattr(SC.RING[o], "MasterOf"), "others have no slaves")


def supports(ctx, t, other, pairs1, pairs2, kw1, kw2):
    """two registrations of structures of type t, after one of another type sharing end points"""
    SC = new_SC(lattice([marker(f"M{i}") if i % 2 == 0 else drift(f"D{i}") for i in range(13)]))
    want, sig, i = set(), {}, 0
    for T, prs, kws in ((other, [(0, 4)], ("Offset",)), (t, pairs1, kw1), (t, pairs2, kw2)):
        if prs is None:
            continue
        kw, parts = {}, {}
        for f in kws:
            two, cut = "2" in f, "!" in f
            name = f.rstrip("!2")
            v = ctx.reals(f"s{i}.{f}", (2, 3) if two else 3, 0, 2)
            kw[name] = [v, 1.5] if cut else v
            parts[name] = [([v[k] if two else v, 1.5] if cut else (v[k] if two else v)) if (two or k == 0) else None for k in (0, 1)]
        before = snap(SC)
        P = np.array(prs).T
        SC.register_supports(P, T, **kw)
        ctx.eq(P, np.array(prs).T, "the caller's ordinates are left alone")
        for a, b in prs:
            for e in (a, b):
                sig[e] = {k: v for k, v in sig.get(e, {}).items() if not k.startswith(T)}
                ctx.eq(getattr(SC.RING[e], T + "Offset"), zeros(3), "structures start without errors")
                ctx.eq(getattr(SC.RING[e], T + "Roll"), zeros(3), "structures start without errors")
        for a, b in prs:
            for name, (x, y) in parts.items():
                sig[a][T + name] = x
                if y is not None:
                    sig[b][T + name] = y
        if T == t:
            want |= set(prs)
        same_ring(ctx, before["RING"], SC.RING, "only the end points are touched",
                  [(e, T + k) for p in prs for e in p for k in ("Offset", "Roll")])
        i += 1
    got = [tuple(int(v) for v in c) for c in np.asarray(SC.ORD[t]).T]
    ctx.check(len(got) == len(set(got)) and set(got) == want, "every structure is listed once", f"{got}")
    ctx.check([tuple(int(v) for v in c) for c in np.asarray(SC.ORD[other]).T] == [(0, 4)], "structures of other types stay")
    for e in sig:
        ctx.check(set(SC.SIG.Support.get(e, {})) == set(sig[e]), "exactly the given uncertainties, other types' ones stay",
                  f"{e}: {SC.SIG.Support.get(e)} {sig[e]}")
        for k, v in sig[e].items():
            if k in SC.SIG.Support.get(e, {}):
                same_sigma(ctx, SC.SIG.Support[e][k], v, "uncertainties of start and end as given")


def build(ctx):
    """the machine is a copy of the given ring: changing one leaves the others alone"""
    r = lattice([quad("Q"), drift("D"), monitor("B"), quad("Q2")])
    x = ctx.reals("p", 2, -2, 2)
    r[0].PolynomB = x
    shared = r[3] = r[0]   # the same element object twice
    SC = new_SC(r)
    same_ring(ctx, snap_ring(r), SC.RING, "the machine starts as the given ring")
    same_ring(ctx, snap_ring(r), SC.IDEALRING, "the ideal ring is the given ring")
    y = ctx.reals("y", 2, -2, 2)
    SC.RING[0].PolynomB[0] = y[0]
    SC.RING[0].Length = y[1]
    ctx.eq(SC.RING[3].PolynomB, x, "elements of the machine are independent of each other")
    ctx.eq(SC.IDEALRING[0].PolynomB, x, "the ideal ring is independent of the machine")
    ctx.eq(r[0].PolynomB, x, "the given ring is independent of the machine")
    ctx.eq(r[0].Length, 0.5, "the given ring is independent of the machine")
    SC.IDEALRING[0].PolynomB[1] = y[1]
    ctx.eq(SC.IDEALRING[3].PolynomB, x, "elements of the ideal ring are independent of each other")
    ctx.eq(SC.RING[3].PolynomB, x, "the machine is independent of the ideal ring")


CASES = [Case("build", build)]
for k in REG:
    f = KW[k]
    CASES += [Case(f"{k}-bare", register, kind=k, plan=[(2, ())]),
              Case(f"{k}-two-calls", register, kind=k, plan=[(2, f[:2]), (1, f[1:])]),
              Case(f"{k}-cutoff", register, kind=k, plan=[(1, (f[0] + "!",)), (1, (f[1] + "!", f[0]))]),
              Case(f"{k}-others", register, kind=k, plan=[(2, f)], other=True),
              Case(f"{k}-deep", register, quick=False, max_paths=2000, kind=k, plan=[(2, f[:1]), (2, f), (1, ())])]
T = ("HCM", "VCM", "SkewQuad", "CF")
for a in [(x,) for x in T] + [("HCM", "VCM")]:
    for b in [None, ()] + [(x,) for x in T]:
        if b is None and len(a) == 1:
            continue
        CASES.append(Case(f"types-{'+'.join(a)}-{'none' if b is None else '+'.join(b) or 'plain'}", magnet_types, first=a, second=b))
CASES += [Case("slaves-1", slaves, n=1, rows=2), Case("slaves-2", slaves, n=2, rows=2), Case("slaves-3", slaves, n=3, rows=1)]
for t, o in (("Girder", "Section"), ("Girder", "Plinth"), ("Plinth", "Girder"), ("Section", "Girder")):
    for n, p1, p2, k1, k2 in (("one", [(0, 4)], None, ("Offset",), ()), ("ends", [(0, 4), (6, 10)], None, ("Offset2", "Roll"), ()),
                              ("cut", [(6, 10), (0, 4)], None, ("Offset2!", "Roll!"), ()), ("again", [(0, 4)], [(0, 4)], ("Offset2", "Roll"), ("Offset",)),
                              ("more", [(6, 10)], [(0, 4)], ("Offset",), ("Offset2", "Roll2")), ("reverse", [(10, 2)], [(4, 8)], ("Roll",), ()),
                              ("overlap", [(0, 4), (6, 10)], [(6, 10)], ("Offset",), ("Roll",))):
        CASES.append(Case(f"support-{t}-{o}-{n}", supports, t=t, other=o, pairs1=p1, pairs2=p2, kw1=k1, kw2=k2))
