"""Magnet field law: PolynomA/B of every updated magnet (and its slaves) is the documented function of set points and errors."""
from props.common import *

BOUNDS = dict(elements="rings of <= 6 elements, <= 3 magnets", orders="<= 4 multipole orders", setpoints="[-2,2]", calibration="[-0.5,0.5]",
              offsets="[-2,2]", multipole_tables="<= 4 x 2, <= 2 tables per magnet", lengths="(0,2]", angles="[-1,1]")
ASSUMPTIONS = ["magnet lengths are non-zero where a bending-angle error or combined function applies",
               "normal and skew offset tables have equal length (required by verify_structure)", "combined-function magnets have a non-zero design gradient", "calibration tables are not longer than the set points"]


def pad(v, n):
    return [v[i] if i < len(v) else 0.0 for i in range(n)]


def expected(src, dst, tables):
    """tables: list of (order, skew, BA) systematic tables valid for dst, later entries of the same (order, skew) win"""
    P = {}
    for X in "AB":
        sp, cal = getattr(src, "SetPoint" + X), getattr(src, "CalError" + X)
        c = pad(cal, len(sp))
        P[X] = [sp[i] * (1 + c[i]) for i in range(len(sp))]
    out = {}
    tabs = {}
    for order, skew, BA in tables:
        tabs[(order, skew)] = BA
    for X in "AB":
        off = getattr(dst, f"Polynom{X}Offset", [])
        n = max([len(P[X]), len(off)] + [len(t) for t in tabs.values()])
        v = [a + b for a, b in zip(pad(P[X], n), pad(off, n))]
        col = {"B": 0, "A": 1}[X]
        for (order, skew), BA in tabs.items():
            s = P["A" if skew else "B"][order]
            for i in range(len(BA)):
                if i == order and col == (1 if skew else 0):
                    continue                   # the main component itself is the normalisation
                v[i] = v[i] + s * BA[i][col]
        out[X] = v
    if hasattr(src, "BendingAngleError"):
        out["B"][0] = out["B"][0] + src.BendingAngleError * dst.BendingAngle / dst.Length
    if getattr(src, "CombinedFunction", False) and hasattr(src, "BendingAngle"):
        alpha = src.SetPointB[1] * (1 + src.CalErrorB[1]) / src.NomPolynomB[1]
        out["B"][0] = out["B"][0] + (alpha - 1) * dst.BendingAngle / dst.Length
    return out


def check_law(ctx, src, dst, tables, label):
    e = expected(src, dst, tables)
    for X in "AB":
        p = getattr(dst, "Polynom" + X)
        n = max(len(p), len(e[X]))
        ctx.eq(pad(p, n), pad(e[X], n), f"{label}: Polynom{X}")
    if src.PassMethod == "CorrectorPass":
        ctx.eq(dst.KickAngle, arr([e["B"][0], e["A"][0]]), f"{label}: kick angles")
    ctx.check(dst.MaxOrder == len(dst.PolynomB) - 1, f"{label}: field order")


def _elems(kind):
    return {"q": lambda: quad("Q", 0.5), "q3": lambda: quad("Q", 0.5, n=3), "s": lambda: sext("S"), "c": lambda: corrector("C"),
            "b": lambda: dipole("B", 1.0, 0.125), "bk": lambda: dipole("B", 1.0, 0.125, 0.75)}[kind]()


def table(ctx, tag, n):
    return ctx.reals(tag, (n, 2), -1, 1)


def law(ctx, kind, offA=0, offB=0, tables=(), bae=False, cf=False, call="all"):
    SC = new_SC(lattice([drift(), _elems(kind), drift("D2"), quad("BY")]))
    if cf:
        SC.register_magnets(np.array([1]), CF=1)
    else:
        SC.register_magnets(np.array([1]))
    SC.register_magnets(np.array([3]))
    el = SC.RING[1]
    if cf or bae:
        el.Length = ctx.real("len", 0.0625, 2)
        el.BendingAngle = ctx.real("theta", -1, 1)
    if cf:
        el.NomPolynomB = ctx.reals("nom", len(el.NomPolynomB), -2, 2)
        ctx.assume(abs(el.NomPolynomB[1]) >= 0.0625)
    symmag(ctx, el, "m")
    symmag(ctx, SC.RING[3], "by")
    tabs = []
    for i, (order, skew, n) in enumerate(tables):
        BA = table(ctx, f"t{i}", n)
        keep = BA.copy()
        SC.set_systematic_multipole_errors(np.array([1]), BA, order, skew)
        ctx.eq(BA, keep, "the caller's multipole table is left alone")
        tabs.append((order, skew, [[keep[r, 0], keep[r, 1]] for r in range(n)]))
    if offA:
        el.PolynomAOffset = ctx.reals("offA", offA, -2, 2)
    if offB:
        el.PolynomBOffset = ctx.reals("offB", offB, -2, 2)
    if bae:
        el.BendingAngleError = ctx.real("bae", -1, 1)
    before = snap(SC)
    if call == "all":
        SC.update_magnets()
        check_law(ctx, SC.RING[3], SC.RING[3], [], "bystander magnet")
    else:
        SC.update_magnets(np.array([1]))
    check_law(ctx, SC.RING[1], SC.RING[1], tabs, "field law")
    allow = [(1, "PolynomA"), (1, "PolynomB"), (1, "MaxOrder")] + ([(1, "KickAngle")] if kind == "c" else [])
    if call == "all":
        allow += [(3, "PolynomA"), (3, "PolynomB")]
    same_state(ctx, before, SC, "updating the fields changes nothing else", allow)
    once = snap(SC)
    SC.update_magnets() if call == "all" else SC.update_magnets(np.array([1]))
    same_state(ctx, once, SC, "updating twice equals updating once")


def slaves(ctx, kind, child_kind, tables=(), off=False, bae=False, cf=False, how="update"):
    SC = new_SC(lattice([drift(), _elems(child_kind), drift("D1"), _elems(kind), drift("D2"), _elems(child_kind), quad("BY")]))
    kw = dict(MasterOf=np.array([[1], [5]]))
    if cf:
        kw["CF"] = 1
    SC.register_magnets(np.array([3]), **kw)
    m = SC.RING[3]
    for i in (1, 3, 5):
        if cf or bae:
            SC.RING[i].Length = ctx.real(f"len{i}", 0.0625, 2)
            SC.RING[i].BendingAngle = ctx.real(f"theta{i}", -1, 1)
    if cf:
        m.NomPolynomB = ctx.reals("nom", len(m.NomPolynomB), -2, 2)
        ctx.assume(abs(m.NomPolynomB[1]) >= 0.0625)
    symmag(ctx, m, "m")
    tabs = {1: [], 3: [], 5: []}
    for i, (order, skew, n, who) in enumerate(tables):
        BA = table(ctx, f"t{i}", n)
        for w in who:
            tabs[w].append((order, skew, [[BA[r, 0], BA[r, 1]] for r in range(n)]))
        SC.set_systematic_multipole_errors(np.array(who), BA.copy(), order, skew)
    if off:
        for i in (1, 3, 5):
            SC.RING[i].PolynomAOffset = ctx.reals(f"offA{i}", 3, -1, 1)
            SC.RING[i].PolynomBOffset = ctx.reals(f"offB{i}", 3, -1, 1)
    if bae:
        m.BendingAngleError = ctx.real("bae", -1, 1)
    if how == "update":
        SC.update_magnets()
    elif how == "ords":
        SC.update_magnets(np.array([3]))
    elif how == "set":
        SC.set_magnet_setpoints(3, ctx.real("x"), False, 1)
    elif how == "setA":
        SC.set_magnet_setpoints([3], [ctx.real("x")], True, 1, "add")
    check_law(ctx, m, m, tabs[3], "master")
    check_law(ctx, m, SC.RING[1], tabs[1], "first slave")
    check_law(ctx, m, SC.RING[5], tabs[5], "second slave")


def through_setters(ctx, kind, first, second):
    """after any two setting calls the law holds for every registered magnet"""
    SC = new_SC(lattice([drift(), _elems(kind), drift("D2"), quad("Q2")]))
    SC.register_magnets(np.array([1, 3]), HCM=1.0, VCM=1.0, SkewQuad=0.5)
    BA = table(ctx, "t", 3)
    SC.set_systematic_multipole_errors(np.array([1]), BA.copy(), 1, False)
    tabs = [(1, False, [[BA[r, 0], BA[r, 1]] for r in range(3)])]
    for i in (1, 3):
        symmag(ctx, SC.RING[i], f"m{i}")
        SC.RING[i].PolynomAOffset = ctx.reals(f"offA{i}", 3, -1, 1)
        SC.RING[i].PolynomBOffset = ctx.reals(f"offB{i}", 3, -1, 1)
    SC.update_magnets()
    for k, op in enumerate((first, second)):
        x = arr([ctx.real(f"x{k}{i}") for i in range(2)])
        if op == "cmH":
            SC.set_cm_setpoints(np.array([1, 3]), x, False)
        elif op == "cmV":
            SC.set_cm_setpoints(np.array([3, 1]), x, True, "add")
        elif op == "quad":
            SC.set_magnet_setpoints(np.array([1, 3]), x, False, 1)
        elif op == "quadrel":
            SC.set_magnet_setpoints(np.array([3]), x[:1], False, 1, "rel")
        elif op == "skew":
            SC.set_magnet_setpoints(np.array([3, 1]), x, True, 1)
    check_law(ctx, SC.RING[1], SC.RING[1], tabs, "magnet 1 after the calls")
    check_law(ctx, SC.RING[3], SC.RING[3], [], "magnet 2 after the calls")


def random_multipoles(ctx, nprev):
    """random multipole tables are drawn inside 2 sigma, scale the table, and accumulate over calls"""
    SC = new_SC(lattice([drift(), quad("Q"), drift("D2"), quad("Q2"), quad("BY")]))
    SC.register_magnets(np.array([1, 3, 4]))
    before = snap(SC)
    BA = ctx.reals("t", (3, 2), -1, 1)
    keep = BA.copy()
    d = Draws(ctx, "z", inside=2)
    prev = None
    if nprev:
        prev = (ctx.reals("pA", nprev, -1, 1), ctx.reals("pB", nprev, -1, 1))
        SC.RING[1].PolynomAOffset, SC.RING[1].PolynomBOffset = prev[0].copy(), prev[1].copy()
    with W.random(ctx, d):
        SC.set_random_multipole_errors(np.array([1, 3]), BA)
    ctx.eq(BA, keep, "the caller's multipole table is left alone")
    pairs = []
    for k, o in enumerate((1, 3)):
        el = SC.RING[o]
        for X, col, pv in (("A", 1, 0), ("B", 0, 1)):
            got = getattr(el, f"Polynom{X}Offset")
            base = pad(prev[pv], 4) if (prev and o == 1) else [0.0] * 4
            got = pad(got, 4)
            for i in range(4):
                add = got[i] - base[i]
                lim = 2 * abs(keep[i, col]) if i < 3 else 0.0
                ctx.check(abs(add) <= lim + 1e-9, "random multipoles stay within two sigma of the table")
                if i < 3:
                    pairs.append((add, keep[i, col]))
    drawn(ctx, pairs, d.flat, "random multipoles scale the table entry, each with a random number of its own")
    allow = [(o, f"Polynom{X}Offset") for o in (1, 3) for X in "AB"]
    for o in (1, 3):
        for X in "AB":
            before["RING"][o].setdefault(f"Polynom{X}Offset", 0)
    same_state(ctx, before, SC, "only the addressed magnets' offsets change", allow)


CASES = []
for call in ("all", "ords"):
    for k in ("q", "q3", "s", "c", "b"):
        CASES.append(Case(f"plain-{k}-{call}", law, kind=k, call=call))
    CASES += [
        Case(f"offsets-long-{call}", law, kind="q", offA=4, offB=4, call=call),
        Case(f"offsets-short-{call}", law, kind="s", offA=1, offB=1, call=call),
        Case(f"corrector-offset-{call}", law, kind="c", offA=2, offB=2, call=call),
        Case(f"sys-normal-{call}", law, kind="q", tables=((1, False, 4),), call=call),
        Case(f"sys-skew-{call}", law, kind="q", tables=((1, True, 3),), call=call),
        Case(f"sys-two-{call}", law, kind="s", tables=((2, False, 4), (1, True, 2)), offA=2, offB=2, call=call),
        Case(f"sys-dip-quad-{call}", law, kind="q3", tables=((1, False, 3), (0, False, 4)), call=call),
        Case(f"sys-replaced-{call}", law, kind="q", tables=((1, False, 3), (1, False, 3)), call=call),
        Case(f"bend-error-{call}", law, kind="b", bae=True, call=call),
        Case(f"bend-error-sys-{call}", law, kind="bk", bae=True, tables=((1, False, 3),), offA=2, offB=2, call=call),
        Case(f"combined-{call}", law, kind="bk", cf=True, call=call),
        Case(f"combined-bend-sys-{call}", law, kind="bk", cf=True, bae=True, tables=((1, False, 3),), offA=3, offB=3, call=call),
    ]
for how in ("update", "ords", "set", "setA"):
    CASES += [
        Case(f"slaves-q-{how}", slaves, kind="q", child_kind="q", how=how),
        Case(f"slaves-off-{how}", slaves, kind="q", child_kind="q3", off=True, tables=((1, False, 3, (1, 3)), (1, True, 2, (5,))), how=how),
    ]
CASES += [
    Case("slaves-bend", slaves, kind="b", child_kind="b", bae=True),
    Case("slaves-combined", slaves, kind="bk", child_kind="bk", bae=True, cf=True, off=True),
    Case("slaves-corrector", slaves, kind="c", child_kind="c"),
    Case("random-fresh", random_multipoles, nprev=0),
    Case("random-accumulate", random_multipoles, nprev=2),
    Case("random-accumulate-long", random_multipoles, nprev=4),
]
OPS = ("cmH", "cmV", "quad", "quadrel", "skew")
for a in OPS:
    for b in OPS:
        CASES.append(Case(f"seq-{a}-{b}", through_setters, kind="q", first=a, second=b, quick=(OPS.index(a) + OPS.index(b)) % 2 == 1))
