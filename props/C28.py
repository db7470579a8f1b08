"""Machines are independent of each other, of the lattice they were built from, and of their copies."""
import copy

from props.common import *

BOUNDS = dict(machine="8 elements with BPMs, magnets, correctors, skew quadrupole, cavity and supports, arbitrary settings and errors; repeated elements in the lattice", histories="one copy of any of the copies, any attribute changed in place or anew on either side")
ASSUMPTIONS = []


def ring(ctx):
    q = quad("Q", 0.5, 1.25)
    c = corrector("C")
    els = [drift(), q, monitor("B1"), c, sext("S"), q, cavity("RF"), monitor("B2"), c, dipole("BD", 1.0, 0.125)]
    for i, e in enumerate(els):
        if hasattr(e, "PolynomB") and e is not q and e is not c:
            e.PolynomB = arr(list(e.PolynomB)[:-1] + [ctx.real(f"pb{i}", -2, 2)])
    return lattice(els)


def machine(ctx, r=None, tag="", errors=True):
    SC = new_SC(r if r is not None else ring(ctx))
    SC.register_bpms(np.array([2, 7]), CalError=np.array([0.1, 0.2]), Noise=np.array([1e-5, 2e-5]))
    SC.register_magnets(np.array([1, 4]), SkewQuad=2.0, CalErrorB=np.array([0, 0.01]), MagnetOffset=np.array([1e-4, 1e-4, 0.0]))
    SC.register_magnets(np.array([3, 8]), HCM=2.0, VCM=2.0, CalErrorA=np.array([0.05, 0.0]))
    SC.register_magnets(np.array([9]), CF=1, HCM=3.0)
    SC.register_cavities(np.array([6]), VoltageOffset=5e3)
    SC.register_supports(np.array([[1], [4]]), "Girder", Offset=np.array([1e-4, 1e-4, 0]), Roll=np.array([1e-4, 0, 0]))
    if errors:
        for o in (1, 4, 3):
            SC.RING[o].SetPointB = SC.RING[o].SetPointB + ctx.reals(f"{tag}s{o}", len(SC.RING[o].SetPointB), -1, 1)
            SC.RING[o].CalErrorB = ctx.reals(f"{tag}c{o}", len(SC.RING[o].CalErrorB), -0.1, 0.1)
        for o in (2, 7):
            SC.RING[o].Offset = ctx.reals(f"{tag}o{o}", 2, -1, 1)
        SC.RING[6].TimeLagOffset = ctx.real(tag + "lag", -1, 1)
        SC.update_magnets()
        SC.update_cavities()
        SC.INJ.Z0 = ctx.reals(tag + "z", 6, -1, 1)
        SC.INJ.beamSize = ctx.reals(tag + "bs", (6, 6), 0, 1)
        SC.INJ.nShots, SC.INJ.nTurns, SC.INJ.nParticles, SC.INJ.trackMode = 3, 2, 5, "PORB"
        SC.INJ.postFun = twice
        SC.SIG.Circumference = ctx.real(tag + "circ", -0.1, 0.1)
        SC.IDEALRING[1].PolynomB = ctx.reals(tag + "ideal", 2, -2, 2)
    return SC


def twice(x):
    return 2 * x


def scramble(v, seen=None):
    """changes everything reachable in place"""
    seen = set() if seen is None else seen
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, np.ndarray):
        if v.dtype.kind in "fiO" and v.size:
            v[...] = v + 1
        return
    if isinstance(v, dict):
        for k in list(v):
            if isinstance(v[k], (np.ndarray, dict, list)):
                scramble(v[k], seen)
            elif isinstance(v[k], (float, E.S)):
                v[k] = v[k] + 1
        v["Added"] = 1
    elif isinstance(v, list):
        for x in v:
            scramble(x, seen)
        v.append(1)


def scramble_elements(r):
    seen = set()
    for e in r:
        for k, v in list(vars(e).items()):
            if k in ("I0", "E0", "R1", "R2", "T1", "T2", "PolynomA", "PolynomB", "SetPointA", "SetPointB", "Offset") or isinstance(v, np.ndarray):
                scramble(v, seen)
            elif isinstance(v, (float, E.S)) and k != "Length":
                vars(e)[k] = v + 1
        vars(e)["Added"] = 1


def scramble_machine(SC):
    scramble_elements(SC.RING)
    scramble_elements(SC.IDEALRING)
    for k, v in list(vars(SC.INJ).items()):
        if isinstance(v, np.ndarray):
            scramble(v)
    SC.INJ.nTurns += 1
    SC.INJ._trackMode = "ORB"
    scramble(SC.SIG)
    scramble(SC.ORD)


def make_copy(SC, how):
    return SC.very_deep_copy() if how == "method" else copy.deepcopy(SC)


def copies(ctx, how, side):
    SC = machine(ctx)
    before = snap(SC)
    new = make_copy(SC, how)
    ctx.check(new is not SC and type(new) is type(SC), "the copy is a machine of its own")
    same_state(ctx, before, new, "the copy equals the original")
    ctx.check(new.plot == SC.plot and new.INJ.trackMode == "PORB", "so do its settings")
    z = arr([1.0, 2.0])
    ctx.eq(new.INJ.postFun(z), SC.INJ.postFun(z), "so do its injection effects")
    a, b = (SC, new) if side == "copy" else (new, SC)
    scramble_machine(b)
    same_state(ctx, before, a, "changing one side leaves the other alone")


def generations(ctx):
    """copies of copies, in any order of changes"""
    SC = machine(ctx)
    s0 = snap(SC)
    one = SC.very_deep_copy()
    one.set_magnet_setpoints(np.array([1]), ctx.real("x", 0.5, 2), False, 1, method="rel")
    one.INJ.Z0[0] = ctx.real("z1", -1, 1)
    s1 = snap(one)
    two = one.very_deep_copy()
    two.set_cavity_setpoints(np.array([6]), 1.5, "Voltage", "rel")
    two.set_cm_setpoints(np.array([3]), ctx.real("k", -1, 1), False)
    two.register_bpms(np.array([2]), CalError=np.array([0.5, 0.5]))
    s2 = snap(two)
    scramble_machine(SC)
    same_state(ctx, s1, one, "a copy outlives its original")
    same_state(ctx, s2, two, "so does a copy of a copy")
    scramble_machine(one)
    same_state(ctx, s2, two, "a copy of a copy is independent of the first copy")
    ctx.check(s0["ORD"]["BPM"].size == 2, "(bookkeeping)")


def from_lattice(ctx, what):
    r = ring(ctx)
    for i, e in enumerate(r):
        if i in (1, 3):
            e.PolynomB = ctx.reals(f"p{i}", 2, -2, 2)
    given = snap_ring(r)
    SC = new_SC(r)
    same_ring(ctx, given, SC.RING, "the machine starts as the lattice")
    same_ring(ctx, given, SC.IDEALRING, "so does the ideal ring")
    ctx.check(SC.RING.energy == r.energy and SC.IDEALRING.energy == r.energy and SC.RING.periodicity == r.periodicity, "with its properties")
    if what == "lattice":
        scramble_elements(r)
        same_ring(ctx, given, SC.RING, "changing the lattice leaves the machine alone")
        same_ring(ctx, given, SC.IDEALRING, "and its ideal ring")
    elif what == "ring":
        scramble_elements(SC.RING)
        same_ring(ctx, given, SC.IDEALRING, "errors stay out of the ideal ring")
        same_ring(ctx, given, r, "and of the lattice")
    elif what == "ideal":
        scramble_elements(SC.IDEALRING)
        same_ring(ctx, given, SC.RING, "the machine does not depend on its ideal ring")
        same_ring(ctx, given, r, "neither does the lattice")
    elif what == "twin":
        other = new_SC(r)
        scramble_machine(other)
        same_ring(ctx, given, SC.RING, "two machines of one lattice are independent")
        ctx.check(len(SC.ORD.BPM) == 0 and SC.SIG.BPM == {} and "Added" not in SC.SIG and "Added" not in SC.ORD, "also in their registers")
        ctx.eq(SC.INJ.Z0, zeros(6), "and in their injection")
        ctx.eq(SC.INJ.beamSize, zeros(6, 6), "and in their injection")
        ctx.eq(SC.SIG.randomInjectionZ, zeros(6), "and in their uncertainties")
    elif what == "repeated":
        SC.RING[1].PolynomB[1] = SC.RING[1].PolynomB[1] + 1
        SC.RING[8].KickAngle = arr([1.0, 2.0])
        same_ring(ctx, given, SC.RING, "elements listed twice become elements of their own", [(1, "PolynomB"), (8, "KickAngle")])


def bystander(ctx, what):
    """work on one machine leaves another one, with elements and settings of the same lattice, alone"""
    r = ring(ctx)
    one, two = machine(ctx, r, "a"), machine(ctx, r, "b")
    before = snap(two)
    with W.random(ctx, Draws(ctx, inside=1)):
        if what == "errors":
            one.apply_errors()
        elif what == "register":
            one.register_magnets(np.array([5]), CalErrorB=np.array([0.5, 0.5]))
            one.register_bpms(np.array([2]), Offset=np.array([0.5, 0.5]))
            one.register_cavities(np.array([6]), TimeLagOffset=0.5)
        elif what == "multipoles":
            one.set_systematic_multipole_errors(np.array([1, 4]), arr([[0.0, 0.0], [0.0, 1.0], [ctx.real("ma", -1, 1), ctx.real("mb", -1, 1)]]), 1, False)
        elif what == "setpoints":
            one.set_magnet_setpoints(np.array([1, 4, 9]), ctx.real("x", -1, 1), False, 1, method="add", dipole_compensation=True)
            one.set_cm_setpoints(np.array([3, 8]), ctx.real("k", -1, 1), True)
            one.set_cavity_setpoints(np.array([6]), 1.5, "Voltage", "rel")
        elif what == "supports":
            one.RING[1].GirderOffset = arr([ctx.real("g", 0.25, 1), 0.0, 0.0])
            one.update_supports()
    same_state(ctx, before, two, "the other machine is as before")


def settings(ctx):
    """dictionaries with attribute access"""
    D = W.mod("pySC.core.classes").DotDict
    x = ctx.real("x", -1, 1)
    given = dict(a=x, b=dict(c=arr([x, 2.0]), d=dict(e=1)))
    d = D(given)
    ctx.eq(d.a, x, "items are attributes")
    ctx.eq(d.b.c[0], x, "also of nested dictionaries")
    ctx.check(d.b.d.e == 1, "also of nested dictionaries")
    d.new = 5
    d["other"] = 6
    ctx.check(d["new"] == 5 and d.other == 6, "attributes are items")
    del d.new
    ctx.check("new" not in d, "deleted attributes are deleted items")
    try:
        d.new
        ok = False
    except AttributeError:
        ok = True
    ctx.check(ok and not hasattr(d, "new") and getattr(d, "new", 7) == 7, "missing items are missing attributes")
    e = d.deepcopy()
    ctx.check(isinstance(e, D) and isinstance(e.b.d, D) and set(e) == set(d), "a copy is of the same kind")
    e.b.c[0] = 9.0
    e.b.d.e = 2
    ctx.eq(d.b.c[0], x, "a copy is independent")
    ctx.check(d.b.d.e == 1, "a copy is independent")


def modes(ctx, mode):
    SC = machine(ctx)
    before = snap(SC)
    n = SC.INJ.nTurns, SC.INJ.nParticles
    try:
        SC.INJ.trackMode = mode
        bad = False
    except AttributeError:
        bad = True
    if mode not in ("TBT", "ORB", "PORB"):
        ctx.check(bad and SC.INJ.trackMode == "PORB", "unknown tracking modes are rejected")
        same_state(ctx, before, SC, "nothing is changed")
        return
    ctx.check(not bad and SC.INJ.trackMode == mode, "the tracking mode is set")
    ctx.check((SC.INJ.nTurns, SC.INJ.nParticles) == ((1, 1) if mode == "ORB" else n), "closed orbits are read with one particle and turn, other modes keep the numbers")
    same_ring(ctx, before["RING"], SC.RING, "nothing else is changed")


CASES = [Case(f"copy-{h}-{s}", copies, how=h, side=s) for h in ("method", "deepcopy") for s in ("copy", "original")]
CASES += [Case("generations", generations), Case("settings", settings)]
CASES += [Case(f"lattice-{w}", from_lattice, what=w) for w in ("lattice", "ring", "ideal", "twin", "repeated")]
CASES += [Case(f"bystander-{w}", bystander, what=w) for w in ("errors", "register", "multipoles", "setpoints", "supports")]
CASES += [Case(f"mode-{m}", modes, mode=m) for m in ("TBT", "ORB", "PORB", "tbt", "")]
