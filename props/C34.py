"""Closed orbit relative to the magnets."""
from props.common import *

BOUNDS = dict(machine="ring of 8 elements with 3 magnets, arbitrary displacements", orbit="arbitrary closed orbit in six dimensions at every element, or none")
ASSUMPTIONS = ["magnets are displaced transversely for the comparison with their displacement; exit transformations are arbitrary otherwise"]
MAGS = (1, 3, 6)


def machine(ctx):
    SC = new_SC(lattice([drift(), quad("Q1"), monitor("M1"), sext("S"), drift(), monitor("M2"), quad("Q2"), drift()]))
    SC.register_magnets(np.array(MAGS))
    SC.register_bpms(np.array([2, 5]))
    SC.register_supports(np.array([[0], [4]]), "Girder", Offset=np.array([1e-4, 1e-4, 0.0]))
    return SC


def orbit(ctx, ords, how, lost=None):
    SC = machine(ctx)
    if how == "any":
        for o in MAGS:
            SC.RING[o].T2 = ctx.reals(f"T2_{o}", 6, -1, 1)
        off = {o: (SC.RING[o].T2[0], SC.RING[o].T2[2]) for o in MAGS}
    else:
        for o in MAGS:
            SC.RING[o].MagnetOffset = arr([ctx.real(f"dx{o}", -1, 1), ctx.real(f"dy{o}", -1, 1), 0.0])
        for o in (0, 4):
            SC.RING[o].GirderOffset = arr([ctx.real("gx", -1, 1) if o == 0 else SC.RING[0].GirderOffset[0], ctx.real("gy", -1, 1) if o == 0 else SC.RING[0].GirderOffset[1], 0.0])
        SC.update_supports()
        off = {o: tuple(SC.RING[o].MagnetOffset[d] + SC.RING[o].SupportOffset[d] for d in (0, 1)) for o in MAGS}
    n = len(SC.RING)
    co = [ctx.reals(f"co{i}", 6, -1, 1) for i in range(n + 1)]
    if lost is not None:
        co[lost] = arr([NAN] * 6)
    before = snap(SC)
    calls = []

    def orbit6(ring=None, refpts=None, *a, **k):
        calls.append(1)
        same_ring(ctx, before["RING"], ring, "the orbit is that of the machine")
        r = np.atleast_1d(np.asarray(refpts if refpts is not None else [n]))
        idx = np.nonzero(r)[0] if r.dtype == bool else r
        return co[0] * 1.0, arr([list(co[int(i)]) for i in idx])
    kw = {} if ords is None else dict(ords=np.array(ords))
    with W.stub(find_orbit6=orbit6):
        got = W.mod("pySC.lattice_properties.magnet_orbit").SCgetCOD(SC, **kw)
    ords = MAGS if ords is None else ords
    ctx.check(np.shape(got) == (2, len(ords)), "both planes, one column per magnet")
    for j, o in enumerate(ords):
        for d in (0, 1):
            if lost is not None:
                ctx.check(bool(got[d, j] != got[d, j]) if not isinstance(got[d, j], E.S) else False, "without closed orbit all is undefined")
            else:
                ctx.eq(got[d, j], co[o][2 * d] - off[o][d], "closed orbit minus the displacement of the magnet", tol=1e-6)
    same_state(ctx, before, SC, "nothing changes")


CASES = [Case(f"orbit-{h}-{n}", orbit, how=h, ords=o) for h in ("any", "moved") for n, o in (("all", None), ("one", (3,)), ("two", (1, 6)), ("three", MAGS), ("order", (6, 1, 3)))]
CASES += [Case(f"lost-{n}", orbit, how="any", ords=o, lost=l) for n, o, l in (("all", None, 3), ("last", None, 6), ("two", (1, 6), 1), ("one", (6,), 6))]
