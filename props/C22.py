"""Tune scan: transmission is measured on the grid of set points, the best one is applied, everything else is as before."""
import copy

from props.common import *

BOUNDS = dict(machine="two families of 1 to 3 quadrupoles and combined-function dipoles, not at nominal settings", scan="grids of 1x1 to 5x4 set points, 1 to 8 points visited, 1 to 4 turns",
              beam="arbitrary transmission and number of turns at every grid point")
ASSUMPTIONS = ["the transmission depends only on the set points (C09 has the transmission itself)", "the transmission never rises from turn to turn"]
F1, F2 = (1, 4), (6, 3)


def machine(ctx):
    SC = new_SC(lattice([drift(), quad("QF", k=1.5), drift(), dipole("BD", 1.0, 0.125, -0.5), quad("QF", k=2.0), corrector("C"), quad("QD", k=-1.25), monitor("M"), quad("QX", k=1.0)]))
    SC.register_magnets(np.array([1, 4, 6, 8]))
    SC.register_magnets(np.array([3]), CF=1, HCM=10.0)
    SC.register_bpms(np.array([7]))
    for o in (1, 4, 6, 3, 8):
        SC.RING[o].CalErrorB = arr([0.0, ctx.real(f"cal{o}", -0.1, 0.1)])
        SC.RING[o].SetPointB = arr([0.0, ctx.real(f"set{o}", -3, 3)])
    SC.RING[3].BendingAngleError = 0.03125
    SC.update_magnets()
    SC.INJ.nTurns, SC.INJ.nParticles = 3, 2
    return SC


def scan(ctx, grid, n_points, fam=((1, 4), (6,)), target=None, full=False, turns=None, kind="any", order=None):
    """kind: any - arbitrary transmission; lost - none at the last turn; none - no turn at all"""
    SC = machine(ctx)
    rel = [[0.875 + 0.0625 * (grid[0] - 1 - i) for i in range(grid[0])], [0.9375 + 0.03125 * i for i in range(grid[1])]]
    ords = [o for f in fam for o in f]
    nt = turns or SC.INJ.nTurns
    before = snap(SC)
    SC2 = copy.deepcopy(SC)
    nominal = {o: before["RING"][o]["NomPolynomB"][1] for o in ords}
    seen, value = [], {}
    allow = [(o, a) for o in ords for a in ("PolynomA", "PolynomB", "SetPointB", "KickAngle", "BendingAngle")]

    def beam(S, nParticles=None, nTurns=None, plot=False):
        ctx.check(S is SC and nTurns == nt and nParticles == (5 if turns else 2) and not plot, "the requested number of particles and turns is tracked")
        cell = []
        for f, r in zip(fam, rel):
            k = [i for i, v in enumerate(r) if abs(float(SC.RING[f[0]].SetPointB[1] / nominal[f[0]]) - v) < 1e-12]
            ctx.check(len(k) == 1, "the set points are those of the grid, relative to nominal")
            if not k:
                return 0, arr([0.0] * nt)
            cell.append(k[0])
            for o in f:
                ctx.eq(SC.RING[o].SetPointB[1], nominal[o] * r[k[0]], "all magnets of the family are set alike")
        same_ring(ctx, before["RING"], SC.RING, "only the two families are moved", allow)
        cell = tuple(cell)
        if cell not in value:
            tag = f"{cell[0]}.{cell[1]}"
            n = 0 if kind == "none" else ctx.choose("n" + tag, nt + 1) if kind == "lost" else None
            if kind == "any":
                last = ctx.real("t" + tag, 0, 1)
                n = ctx.real("n" + tag, 1, nt)
            else:
                last = 0.0
            value[cell] = (n, [0.0 if kind == "none" else 1.0] * (nt - 1) + [last])
        seen.append(cell)
        return value[cell][0], arr(value[cell][1])
    kw = dict(n_points=n_points)
    goal = 1
    if target is not None:
        goal = kw["target"] = ctx.real("target", *target)
    if full:
        kw["full_scan"] = True
    if turns:
        kw.update(nTurns=nt, nParticles=5)
    with W.patched("pySC.core.beam", "beam_transmission", beam):
        try:
            out = W.mod("pySC.correction.tune").tune_scan(SC, [np.array(f) for f in fam], [np.array(r) for r in rel], **kw)
        except E.Inconclusive:
            raise
        except RuntimeError as ex:
            out = ex
    ctx.check(len(seen) > 0 and seen[0] == (grid[0] // 2, grid[1] // 2), "the scan starts in the middle of the grid")
    hits = [s for s in seen if kind == "any" and not full and bool(value[s][1][-1] >= goal)]
    ctx.check(hits == [] and len(seen) == n_points or hits == seen[-1:] and not full, "the scan ends after the requested points or as soon as the target is reached")
    if isinstance(out, Exception):
        ctx.check(all(bool(value[s][0] == 0) for s in seen), "only a scan without any transmission is an error")
        same_state(ctx, before, SC, "the machine is as before")
        return
    ctx.check(isinstance(out, tuple) and len(out) == 4 and out[0] is SC, "the machine, set points, turns and transmission are returned")
    _, sp, mt, tr = out
    ctx.check(np.shape(mt) == tuple(grid) and np.shape(tr) == tuple(grid) + (nt,), "one entry per grid point")
    for i in range(grid[0]):
        for j in range(grid[1]):
            if (i, j) in value:
                ctx.eq(mt[i, j], value[i, j][0], "the number of turns is stored at its grid point")
                ctx.eq(tr[i, j], arr(value[i, j][1]), "the transmission is stored at its grid point")
            else:
                ctx.check(bool(np.isnan(mt[i, j])) and bool(np.all(np.isnan(tr[i, j]))), "other grid points are marked as not measured")
    best = [s for s in seen if abs(rel[0][s[0]] - float(sp[0])) < 1e-12 and abs(rel[1][s[1]] - float(sp[1])) < 1e-12]
    ctx.check(len(best) > 0, "the result is a visited grid point")
    if not best:
        return
    b = best[0]
    if hits:
        ctx.check(b == seen[-1], "the point that reached the target is used")
    k = 0 if kind == "lost" else 1
    for s in seen:
        if not hits or full:
            if kind == "lost":
                ctx.check(value[b][0] >= value[s][0], "without transmission at the last turn the most turns win")
            elif bool(value[b][1][-1] > 0):
                ctx.check(value[b][1][-1] >= value[s][1][-1], "the best transmission wins")
            else:
                ctx.check(value[b][0] >= value[s][0], "without transmission at the last turn the most turns win")
    for f, r, i in zip(fam, rel, b):
        for o in f:
            ctx.eq(SC.RING[o].SetPointB[1], nominal[o] * r[i], "the result is applied")
    SC2.set_magnet_setpoints(np.array(ords), np.hstack([rel[0][b[0]] * np.ones(len(fam[0])), rel[1][b[1]] * np.ones(len(fam[1]))]), False, 1, method="rel")
    same_ring(ctx, snap(SC2)["RING"], SC.RING, "the machine is as if only the result had been set")
    same_state(ctx, before, SC, "nothing else is changed", allow)


CASES = [
    Case("one", scan, grid=(1, 1), n_points=2), Case("row", scan, grid=(3, 1), n_points=3), Case("square", scan, grid=(3, 3), n_points=4), Case("even", scan, grid=(4, 2), n_points=5),
    Case("two", scan, grid=(2, 2), n_points=4), Case("wide", scan, grid=(5, 4), n_points=5), Case("target", scan, grid=(3, 3), n_points=4, target=(0.25, 0.75)),
    Case("full", scan, grid=(3, 2), n_points=3, full=True, target=(0.25, 0.75)), Case("turns", scan, grid=(3, 3), n_points=3, turns=4), Case("one-turn", scan, grid=(3, 3), n_points=3, turns=1),
    Case("lost", scan, grid=(3, 3), n_points=3, kind="lost"), Case("lost-even", scan, grid=(2, 4), n_points=3, kind="lost", turns=2), Case("none", scan, grid=(3, 3), n_points=5, kind="none"),
    Case("none-full", scan, grid=(2, 2), n_points=3, kind="none", full=True, fam=((1,), (6,))), Case("dipole", scan, grid=(3, 3), n_points=3, fam=((4, 1), (6, 3))),
    Case("dipole-first", scan, grid=(2, 3), n_points=3, fam=((3,), (1, 4))), Case("long", scan, grid=(5, 5), n_points=6, quick=False), Case("longer", scan, grid=(4, 5), n_points=8, quick=False, target=(0.25, 0.75)),
]
