"""Beam transmission: surviving fraction per turn and number of transmitted turns."""
from props.beamlib import *

BOUNDS = dict(particles="1, 2, 4 (3 away from the threshold)", turns="<= 4", beamLostAt="[0,1]")
ASSUMPTIONS = ["tracking is arbitrary: every particle may be lost at any turn (at.lattice_track is stubbed)", "bunch generation is arbitrary within the random cut-offs"]


def trans(ctx, npart, nt, explicit, mono):
    SC = new_SC(ring3())
    SC.register_bpms(np.array(BPMS))
    SC.INJ.nParticles, SC.INJ.nTurns = (npart, nt) if not explicit else (2, 5)
    SC.INJ.beamSize = arr(np.eye(6) * 1e-4)
    SC.INJ.beamLostAt = ctx.real("lostat", 0, 1)
    tr = Tracker(ctx, npart, nt, lost=["all"])
    n = len(SC.RING)
    if mono:
        dead = [ctx.choose(f"dead{p}", nt + 1) for p in range(npart)]
        for p in range(npart):
            for t in range(nt):
                tr.pos[0, p, n, t] = (NAN, NAN) if t >= dead[p] else (0.125 * p, 0.25)
    before = snap(SC)
    with tr.stub(), W.random(ctx, lambda kind, shape: arr(np.zeros(shape))):
        f = W.mod("pySC.core.beam").beam_transmission
        turns, frac = f(SC, nParticles=npart, nTurns=nt) if explicit else f(SC)
    want = []
    for t in range(nt):
        alive = sum(0 if is_nan(tr.at(0, p, n, t)[0]) else 1 for p in range(npart))
        want.append(alive / npart)
    if npart == 3:
        for w in want:
            ctx.assume(abs((1 - w) - SC.INJ.beamLostAt) >= 1e-3)
    ctx.check(len(frac) == nt, "one fraction per turn")
    ctx.eq(frac, arr(want), "surviving fraction counts the particles still alive")
    k = 0
    for w in want:
        if bool(SC.INJ.beamLostAt > 1 - w):
            k += 1
    ctx.check(turns == k, "transmitted turns are those whose losses stay below the threshold", f"{turns} vs {k}")
    ctx.check(tr.seen[0]["npart"] == npart and tr.seen[0]["nturns"] == nt, "the requested number of particles and turns is tracked")
    same_state(ctx, before, SC, "measuring the transmission changes nothing")


def is_nan(x):
    return isinstance(x, (float, np.floating)) and x != x


CASES = []
for ex in (False, True):
    CASES += [Case(f"1p-3t-{ex}", trans, npart=1, nt=3, explicit=ex, mono=False), Case(f"2p-2t-{ex}", trans, npart=2, nt=2, explicit=ex, mono=False),
              Case(f"4p-1t-{ex}", trans, npart=4, nt=1, explicit=ex, mono=False), Case(f"2p-4t-{ex}", trans, npart=2, nt=4, explicit=ex, mono=True),
              Case(f"3p-2t-{ex}", trans, npart=3, nt=2, explicit=ex, mono=True)]
CASES.append(Case("4p-3t-deep", trans, quick=False, npart=4, nt=3, explicit=False, mono=True))
