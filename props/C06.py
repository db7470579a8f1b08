"""BPM reading law: roll, offset, calibration, noise over transmission, beam loss -> NaN; noise kind by tracking mode; read-only."""
from props.beamlib import *

BOUNDS = dict(bpms="<= 4 registered, <= 4 requested", particles="<= 3", turns="<= 2", shots="1", positions="[-2,2]", rolls="[-1,1] each",
              calibration="[-0.5,0.5]", noise="[0,1] sigma, draws in [-2,2]", sum_errors="[-0.25,0.25]", beamLostAt="[0,1]")
ASSUMPTIONS = ["tracking / closed-orbit search are arbitrary functions of the call (at.lattice_track and at.find_orbit6 are stubbed); a lost particle is NaN in every coordinate",
               "random numbers are arbitrary values inside the requested cut-off", "sin/cos are uninterpreted up to sin^2+cos^2=1"]


def reading(ctx, mode="TBT", npart=1, nt=1, req=None, lost=(), lostat=1.0, bpms=BPMS, parts=None, all_el=False):
    SC = new_SC(ring3())
    SC.register_bpms(np.array(bpms))
    errors(ctx, SC, bpms, **(parts or {}))
    SC.INJ.nParticles, SC.INJ.nTurns, SC.INJ.nShots = npart, nt, 1
    SC.INJ.trackMode = mode
    SC.INJ.beamLostAt = ctx.real("lostat", 0, 1) if lostat == "sym" else lostat
    if mode == "ORB":
        npart = nt = 1
    want = [o for o in bpms if req is None or o in req]
    nb = len(want)
    tr = Tracker(ctx, npart, nt, lost=lost)
    nz = Noise(ctx, 2 * nb * nt, nb * nt)
    before = snap(SC)
    beam = W.mod("pySC.core.beam")
    with tr.stub(), W.random(ctx, nz):
        out = beam.bpm_reading(SC, None if req is None else np.array(req))
    B, S_ = out
    ctx.check(B.shape == (2, nb * nt) and S_.shape == (2, nb * nt), "one column per requested BPM and turn")
    if not nz.by_size(1):
        if (parts or {}).get("noise", True) or (parts or {}).get("sumerr", True):
            by_value(ctx, SC, tr, nz, want, nt, npart, mode == "ORB", B, S_)
            same_state(ctx, before, SC, "reading the BPMs changes nothing")
            return
        nz.forget(1)
    for t in range(nt):
        for j, o in enumerate(want):
            x, y, s = single(ctx, SC, tr, nz, 0, j, o, t, nb, nt, npart, mode == "ORB")
            k = t * nb + j
            ctx.eq(B[0, k], x, "horizontal reading law", tol=1e-6)
            ctx.eq(B[1, k], y, "vertical reading law", tol=1e-6)
            ctx.eq(S_[0, k], 0.0 if is_nan(s) else s, "sum signal is the transmission")
            ctx.eq(S_[1, k], 0.0 if is_nan(s) else s, "sum signal is the transmission")
    same_state(ctx, before, SC, "reading the BPMs changes nothing")


def by_value(ctx, SC, tr, nz, want, nt, npart, co, B, S_):
    """which random number went where is found by value; every reading has numbers of its own"""
    pairs, nb = [], len(want)
    keep = {o: (SC.RING[o].Noise, SC.RING[o].NoiseCO, SC.RING[o].SumError) for o in want}
    draws, lost_at = nz.flat, SC.INJ.beamLostAt
    nz.forget(1)
    for o in want:
        SC.RING[o].Noise, SC.RING[o].NoiseCO, SC.RING[o].SumError = zeros(2), zeros(2), 0.0
    SC.INJ.beamLostAt = 1.0
    for t in range(nt):
        for j, o in enumerate(want):
            k = t * nb + j
            x, y, frac = single(ctx, SC, tr, nz, 0, j, o, t, nb, nt, npart, co)
            got = B[0, k], B[1, k]
            ctx.check(is_nan(got[0]) == is_nan(got[1]), "both planes are valid or neither")
            if is_nan(got[0]):
                ctx.eq(S_[:, k], zeros(2), "no sum signal without a reading")
                continue
            ctx.check(not is_nan(x), "no reading without beam")
            ctx.eq(S_[0, k], S_[1, k], "one sum signal for both planes")
            ctx.check(S_[0, k] >= 1 - lost_at, "a reading needs transmission")
            pairs.append((S_[0, k] / frac - 1, keep[o][2]))
            for d, v in ((0, x), (1, y)):
                pairs.append(((got[d] - v) * S_[0, k], keep[o][1 if co else 0][d]))
    for o in want:
        SC.RING[o].Noise, SC.RING[o].NoiseCO, SC.RING[o].SumError = keep[o]
    SC.INJ.beamLostAt = lost_at
    drawn(ctx, pairs, draws, "reading law with random numbers of its own for every reading")


def rejected(ctx):
    SC = new_SC(ring3())
    SC.register_bpms(np.array([1, 5]))
    beam = W.mod("pySC.core.beam")
    tr = Tracker(ctx)
    with tr.stub():
        ctx.raises(ValueError, lambda: beam.bpm_reading(SC, np.array([3])), "no registered BPM requested")
    ctx.check(tr.calls == 0, "nothing tracked for a rejected request")


def all_elements(ctx, npart, nt, shots, lost=()):
    SC = new_SC(ring3())
    SC.register_bpms(np.array(BPMS))
    errors(ctx, SC, BPMS, noise=False, sumerr=False)
    SC.INJ.nParticles, SC.INJ.nTurns, SC.INJ.nShots = npart, nt, shots
    nb = 4
    tr = Tracker(ctx, npart, nt, lost=lost)
    nz = Noise(ctx, 2 * nb * nt, nb * nt)
    beam = W.mod("pySC.core.beam")
    with tr.stub(), W.random(ctx, nz):
        B, A = beam.all_elements_reading(SC)
    if not nz.by_size(shots):
        nz.forget(shots)   # no noise, no sum errors
    n = len(SC.RING) + 1
    ctx.check(A.shape == (2, npart, n, nt, shots), "one entry per particle, element, turn and shot")
    for s in range(shots):
        for p in range(npart):
            for r in range(n):
                for t in range(nt):
                    ctx.eq(A[:, p, r, t, s], arr(list(tr.at(s, p, r, t))), "trajectory as tracked")
    for t in range(nt):
        for j, o in enumerate(BPMS):
            rs = [single(ctx, SC, tr, nz, s, j, o, t, nb, nt, npart, False) for s in range(shots)]
            for d in (0, 1):
                ctx.eq(B[d, t * nb + j], wavg([(r[d], 1.0) for r in rs]), "BPM readings average over shots")


CASES = [Case("rejected", rejected)]
FEW = dict(roll=False)
for mode in ("TBT", "ORB", "PORB"):
    CASES.append(Case(f"{mode}-1p-all", reading, mode=mode))
    CASES.append(Case(f"{mode}-1p-subset", reading, mode=mode, req=(5, 1)))
    CASES.append(Case(f"{mode}-1p-single", reading, mode=mode, req=(3,)))
    CASES.append(Case(f"{mode}-1p-unregistered", reading, mode=mode, req=(0, 3, 5, 6), bpms=(3, 5, 7)))
    CASES.append(Case(f"{mode}-lost", reading, mode=mode, lost=["all"], bpms=(3, 5), parts=FEW))
CASES += [
    Case("TBT-2p", reading, npart=2, bpms=(3, 5)),
    Case("TBT-2p-2t", reading, npart=2, nt=2, bpms=(3, 5), parts=FEW),
    Case("TBT-3p-lost-threshold", reading, npart=3, bpms=(3,), lost=["all"], lostat="sym", parts=FEW),
    Case("TBT-2p-lost-half", reading, npart=2, bpms=(3, 5), lost=["all"], lostat=0.5, parts=dict(roll=False, cal=False)),
    Case("TBT-4p-lost", reading, npart=4, bpms=(3,), lost=["all"], lostat=0.75, parts=dict(roll=False)),
    Case("TBT-2t-threshold", reading, nt=2, npart=2, bpms=(3,), lost=["all"], lostat="sym", parts=dict(roll=False, off=False)),
    Case("TBT-3p-2t-deep", reading, quick=False, npart=3, nt=2, bpms=(3,), lost=["all"], lostat="sym", parts=FEW),
    Case("TBT-2p-3bpm-deep", reading, quick=False, npart=2, nt=2, parts={}),
    Case("all-elements", all_elements, npart=2, nt=2, shots=2),
    Case("all-elements-lost", all_elements, npart=1, nt=1, shots=2, lost=[(0, 0, 3, 0), (1, 0, 3, 0), (1, 0, 5, 0)]),
]
