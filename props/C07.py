"""Averaging of BPM readings over shots and turns, statistical errors, column order, sum signal."""
from props.beamlib import *

BOUNDS = dict(bpms="4 registered, <= 2 requested", turns="<= 3", shots="<= 3", particles="<= 2", positions="[-2,2]", sum_errors="[-0.25,0.25]")
ASSUMPTIONS = ["tracking is an arbitrary function of the call (at.lattice_track / at.find_orbit6 are stubbed), one fresh beam per shot",
               "random numbers are arbitrary values inside the requested cut-off"]


def shots(ctx, mode, nshots, nt, req, npart=1, lost=(), lostat=1.0, errors_too=False, parts=None):
    SC = new_SC(ring3())
    SC.register_bpms(np.array(BPMS))
    parts = parts or dict(roll=False, noise=False, cal=False)
    errors(ctx, SC, BPMS, **parts)
    SC.INJ.nParticles, SC.INJ.nTurns, SC.INJ.nShots = npart, nt, nshots
    SC.INJ.trackMode = mode
    SC.INJ.beamLostAt = lostat
    if mode == "ORB":
        npart = nt = 1
    want = [o for o in BPMS if o in req]
    nb = len(want)
    tr = Tracker(ctx, npart, nt, lost=lost)
    nz = Noise(ctx, 2 * nb * nt, nb * nt)
    before = snap(SC)
    beam = W.mod("pySC.core.beam")
    with tr.stub(), W.random(ctx, nz):
        out = beam.bpm_reading(SC, np.array(req), calculate_errors=errors_too)
    ctx.check(tr.calls == nshots, "one beam per shot")
    B, S_ = out[0], out[1]
    R = {}
    if not nz.by_size(nshots):
        if (parts or {}).get("noise", True) or (parts or {}).get("sumerr", True):
            same_state(ctx, before, SC, "reading the BPMs changes nothing")
            return   # drawn in an unknown order: decided by the cases without noise and sum errors
        nz.forget(nshots)
    for t in range(nt):
        for j, o in enumerate(want):
            rs = [single(ctx, SC, tr, nz, s, j, o, t, nb, nt, npart, mode == "ORB") for s in range(nshots)]
            ws = [r[2] for r in rs]
            R[t, j] = ([wavg([(r[d], r[2]) for r in rs]) for d in (0, 1)], total(ws) / nshots, rs)
    if mode == "PORB":
        ctx.check(B.shape == (2, nb) and S_.shape == (2, nb), "one column per BPM")
        for j in range(nb):
            for d in (0, 1):
                ctx.eq(B[d, j], wavg([(R[t, j][0][d], R[t, j][1]) for t in range(nt)]), "pseudo orbit is the charge-weighted turn average")
                ctx.eq(S_[d, j], sum((R[t, j][1] for t in range(1, nt)), R[0, j][1]) / nt, "sum signal averages over turns")
    else:
        ctx.check(B.shape == (2, nb * nt) and S_.shape == (2, nb * nt), "one column per BPM and turn")
        for (t, j), (xy, w, rs) in R.items():
            k = t * nb + j
            for d in (0, 1):
                ctx.eq(B[d, k], xy[d], "reading is the charge-weighted shot average")
                ctx.eq(S_[d, k], w, "sum signal averages over shots")
                if errors_too and mode == "TBT":
                    E_ = out[2]
                    if any(is_nan(r[d]) for r in rs):
                        ctx.check(is_nan(E_[d, k]), "no statistical error when a shot was lost")
                    else:
                        e = E_[d, k]
                        ctx.check(e >= 0, "statistical error is non-negative")
                        m = xy[d]
                        ctx.eq(e * e, wavg([((r[d] - m) * (r[d] - m), r[2]) for r in rs]), "statistical error is the weighted rms spread")
    if errors_too:
        ctx.check(len(out) == (3 if mode == "TBT" else 2), "errors only for turn-by-turn readings")
    same_state(ctx, before, SC, "reading the BPMs changes nothing")


FLAT = dict(roll=False, noise=False, cal=False, sumerr=False)
NSUM = dict(roll=False, noise=False, cal=False, off=False)
CASES = [
    Case("TBT-2shots", shots, mode="TBT", nshots=2, nt=1, req=(3, 7)),
    Case("TBT-3shots", shots, mode="TBT", nshots=3, nt=1, req=(5,), parts=NSUM),
    Case("TBT-2shots-2turns", shots, mode="TBT", nshots=2, nt=2, req=(7, 1), parts=FLAT),
    Case("TBT-2shots-noise", shots, mode="TBT", nshots=2, nt=1, req=(3,), parts=dict(roll=False, cal=False)),
    Case("TBT-2shots-lost", shots, mode="TBT", nshots=2, nt=2, req=(3,), lost=["all"], parts=FLAT),
    Case("TBT-2shots-lost-w", shots, mode="TBT", nshots=2, nt=1, req=(3, 5), npart=2, lost=["all"], lostat=0.5, parts=FLAT),
    Case("TBT-3turns", shots, mode="TBT", nshots=1, nt=3, req=(1, 3, 5, 7), parts=FLAT),
    Case("ORB-2shots", shots, mode="ORB", nshots=2, nt=1, req=(3, 7), parts=dict(roll=False, cal=False)),
    Case("PORB-2turns", shots, mode="PORB", nshots=1, nt=2, req=(3, 7)),
    Case("PORB-3turns", shots, mode="PORB", nshots=1, nt=3, req=(7,), parts=NSUM),
    Case("PORB-2turns-2shots", shots, mode="PORB", nshots=2, nt=2, req=(3,), parts=NSUM),
    Case("PORB-2turns-lost", shots, mode="PORB", nshots=1, nt=2, req=(3, 5), lost=["all"], parts=FLAT),
    Case("PORB-2turns-lost-w", shots, mode="PORB", nshots=2, nt=2, req=(5,), npart=1, lost=["all"], parts=FLAT),
    Case("TBT-errors-2", shots, mode="TBT", nshots=2, nt=1, req=(3,), parts=NSUM, errors_too=True),
    Case("TBT-errors-flat3", shots, mode="TBT", nshots=3, nt=1, req=(3,), parts=FLAT, errors_too=True),
    Case("TBT-errors-lost", shots, mode="TBT", nshots=2, nt=2, req=(5,), parts=FLAT, lost=["all"], errors_too=True),
    Case("TBT-errors-2b2t", shots, mode="TBT", nshots=2, nt=2, req=(5, 3), parts=FLAT, errors_too=True),
    Case("ORB-errors", shots, mode="ORB", nshots=2, nt=1, req=(5, 3), parts=FLAT, errors_too=True),
    Case("TBT-4shots-deep", shots, quick=False, mode="TBT", nshots=4, nt=1, req=(3, 5), parts=NSUM),
    Case("PORB-3t2s-deep", shots, quick=False, mode="PORB", nshots=2, nt=3, req=(3, 5), parts=NSUM),
    Case("TBT-lost-deep", shots, quick=False, mode="TBT", nshots=3, nt=1, npart=2, req=(3,), lost=["all"], lostat=0.75, parts=NSUM, errors_too=True),
]
