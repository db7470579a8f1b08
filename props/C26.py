"""Injection fits: the fitted injection trajectory explains the readings, and its negative is the correction."""
from props.common import *

BOUNDS = dict(machine="ring of 5 to 7 elements with 2 to 4 BPMs and arbitrary drift lengths", fit="arbitrary readings, arbitrary second-order tracking of the ideal ring, arbitrary result of the minimiser",
              merit="two arbitrary trial trajectories, up to 3 free coordinates together")
ASSUMPTIONS = ["the minimiser returns any point (its quality is scipy's)", "readings are arbitrary; C06 has the readings themselves"]


def fit():
    return W.mod("pySC.correction.injection_fit")


def machine(ctx, n_bpm, turns=2):
    elems = [drift(L=1.0)]
    for i in range(n_bpm):
        elems += [monitor(), drift(L=0.5)]
    SC = new_SC(lattice(elems))
    SC.register_bpms(np.array([1 + 2 * i for i in range(n_bpm)]))
    SC.INJ.nTurns = turns
    SC.INJ.Z0 = ctx.reals("inj", 6, -1, 1)
    return SC


def drift_fit(ctx, n_bpm, turns, dims=None):
    SC = machine(ctx, n_bpm, turns)
    L1, L2 = ctx.real("L1", 0.5, 2), ctx.real("L2", 0.5, 2)
    for r in (SC.RING, SC.IDEALRING):
        r[0].Length, r[-1].Length = L1, L2
    z = [[ctx.real(f"z{p}{k}", -1, 1) for k in range(2)] for p in range(2)]
    rd = [[ctx.real(f"o{p}{i}", -1, 1) for i in range(n_bpm * turns)] for p in range(2)]
    for p in range(2):                               # the beam drifts from the last BPM through the injection point to the first BPM
        rd[p][n_bpm - 1] = z[p][0] - L2 * z[p][1]
        rd[p][n_bpm] = z[p][0] + L1 * z[p][1]
    before, got = snap(SC), []

    def reading(S, *a, **k):
        ctx.check(S is SC, "the readings are those of the machine")
        got.append(1)
        return arr(rd), None
    with W.patched("pySC.core.beam", "bpm_reading", reading):
        out = fit().fit_injection_drift(SC, **({} if dims is None else dict(n_dims=np.array(dims))))
    ctx.check(len(got) == 1, "one reading is used")
    ctx.check(tuple(np.shape(out)) == (6,), "the correction has six components")
    for i, v in enumerate([z[0][0], z[0][1], z[1][0], z[1][1], 0, 0]):
        ctx.eq(out[i], -v, "the correction is the negative trajectory at the injection point")
    same_state(ctx, before, SC, "the machine stays as it is")


def trajectory_fit(ctx, n_bpm, inds, free, failed=False):
    """free: coordinates of the two trial trajectories that are symbolic"""
    SC = machine(ctx, n_bpm)
    SC.RING[0].Length = 3.0                                   # the model is the ideal ring
    used = [0, 1, 2] if inds is None else list(inds)
    rd = [[0.25 * ((7 * p + 3 * i) % 5) - 0.5 for i in range(2 * n_bpm)] for p in range(2)]
    rd[0][used[0]] = ctx.real("r", -1, 1)
    before, calls = snap(SC), []

    def reading(S, *a, **k):
        ctx.check(S is SC, "the readings are those of the machine")
        return arr(rd), None

    def predict(x):
        """position at all elements' BPMs for the trajectory x at the injection point"""
        return [[(0.5 + 0.25 * i) * x[2 * p] + (1.0 - 0.5 * i) * x[2 * p + 1] + 0.125 * x[2 - 2 * p] + 0.0625 * i * x[0] * x[2] for i in range(n_bpm)] for p in range(2)]

    def track(lattice=None, r_in=None, nturns=1, refpts=None, *a, **k):
        z = r_in
        ctx.check(len(lattice) == len(SC.IDEALRING) and all(x.Length == y.Length for x, y in zip(lattice, SC.IDEALRING)) and nturns == 1, "the model is one turn of the ideal ring")
        zz = np.asarray(z).reshape(6, -1)
        ctx.check(zz.shape[1] == 1, "one particle is tracked")
        for i in (4, 5):
            ctx.eq(zz[i, 0], 0, "on energy")
        ords = [int(o) for o in np.ravel(refpts)]
        ctx.check(ords == [int(SC.ORD.BPM[i]) for i in used], "the model is evaluated at the BPMs of the fit", str(ords))
        pos = predict([zz[i, 0] for i in range(4)])
        out = [[[[0.0] for _ in ords] for _ in range(1)] for _ in range(6)]
        for k_, o in enumerate(ords):
            out[0][0][k_][0], out[2][0][k_][0] = pos[0][(o - 1) // 2], pos[1][(o - 1) // 2]
        return arr([out[c][0][j][0] for c in range(6) for j in range(len(ords))]).reshape(6, 1, len(ords), 1), None, None
    best = [ctx.real(f"best{i}", -1, 1) for i in range(4)]

    def minimiser(fun, x0, args=(), *a, **k):
        ctx.check(tuple(np.shape(x0)) == (4,), "position and angle in both planes are fitted")
        pts = [[0.25 * (i - 1) * (1 + t) for i in range(4)] for t in range(2)]
        for t in range(2):
            for i in free:
                pts[t][i] = ctx.real(f"x{t}{i}", -1, 1)
        f, q = [], []
        for x in pts:
            f.append(fun(arr(x), *args))
            pos = predict(x)
            q.append(sum((rd[p][i] - pos[p][i]) * (rd[p][i] - pos[p][i]) for p in range(2) for i in used))
        ctx.assume(abs(q[0] - q[1]) > 0.0009765625)
        ctx.check((f[0] < f[1]) == (q[0] < q[1]), "the trajectory closest to all readings together is the best")
        calls.append(1)
        return arr([NAN] * 4 if failed else best)
    with W.stub(lattice_track=track, fmin=minimiser), W.patched("pySC.core.beam", "bpm_reading", reading):
        try:
            out = fit().fit_injection_trajectory(SC, **({} if inds is None else dict(bpm_inds=np.array(inds))))
        except E.Inconclusive:
            raise
        except RuntimeError:
            ctx.check(failed, "the fit succeeds")
            same_state(ctx, before, SC, "a failed fit changes nothing")
            return
    ctx.check(not failed, "a failed fit is an error")
    ctx.check(len(calls) == 1, "one fit")
    for i in range(6):
        ctx.eq(out[i], -best[i] if i < 4 else 0, "the correction is the negative of the best trajectory")
        ctx.eq(SC.INJ.Z0[i], before["INJ"]["Z0"][i] + (-best[i] if i < 4 else 0), "the injection is corrected by it")
    before["INJ"]["Z0"] = SC.INJ.Z0.copy()
    same_state(ctx, before, SC, "nothing but the injection changes")


CASES = [Case(f"drift-{n}-{t}", drift_fit, n_bpm=n, turns=t) for n, t in ((2, 2), (3, 2), (2, 3), (4, 2))]
CASES += [Case("drift-dims", drift_fit, n_bpm=2, turns=2, dims=(1,))]
CASES += [Case(f"traj-{n}-{'d' if i is None else ''.join(map(str, i))}-{''.join(map(str, f))}", trajectory_fit, n_bpm=n, inds=i, free=f)
          for n, i, fs in ((3, None, ((0, 1), (2, 3), (0, 2))), (4, (1, 3), ((0, 2), (1, 3), (0, 1, 2))), (2, (0,), ((0, 3), (0, 1, 2, 3)))) for f in fs]
CASES += [Case("traj-failed", trajectory_fit, n_bpm=3, inds=None, free=(0,), failed=True)]
