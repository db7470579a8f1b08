"""Optics correction from orbit responses (LOCO): measurement, Jacobian, fit and application."""
import types

from props.common import *

BOUNDS = dict(machine="3 quadrupoles, 2 BPMs, up to 3 corrector columns", fit="2 to 3 quadrupoles, 2 to 3 correctors and 4 BPM readings, arbitrary parameters and residuals; weights none, a number or one per reading",
              response="arbitrary response of second order in every set point")
ASSUMPTIONS = ["the Jacobian in the fit is one of several fixed ones", "the pool of processes is replaced by calls on copies, one after the other", "least_squares returns any point (its quality is scipy's)"]
Q, BPM, HC, VC = (1, 4, 7), (2, 6), (3, 8), (3,)


def loco():
    return W.mod("pySC.correction.loco")


def machine(ctx, limit=None):
    SC = new_SC(lattice([drift(), quad("QF", k=1.5), monitor(), corrector("C1"), quad("QD", k=-1.25), dipole("BD", 1.0, 0.125, -0.5), monitor(), quad("QF", k=2.0), corrector("C2"), cavity()]))
    SC.register_magnets(np.array(Q))
    SC.register_magnets(np.array([5]), CF=1)
    kw = {} if limit is None else dict(CMlimit=limit)
    SC.register_magnets(np.array([3]), HCM=10.0 if limit is None else limit, VCM=10.0)
    SC.register_magnets(np.array([8]), HCM=10.0)
    SC.register_bpms(np.array(BPM))
    SC.register_cavities(np.array([9]))
    for o in Q:
        SC.RING[o].SetPointB = arr([0.0, ctx.real(f"k{o}", -3, 3)])
        SC.RING[o].SetPointA = arr([0.0, ctx.real(f"s{o}", -1, 1)])
    SC.update_magnets()
    return SC


class Serial:
    """stands in for multiprocessing.Pool: every task gets its own copy of the arguments"""

    def __init__(self, *a, **k):
        pass

    def map(self, f, it, *a, **k):
        return [f(copy.deepcopy(x)) for x in it]

    def starmap(self, f, it, *a, **k):
        return [f(*copy.deepcopy(x)) for x in it]

    def imap(self, f, it, *a, **k):
        return iter(self.map(f, it))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    join = terminate = close


def measure(ctx, h, v, bpms, limit=None):
    """h, v: correctors; limit: symbolic set point close to it"""
    SC = machine(ctx, limit)
    sp = {}
    for o, ab in ((3, "B"), (3, "A"), (8, "B")):
        x = sp[o, ab] = ctx.real(f"cm{o}{ab}", -1, 1)
        setattr(SC.RING[o], "SetPoint" + ab, arr([x] + [0.0] * (len(getattr(SC.RING[o], "SetPoint" + ab)) - 1)))
    SC.update_magnets()
    SC.INJ.trackMode = "ORB"
    before, n = snap(SC), 0
    dk = ctx.real("dk", 0.125, 0.5)
    cols = [(o, "B") for o in h] + [(o, "A") for o in v]
    allow = [(o, a) for o in (3, 8) for a in ("SetPointA", "SetPointB", "PolynomA", "PolynomB", "KickAngle")]
    gain = {}

    def f(SP):
        """readings, in order of plane and BPM"""
        out = []
        for p in range(2):
            row = []
            for i, b in enumerate(bpms):
                y = 0.125 * (i + p)
                for k, key in enumerate(sorted(sp)):
                    d = SP[key]
                    y = y + (0.5 + 0.25 * k - 0.125 * i + p) * d + 0.25 * (1 + i - 2 * p) * d * d
                row.append(y)
            out.append(row)
        return out

    def reading(S, bpm_ords=None, *a, **k):
        ctx.check(S is SC and [int(b) for b in bpm_ords] == list(bpms), "the requested BPMs are read")
        ctx.check(SC.INJ.trackMode == "ORB", "closed orbits are read")
        same_ring(ctx, before["RING"], SC.RING, "only correctors are moved", allow)
        return arr(f({(o, ab): getattr(SC.RING[o], "SetPoint" + ab)[0] for o, ab in sp})), None
    if limit is None:
        with W.patched("pySC.core.beam", "bpm_reading", reading):
            RM = loco().measure_closed_orbit_response_matrix(SC, np.array(bpms), [np.array(h, dtype=int), np.array(v, dtype=int)], dk)
        ctx.check(tuple(np.shape(RM)) == (2 * len(bpms), len(cols)), "one column per corrector, one row per reading")
        ref = f(sp)
        for j, c in enumerate(cols):
            new = f({**sp, c: sp[c] + dk})
            for p in range(2):
                for i in range(len(bpms)):
                    ctx.eq(RM[p * len(bpms) + i, j] * dk, new[p][i] - ref[p][i], "each column is the change of the readings per kick of its corrector")
    else:
        with W.patched("pySC.core.beam", "bpm_reading", reading):
            loco().measure_closed_orbit_response_matrix(SC, np.array(bpms), [np.array(h, dtype=int), np.array(v, dtype=int)], dk)
    same_state(ctx, before, SC, "afterwards the machine is as before")


def jacobian(ctx, quads, skew=False, disp=False, full=True):
    SC = machine(ctx)
    before = snap(SC)
    cor, nb = [np.array(HC), np.array(VC)], 2 * len(BPM)
    nc = 3
    attr = "SetPointA" if skew else "SetPointB"
    k0 = {o: before["RING"][o][attr][1] for o in Q}
    dk = ctx.real("dk", 0.125, 0.5)

    def entries(S, i, j):
        y = 0.25 * i - 0.125 * j
        for n, o in enumerate(Q):
            k = getattr(S.RING[o], attr)[1] if not isinstance(S, dict) else S[o]
            y = y + (1 + 0.25 * n + 0.5 * i - 0.25 * j) * k + 0.125 * (1 + n + i * j) * k * k
        return y

    class At:                                 # a machine with given strengths
        def __init__(self, k):
            self.RING = {o: types.SimpleNamespace(**{attr: [0.0, k[o]]}) for o in Q}

    def rm(S, BPMords, CMords, trackMode="TBT", Z0=np.zeros(6), nTurns=1, dkick=1e-5, useIdealRing=True):
        ctx.check([int(b) for b in BPMords] == list(BPM) and [[int(c) for c in x] for x in CMords] == [list(HC), list(VC)], "responses of the requested correctors at the requested BPMs")
        ctx.check(trackMode == "ORB" and not useIdealRing and dkick == 0.25, "responses are calculated as requested")
        return arr([[entries(S, i, j) for j in range(nc)] for i in range(nb)])

    def eta(S, BPMords, CAVords, trackMode="ORB", Z0=np.zeros(6), nTurns=1, rfStep=1e3, useIdealRing=True):
        ctx.check([int(b) for b in BPMords] == list(BPM) and [int(c) for c in CAVords] == [9] and trackMode == "ORB", "dispersion at the requested BPMs with the requested cavities")
        if useIdealRing:
            return arr([1.0] * nb)
        return arr([entries(S, i, 5) + 0.0 * rfStep for i in range(nb)])
    model = arr([[entries(SC, i, j) for j in range(nc)] for i in range(nb)])
    Cm = [[ctx.real("C", -2, 2) if (i, j) == (1, 2) else model[i, j] for j in range(nc)] for i in range(nb)]
    if not full:
        Cm = [list(r) for r in model]
    kw = dict(includeDispersion=True, rf_step=500.0, cav_ords=np.array([9])) if disp else {}
    import multiprocessing
    real = multiprocessing.Pool
    multiprocessing.Pool = Serial
    try:
        with W.patched("pySC.lattice_properties.response_model", "SCgetModelRM", rm), W.patched("pySC.lattice_properties.response_model", "SCgetModelDispersion", eta):
            J = loco().calculate_jacobian(SC, arr(Cm), 0.25, cor, np.array(BPM), np.array(quads), dk, trackMode="ORB", useIdealRing=False, skewness=skew, full_jacobian=full, **kw)
    finally:
        multiprocessing.Pool = real
    n = len(quads)
    ctx.check(len(J) == n + (nc + nb if full else 0), "one response per parameter: quadrupoles, correctors, BPM readings")
    for q, o in enumerate(quads):
        S = At({**k0, o: k0[o] + dk})
        for i in range(nb):
            for j in range(nc):
                ctx.eq(J[q][i, j] * dk, entries(S, i, j) - Cm[i][j], "the change of the response per change of one quadrupole")
            if disp:
                ctx.eq(J[q][i, nc] * dk, entries(S, i, 5) - entries(SC, i, 5), "and that of the dispersion")
    if full:
        for i in range(nb):
            for j in range(nc):
                for c in range(nc):
                    ctx.eq(J[n + c][i, j], Cm[i][j] if c == j else 0, "a corrector scales its column")
                for b in range(nb):
                    ctx.eq(J[n + nc + b][i, j], Cm[i][j] if b == i else 0, "a BPM scales its row")
    same_state(ctx, before, SC, "the machine stays as it is")


def fixed_jacobian(lengths, shape, seed):
    rng = np.random.RandomState(seed)
    return rng.randint(-8, 9, (sum(lengths),) + shape) / 8.0


def weights_of(ctx, kind, nb):
    """-> argument, weight per row"""
    if kind == "none":
        return None, [1.0] * nb
    if kind == "number":
        return 4.0, [4.0] * nb
    if kind == "eye":
        return np.eye(nb), [1.0] * nb
    w = [[1.0, 4.0, 0.25, 16.0, 2.25, 9.0, 1.0][i] for i in range(nb)]
    return np.diag(w), w


NAMES = ("quads", "cor", "bpm")


def parts(lengths, names):
    idx, k = [], 0
    for n, l in zip(NAMES, lengths):
        if n in names:
            idx += list(range(k, k + l))
        k += l
    return idx


def lm(ctx, names, weights, lengths=(2, 3, 4), orm=None):
    nb, nc = orm or (lengths[2], lengths[1])
    J = fixed_jacobian(lengths, (nb, nc), 3)
    idx = parts(lengths, names)
    model = np.arange(nb * nc).reshape(nb, nc) / 4.0
    meas = [[ctx.real(f"m{i}{j}", -2, 2) for j in range(nc)] for i in range(nb)]
    w, row = weights_of(ctx, weights, nb)
    guess = arr([0.125 * i for i in range(sum(lengths))])
    x = [ctx.real(f"p{i}", -1, 1) for i in range(len(idx))]
    best = [ctx.real(f"best{i}", -1, 1) for i in range(len(idx))]
    calls = []

    def minimiser(fun, x0, *a, **k):
        ctx.eq(arr(x0), arr([0.125 * i for i in idx]), "the fit starts at the initial guess of the included parameters")
        r = fun(arr(x))
        got = sum(v * v for v in np.ravel(r))
        want = 0
        for i in range(nb):
            for j in range(nc):
                d = meas[i][j] - model[i, j] - sum(x[n] * J[k, i, j] for n, k in enumerate(idx))
                want = want + row[i] * d * d
        ctx.eq(got, want, "the weighted squared distance of the measured from the model response is minimised")
        calls.append(1)
        return types.SimpleNamespace(x=arr(best), success=True)
    kw = {} if w is None else dict(weights=w)
    g0, J0 = guess.copy(), J.copy()
    with W.stub(least_squares=minimiser):
        out = loco().loco_correction_lm(guess, arr(model), arr(meas), J, list(lengths), list(names), verbose=0, **kw)
    ctx.check(len(calls) == 1, "one fit")
    ctx.eq(out, arr(best), "the result is that of the fit")
    ctx.eq(guess, g0, "arguments stay")
    ctx.eq(J, J0, "arguments stay")


def ng(ctx, names, weights, lengths=(2, 3, 4), s_cut=None, lam=0.0, seed=3, free=None, orm=None):
    """measured responses that parameters of the included kinds explain exactly"""
    nb, nc = orm or (lengths[2], lengths[1])
    J = fixed_jacobian(lengths, (nb, nc), seed)
    idx = parts(lengths, names)
    model = np.arange(nb * nc).reshape(nb, nc) / 4.0
    p = [ctx.real(f"p{i}", -1, 1) for i in range(len(idx))]
    meas = [[model[i, j] + sum(p[n] * J[k, i, j] for n, k in enumerate(idx)) for j in range(nc)] for i in range(nb)]
    w, row = weights_of(ctx, weights, nb)
    kw = {} if w is None else dict(weights=w)
    if lam:
        kw["LM_lambda"] = lam
    guess = arr([0.0] * sum(lengths))
    J0 = J.copy()
    out = loco().loco_correction_ng(guess, arr(model), arr(meas), J, list(lengths), list(names), s_cut or len(idx) + 1, **kw)
    ctx.check(tuple(np.shape(out)) == (len(idx),), "one result per included parameter")
    Jt = J0[idx].sum(axis=2)
    M = Jt @ np.diag(row) @ Jt.T
    A = M + lam * np.diag(np.diag(M))
    u, s, v = np.linalg.svd(A)
    k = min(s_cut or len(idx), len(idx))
    inv = v[:k].T @ np.diag(1 / s[:k]) @ u[:, :k].T
    T = inv @ M                                     # identity without cut and damping
    if not lam and k == len(idx):
        T = np.eye(len(idx))
    for i in range(len(idx)):
        ctx.eq(out[i], sum(float(T[i, j]) * p[j] for j in range(len(idx))), "the parameters that explain the measurement are found" if not lam and k == len(idx) else "damped and cut solution of the normal equations")
    ctx.eq(guess, arr([0.0] * sum(lengths)), "arguments stay")
    ctx.eq(J, J0, "arguments stay")


def apply(ctx, individuals, skew=False, order=1, dip=None, method=None):
    SC = machine(ctx)
    SC2 = copy.deepcopy(SC)
    fams = [np.array([1, 7]), np.array([4, 5])]
    r = [ctx.real(f"r{i}", -1, 1) for i in range(4 if individuals else 2)]
    kw = dict(skewness=skew, order=order)
    if method:
        kw["method"] = method
    r0 = arr(r)
    out = loco().set_correction(SC, r0, np.array([7, 1, 4, 5]) if individuals else fams, individuals=individuals, **kw)
    ctx.check(out is SC, "the machine is returned")
    for o, v in zip((7, 1, 4, 5), r if individuals else (r[0], r[0], r[1], r[1])):
        a = "SetPointA" if skew else "SetPointB"
        s = getattr(SC2.RING[o], a)
        new = s[order] - v if method is None else -v if method == "abs" else s[order] * -v
        SC2.set_magnet_setpoints(o, new, skew, order, "abs", dipole_compensation=True)
        ctx.eq(getattr(SC.RING[o], a)[order], new, "the found errors are subtracted from the set points of their magnets")
    for o in Q + (5,):
        for a in ("SetPointB", "PolynomB", "PolynomA", "SetPointA"):
            ctx.eq(getattr(SC.RING[o], a), getattr(SC2.RING[o], a), "as if set directly, the bending angle of combined magnets stays")
    ctx.eq(r0, arr(r), "arguments stay")
    same_ring(ctx, snap_ring(SC2.RING), SC.RING, "nothing else changes", [(o, a) for o in Q + (5,) for a in ("SetPointA", "SetPointB", "PolynomA", "PolynomB")])


def beat(ctx, n, free):
    ring = lattice([drift(), monitor(), drift(), monitor(), monitor()])
    inds = np.array([1, 3, 4])[:n]
    b0 = [[2.0, 4.0], [1.0, 8.0], [4.0, 0.5]][:n]
    b1 = [[ctx.real(f"b{i}{p}", 0.5, 8) for p in range(2)] for i in range(n)]
    if free:
        b0 = [[ctx.real("b0", 0.5, 4), 4.0]] + b0[1:]

    def optics(r, refpts=None, *a, **k):
        ctx.check(r is ring and [int(i) for i in refpts] == [int(i) for i in inds], "the optics of the ring at the elements")
        return None, None, types.SimpleNamespace(beta=arr(b1), s_pos=np.arange(n) * 1.0)
    with W.stub(get_optics=optics):
        out = loco().model_beta_beat(ring, types.SimpleNamespace(beta=arr(b0)), inds)
    for p in range(2):
        want = 0
        for i in range(n):
            d = b1[i][p] / b0[i][p] - 1
            want = want + d * d
        ctx.check(out[p] >= 0, "rms values")
        ctx.eq(out[p] * out[p] * n, want, "rms relative deviation of the beta functions from the given ones")


CASES = [Case(f"measure-{i}", measure, h=h, v=v, bpms=b) for i, (h, v, b) in enumerate((((3, 8), (3,), (2, 6)), ((8,), (), (6,)), ((), (3,), (2, 6)), ((8, 3), (3,), (6, 2))))]
CASES += [Case("measure-limit", measure, h=(3, 8), v=(3,), bpms=(2, 6), limit=1.0)]
CASES += [Case(f"jac-{i}-{int(s)}-{int(f)}", jacobian, quads=q, skew=s, full=f) for i, q in enumerate(((1, 4, 7), (7, 1), (4,))) for s in (False, True) for f in (True, False)]
CASES += [Case(f"jac-disp-{i}", jacobian, quads=q, disp=True, full=False) for i, q in enumerate(((1, 4, 7), (7,)))]
SUBSETS = (("quads", "cor", "bpm"), ("quads",), ("cor",), ("bpm",), ("quads", "bpm"), ("bpm", "quads", "cor"), ("cor", "bpm"), ("quads", "cor"))
CASES += [Case(f"lm-{'+'.join(n)}-{w}", lm, names=n, weights=w) for n, ws in zip(SUBSETS[:6], (("none", "diag"), ("none", "number"), ("diag",), ("number",), ("none",), ("number",))) for w in ws]
CASES += [Case(f"lm-{'+'.join(n)}-more", lm, names=n, weights="diag", lengths=(2, 4, 3)) for n in (("cor",), ("bpm",), ("quads", "cor"))]
SMALL = (("quads",), ("cor",), ("bpm",))                                   # the fit sums over correctors: at most as many parameters as readings
# a group of parameters may be missing from the Jacobian
ABSENT = ((("quads", "cor"), (2, 3, 0)), (("cor", "bpm"), (0, 3, 4)), (("bpm", "quads"), (2, 0, 4)), (("quads",), (2, 0, 0)), (NAMES, (2, 3, 0)))
CASES += [Case(f"lm-absent-{i}", lm, names=n, weights="diag", lengths=l, orm=(4, 3)) for i, (n, l) in enumerate(ABSENT)]
CASES += [Case(f"ng-absent-{i}", ng, names=n, weights="none", lengths=l, orm=(4, 2 if l == (2, 2, 0) else 3)) for i, (n, l) in enumerate(((("quads", "cor"), (2, 2, 0)), (("cor",), (0, 3, 4)), (("quads",), (2, 0, 0))))]
CASES += [Case(f"ng-{'+'.join(n)}-{w}", ng, names=n, weights=w, lengths=(2, 3, 4)) for n in SMALL for w in ("none", "number", "eye", "diag")]
CASES += [Case(f"ng-{'+'.join(n)}-{w}", ng, names=n, weights=w, lengths=l) for n, l in ((("quads", "cor"), (2, 2, 4)), (("cor", "quads"), (2, 2, 5))) for w in ("none", "diag")]
CASES += [Case(f"ng-lambda-{'+'.join(n)}", ng, names=n, weights=w, lam=l) for n, w, l in ((("quads",), "none", 0.5), (("cor",), "eye", 0.125), (("bpm",), "none", 1.0))]
CASES += [Case(f"ng-cut-{'+'.join(n)}-{c}", ng, names=n, weights="none", s_cut=c) for n, c in ((("quads",), 1), (("cor",), 2), (("bpm",), 3), (("bpm",), 1))]
CASES += [Case(f"apply-{int(i)}-{int(s)}-{m}", apply, individuals=i, skew=s, method=m) for i in (True, False) for s in (True, False) for m in (None, "abs")]
CASES += [Case(f"beat-{n}-{int(f)}", beat, n=n, free=f) for n, f in ((3, False), (2, False), (1, True))]
