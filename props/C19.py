"""Trajectory-based BPM alignment: the offsets of the magnets are found from the readings, the machine is restored."""
from props.common import *

BOUNDS = dict(machine="4 BPMs, quadrupole, combined-function dipole, sextupole and skew quadrupole each next to a BPM, one phase quadrupole",
              beam="readings linear in the injection and in the fields of the magnets; arbitrary closed orbit downstream, arbitrary magnet offsets in [-1.25 mm, 1.25 mm]",
              scan="4 to 6 injection steps, 2 or 3 magnet strengths; beam loss for large kicks or at late BPMs")
ASSUMPTIONS = ["the beam responds linearly to the fields at the beam position", "the position at the BPM next to the magnet varies a little between magnet strengths (the fit weights need it)",
               "injection settings, optics and strengths are fixed numbers; offsets, orbits and BPM errors are arbitrary"]
BORD = (3, 5, 8, 11)
Q, B, S, K, P = 4, 6, 9, 12, 2
LEN = 0.5
UNIT = 2.0**-16


def machine(ctx):
    SC = new_SC(lattice([drift(), corrector("C"), quad("P", 0.5, 1.0), monitor("B1"), quad("Q", LEN, 2.0), monitor("B2"),
                         dipole("BD", LEN, 0.125, -1.5), drift(), monitor("B3"), sext("S", LEN, 8.0), drift(), monitor("B4"), quad("K", LEN, 1.0), drift()]))
    SC.register_bpms(np.array(BORD))
    SC.register_magnets(np.array([1]), HCM=10.0, VCM=10.0)
    SC.register_magnets(np.array([P, Q]))
    SC.register_magnets(np.array([B]), HCM=10.0, CF=1)
    SC.register_magnets(np.array([S]))
    SC.register_magnets(np.array([K]), SkewQuad=10.0)
    SC.INJ.nTurns = 2
    SC.INJ.trackMode = "TBT"
    SC.INJ.Z0 = arr([2.0**-13, -2.0**-15, 2.0**-12, 2.0**-16, 2.0**-10, 0.0])
    for o in BORD:
        SC.RING[o].Offset = ctx.reals(f"bo{o}", 2, -1e-3, 1e-3)
    SC.RING[Q].CalErrorB = arr([0.0, 0.0625])
    SC.update_magnets()
    for o, v in ((Q, 2.0625), (B, -1.5625)):          # the machine is not at its nominal settings
        SC.set_magnet_setpoints(np.array([o]), v, False, 1)
    SC.set_magnet_setpoints(np.array([S]), 8.5, False, 2)
    SC.set_magnet_setpoints(np.array([K]), 0.125, True, 1)
    SC.set_magnet_setpoints(np.array([P]), 1.0625, False, 1)
    SC.set_cm_setpoints(np.array([B]), 2.0**-12, False)
    return SC


class Beam:
    """reading k (over both turns) = orbit + injection + kicks of the magnets before it at the beam position there"""

    def __init__(self, ctx, SC, centres, limit=None, late=None, side=0, weak=None):
        self.ctx, self.SC, self.c, self.limit, self.late, self.side, self.weak = ctx, SC, centres, limit, late, side, weak
        self.Z, self.seen = SC.INJ.Z0.copy(), []
        self.where = {Q: 0, B: 1, S: 2, K: 3}
        self.orbit = {}
        self.poly = {m: (list(SC.RING[m].PolynomB) + [0.0] * 3, list(SC.RING[m].PolynomA) + [0.0] * 3) for m in self.where}
        self.base = {m: (SC.RING[m].SetPointB.copy(), SC.RING[m].SetPointA.copy()) for m in self.where}

    def u(self, k, d):
        """position w.r.t. the BPM without the magnets' change (concrete)"""
        z = self.SC.INJ.Z0
        gain = (0.75 + 0.125 * k - 0.25 * d) * (1.0 + 0.25 * (self.SC.RING[P].SetPointB[1] - 1.0) * (1 if k != 1 else -4))
        return (round(float(gain * (z[2 * d] + (0.5 + 0.25 * k) * z[2 * d + 1])) / UNIT) + k - d) * UNIT     # few digits: exact arithmetic

    def kick(self, m, d):
        """change of the deflection by magnet m with respect to its initial settings"""
        e, j = self.SC.RING[m], self.where[m]
        x, y = [self.u(j, p) - self.c[m][p] for p in (0, 1)]
        a = [p - q for p, q in zip(list(e.PolynomA) + [0.0] * 3, self.poly[m][1])]
        b = [p - q for p, q in zip(list(e.PolynomB) + [0.0] * 3, self.poly[m][0])]
        if m == S:          # only the squares: one plane is scanned at a time
            return LEN * (b[2] * (x * x if d == 0 else y * y))
        if d == 0:
            return -LEN * (b[0] + b[1] * x - a[1] * y)
        return LEN * (a[0] + b[1] * y + a[1] * x)

    def sign(self, m):
        """-1, 0, 1: the scanned component is below, at, above its initial value"""
        e = self.SC.RING[m]
        t = 0
        for new, old in zip((e.SetPointB, e.SetPointA), self.base[m]):
            for n, o in zip(list(new)[1:], list(old)[1:]):
                t += (1 if n > o else -1 if n < o else 0)
        return t

    def reading(self, SC, bpm_ords=None, *a, **k):
        if a or k or bpm_ords is not None and list(map(int, bpm_ords)) != list(BORD):
            raise E.Inconclusive("BPM reading with further arguments")
        n = len(BORD) * SC.INJ.nTurns
        out = np.full((2, n), NAN, dtype=object if W.MODE == "sym" else float)
        dz = [SC.INJ.Z0[i] - self.Z[i] for i in range(6)]
        size = max(abs(float(v)) if self.side == 0 else self.side * float(v) for v in dz)
        limit = self.limit[float(SC.RING[P].SetPointB[1])] if isinstance(self.limit, dict) else self.limit
        last = n if limit is None or size <= limit * (1 + 1e-9) else 1
        if self.weak is not None and self.sign(Q) > 0:
            last = min(last, self.weak)
        if self.late is not None and size > self.late[0]:
            last = min(last, self.late[1])
        for d in (0, 1):
            for i in range(last):
                if (i, d) not in self.orbit:
                    self.orbit[i, d] = self.ctx.real(f"t{i}.{d}", -1e-3, 1e-3) if i else 0.0
                j = i % len(BORD)
                v = self.u(i, d) if i < len(BORD) else self.u(j, d) + self.orbit[i, d]
                for m, w in self.where.items():
                    if i > w:
                        v = v + (0.5 + 0.125 * (i - w)) * self.kick(m, d)
                if i < len(BORD):
                    for m, w in self.where.items():
                        if w == i:
                            v = v + UNIT * self.sign(m)
                out[d, i] = v
        self.seen.append(dict(dz=dz, nturns=SC.INJ.nTurns, ring=snap_ring(SC.RING), Z0=SC.INJ.Z0))
        return arr(out), zeros(n)


def centres(ctx, only=None):
    return {m: [ctx.real(f"c{m}.{d}", -1.25e-3, 1.25e-3) if only is None or (m, d) in only else 2e-4 for d in (0, 1)] for m in (Q, B, S, K)}


class Stats:
    """statistics by contract: a weighted mean with unequal weights, arbitrary non-negative errors (C25 has the functions themselves)"""

    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def mean(self, data, errors=None, axis=None):
        d = list(np.asarray(data, dtype=object).reshape(-1)) if W.MODE == "sym" else list(np.ravel(data))
        if not d:
            raise ZeroDivisionError("Weights sum to zero, can't be normalized")
        self.n += 1
        w = [0.5**min(i + 1, len(d) - 1) for i in range(len(d))]
        r = 0.0
        for x, y in zip(d, w):
            r = r + x * y
        return r

    def error(self, data, errors=None, axis=None, t_value_corr=True):
        self.n += 1
        return self.ctx.real(f"err{self.n}", 0, 1e-3)

    def size(self, data, weights, axis=None):
        return 4.0

    def weights(self, errors, period=None):
        return errors

    def __enter__(self):
        self.p = [W.patched("pySC.utils.stats", n, f) for n, f in (("weighted_mean", self.mean), ("weighted_error", self.error),
                                                                   ("effective_sample_size", self.size), ("weights_from_errors", self.weights))]
        for p in self.p:
            p.__enter__()

    def __exit__(self, *a):
        for p in reversed(self.p):
            p.__exit__(*a)


def run(ctx, SC, beam, bpms, mags, **kw):
    f = W.mod("pySC.correction.bba").trajectory_bba
    with W.patched("pySC.core.beam", "bpm_reading", beam.reading), Stats(ctx):
        try:
            return f(SC, np.array(bpms), np.array(mags), **kw)
        except E.Inconclusive:
            raise
        except (ValueError, RuntimeError) as ex:
            return ex


def close(a, b, tol=1e-12):
    return abs(float(a) - float(b)) <= tol


def swing(beam, d, i, p):
    """how far the reading of BPM i moves per injection kick when the phase quadrupole is at p"""
    return abs((0.75 + 0.125 * i - 0.25 * d) * (1.0 + 0.25 * (p - 1.0) * (1 if i != 1 else -4)) * (1.5 + 0.25 * i))


def procedure(ctx, SC, beam, bpms, mags, strengths, n_steps, order, skew, kickmax, k, phase, p0):
    """every magnet is scanned over its strengths and every strength over the injection steps; nothing else is changed meanwhile"""
    main = [r for r in beam.seen if r["nturns"] == 2]
    nq = len(strengths[mags[0][0]])
    per = nq * n_steps
    pairs = [(d, j) for d in range(len(bpms)) for j in range(len(bpms[0]))]
    ctx.check(len(main) == per * len(pairs), "one reading per BPM, strength and step")
    L = "A" if skew else "B"
    for b, (d, j) in enumerate(pairs):
        todo = [(q, s) for q in range(nq) for s in range(n_steps)]
        m = mags[d][j]
        best = max(range(len(phase)), key=lambda q: swing(beam, d, BORD.index(bpms[d][j]), phase[q]) * 0.8 ** k[d][q]) if phase else 0
        for r in main[b * per:(b + 1) * per]:
            hit = None
            for q, s in todo:
                x = (-1 + 2 * s / (n_steps - 1)) * 0.8 ** k[d][best]
                if close(r["ring"][m]["SetPoint" + L][order], strengths[m][q]) and close(r["dz"][2 * d], kickmax[0] * x) and close(r["dz"][2 * d + 1], kickmax[1] * x):
                    hit = (q, s)
            ctx.check(hit is not None, "readings are taken at the requested strengths and scaled injection steps")
            if hit in todo:
                todo.remove(hit)
            ctx.check(close(r["ring"][P]["SetPointB"][1], phase[best] * 1.0 if phase else p0), "the phase quadrupoles are where the BPM sees the largest variation")
            for o in (Q, B, S, K):
                if o != m:
                    ctx.check(close(r["ring"][o]["SetPointB"][1 + (o == S)], beam.base[o][0][1 + (o == S)]) and close(r["ring"][o]["SetPointA"][1], beam.base[o][1][1]),
                              "only the magnet under study is changed")
            for i in range(6):
                if i // 2 != d:
                    ctx.check(close(r["dz"][i], 0.0), "only the injection of the plane under study is changed")


def align(ctx, bpms, mags, n_steps=5, strengths=None, method="rel", order=1, skew=False, fit=1, comp=True, only=None, limit=None, late=None, phase=None, downstream=None, shape3=False, k=0, plain=False,
          side=0, weak=None, fails=False):
    SC = machine(ctx)
    c = centres(ctx, only)
    beam = Beam(ctx, SC, c, limit, late, side, weak)
    kw = {}
    st = strengths or [0.9375, 1.125]
    kmax = (2.0**-10, 2.0**-10)
    if plain:               # everything by default
        st, kmax, n_steps = [0.95, 1.05], (0.9e-3, 0.9e-3), 10
    else:
        kw.update(n_steps=n_steps, max_injection_pos_angle=np.array(kmax))
    if not plain:
        kw["magnet_strengths"] = np.tile(np.array(st), (len(bpms), len(bpms[0]), 1)) if shape3 else np.array(st)
    if method != "rel":
        kw["setpoint_method"] = method
    if order != 1:
        kw["magnet_order"] = order
    if skew:
        kw["skewness"] = True
    if fit != 1:
        kw["fit_order"] = fit
    if not comp:
        kw["dipole_compensation"] = False
    if phase:
        kw.update(q_ord_phase=np.array([P]), q_ord_setpoints=np.array(phase))
    if downstream:
        kw["num_downstream_bpms"] = downstream
    before = snap(SC)
    out = run(ctx, SC, beam, bpms, mags, **kw)
    ctx.check(isinstance(out, tuple) and len(out) == 3 and out[0] is SC, "the machine, offsets and errors are returned")
    if not isinstance(out, tuple):
        return
    _, off, err = out
    ab = "A" if skew else "B"
    sets = {}
    for m in {x for r in mags for x in r}:
        nom, base = before["RING"][m]["NomPolynom" + ab][order], before["RING"][m]["SetPoint" + ab][order]
        sets[m] = [s * nom if method == "rel" else s + base if method == "add" else s for s in st]
    if method != "add":         # additive strengths accumulate: only the offset and the restoration are claimed
        procedure(ctx, SC, beam, bpms, mags, sets, n_steps, order, skew, kmax, k if isinstance(k, list) else [[k], [k]], phase, before["RING"][P]["SetPointB"][1])
    flag = W.mod("pySC.correction.bba").is_bba_errored(off, err)
    allow = [(o, "Offset") for r in bpms for o in r]
    for d in range(len(bpms)):
        for j, o in enumerate(bpms[d]):
            old = before["RING"][o]["Offset"][d]
            centre = c[mags[d][j]][d]
            ctx.check(bool(np.isnan(off[d, j])) == fails, "a failed measurement is reported as such" if fails else "a clear measurement gives a result")
            if not fails:
                ctx.eq(off[d, j], centre, "the offset found is the one between BPM and magnetic centre")
            if not bool(flag[d, j]):
                ctx.eq(SC.RING[o].Offset[d], old + centre, "the BPM offset is corrected by the measured offset")
            else:
                ctx.eq(SC.RING[o].Offset[d], old, "poor measurements are not applied")
            if d == 0 and not (len(bpms) > 1 and o in bpms[1]):
                ctx.eq(SC.RING[o].Offset[1], before["RING"][o]["Offset"][1], "the other plane is left alone")
    same_state(ctx, before, SC, "injection, magnets and everything but the BPM offsets is restored", allow)


def reject(ctx, what):
    SC = machine(ctx)
    beam = Beam(ctx, SC, centres(ctx, ()))
    kw, bpms, mags = {}, [[3]], [[Q]]
    if what == "turns":
        SC.INJ.nTurns = 1
    elif what == "mode":
        SC.INJ.trackMode = "ORB"
    elif what == "shape":
        mags = [[Q, B]]
    else:
        kw["fit_order"] = 3
    before = snap(SC)
    out = run(ctx, SC, beam, bpms, mags, **kw)
    ctx.check(isinstance(out, ValueError) and not beam.seen, "unsuitable settings are rejected")
    same_state(ctx, before, SC, "nothing is changed")


KX = 2.0**-10
CASES = [
    Case("quad-x", align, bpms=[[3]], mags=[[Q]]),
    Case("quad-xy", align, bpms=[[3], [3]], mags=[[Q], [Q]]),
    Case("default-arguments", align, bpms=[[3]], mags=[[Q]], plain=True, only=()),
    Case("two-quads", align, bpms=[[3, 5]], mags=[[Q, B]], only=((Q, 0), (B, 0))),
    Case("order-of-bpms", align, bpms=[[5, 3]], mags=[[B, Q]], only=((Q, 0), (B, 0))),
    Case("dipole-compensated", align, bpms=[[5]], mags=[[B]]),
    Case("dipole-uncompensated", align, bpms=[[5]], mags=[[B]], comp=False),
    Case("dipole-vertical", align, bpms=[[3], [5]], mags=[[Q], [B]], only=((Q, 0), (B, 1))),
    Case("dipole-vertical-uncompensated", align, bpms=[[3], [5]], mags=[[Q], [B]], comp=False, only=((Q, 0), (B, 1))),
    Case("three-strengths", align, bpms=[[3]], mags=[[Q]], strengths=[0.9375, 1.03125, 1.1875]),
    Case("strengths-per-magnet", align, bpms=[[3], [3]], mags=[[Q], [Q]], shape3=True, only=((Q, 1),)),
    Case("absolute", align, bpms=[[3]], mags=[[Q]], method="abs", strengths=[1.9375, 2.3125]),
    Case("additive", align, bpms=[[3]], mags=[[Q]], method="add", strengths=[-0.25, 0.5]),
    Case("skew", align, bpms=[[11]], mags=[[K]], skew=True, method="abs", strengths=[-0.25, 0.25], downstream=5),
    Case("skew-xy", align, bpms=[[11], [11]], mags=[[K], [K]], skew=True, method="abs", strengths=[-0.25, 0.25], only=((K, 1),)),
    Case("sextupole", align, bpms=[[8]], mags=[[S]], order=2, fit=2, downstream=3),
    Case("sextupole-y", align, bpms=[[3], [8]], mags=[[S], [S]], order=2, fit=2, only=((S, 1),), quick=False),
    Case("scaled-kicks", align, bpms=[[5]], mags=[[B]], only=((B, 0),), limit=KX * 0.7, k=2),
    Case("scaled-kicks-negative", align, bpms=[[5]], mags=[[B]], only=((B, 0),), limit=KX * 0.7, k=2, side=-1),
    Case("scaled-kicks-positive", align, bpms=[[5]], mags=[[B]], only=((B, 0),), limit=KX * 0.7, k=2, side=1),
    Case("scaled-kicks-10", align, bpms=[[5]], mags=[[B]], only=((B, 0),), limit=KX * 0.125, k=10),
    Case("scaled-kicks-vertical", align, bpms=[[3], [5]], mags=[[Q], [B]], only=((Q, 0), (B, 1)), limit=KX * 0.7, k=[[0], [2]]),
    Case("no-transmission", align, bpms=[[5]], mags=[[B]], only=(), limit=KX * 2.0**-10, k=20, fails=True),
    Case("late-loss", align, bpms=[[3]], mags=[[Q]], late=(0.75 * KX, 3), n_steps=9),
    Case("loss-at-one-strength", align, bpms=[[3]], mags=[[Q]], weak=3, strengths=[0.9375, 1.03125, 1.1875]),
    Case("loss-at-one-of-two", align, bpms=[[3]], mags=[[Q]], weak=3),
    Case("no-beam-downstream", align, bpms=[[3]], mags=[[Q]], late=(-1.0, 1), fails=True),
    Case("few-steps", align, bpms=[[3]], mags=[[Q]], n_steps=2, fails=True),
    Case("phase-scan", align, bpms=[[5, 3]], mags=[[B, Q]], phase=[1.0, 1.25], only=((Q, 0),), k=[[0, 0]]),
    Case("phase-scan-scaled", align, bpms=[[3, 5]], mags=[[Q, B]], phase=[1.25, 1.0], only=((Q, 0),), k=[[2, 0]], limit={1.25: KX * 0.7, 1.0: None}),
    Case("phase-scan-3", align, bpms=[[5, 8]], mags=[[Q, Q]], phase=[0.75, 1.0, 1.5], only=(), quick=False, k=[[0, 0, 0]]),
    Case("one-downstream", align, bpms=[[3]], mags=[[Q]], downstream=2),
]
CASES += [Case(f"reject-{w}", reject, what=w) for w in ("turns", "mode", "shape", "fit")]
