"""Model ring, model response matrix and model dispersion."""
from props.common import *

BOUNDS = dict(machine="2 or 3 BPMs, 2 magnets with horizontal and 2 with vertical dipole field (thin corrector, long corrector, quadrupole, sextupole), 2 cavities", beam="any linear and quadratic response of the beam to every dipole field and frequency, 1 to 3 turns, any beam loss", settings="any set points, step sizes 2^-17 to 1 and negative")
ASSUMPTIONS = ["tracking and closed orbit search are replaced by an arbitrary second-order response to the dipole kicks and RF frequencies, everything else in the ring is compared with the expected ring at every call"]
BP = (1, 4, 9)
HC, VC = (3, 5, 6), (3, 5, 7)
RF = (8, 10)


def rm():
    return W.mod("pySC.lattice_properties.response_model")


def machine(ctx, n_bpm=3):
    import at
    SC = new_SC(lattice([drift(), monitor("B1"), quad("Q", 0.5, 1.25), corrector("C"), monitor("B2"), quad("Q2", 0.25, -1.0), sext("S", 0.5, 2.0),
                         dipole("BD", 1.0, 0.125), cavity("R1", 1e6, 5e8), monitor("B3"), cavity("R2", 5e5, 1e9)]))
    SC.register_bpms(np.array(BP))
    SC.register_magnets(np.array([2]))
    SC.register_magnets(np.array([3, 5]), HCM=1.0, VCM=1.0)
    SC.register_magnets(np.array([6]), HCM=1.0)
    SC.register_magnets(np.array([7]), VCM=1.0)
    SC.register_cavities(np.array(RF))
    return SC


def disturb(ctx, SC):
    """machine settings and errors, different from the ideal ring; other ideal fields"""
    for o in (2, 5, 6, 7):
        e = SC.RING[o]
        e.SetPointA = ctx.reals(f"sa{o}", len(e.SetPointA), -1, 1)
        e.SetPointB = ctx.reals(f"sb{o}", len(e.SetPointB), -1, 1)
        e.CalErrorB = ctx.reals(f"cb{o}", len(e.CalErrorB), -0.5, 0.5)
        e.MagnetOffset = ctx.reals(f"mo{o}", 3, -1, 1)
    for o in RF:
        for f in ("Voltage", "Frequency", "TimeLag"):
            setattr(SC.RING[o], f + "SetPoint", ctx.real(f"{f}{o}", 1, 2))
        SC.RING[o].VoltageOffset = ctx.real(f"vo{o}", -1, 1)
    for o in BP:
        SC.RING[o].Offset = ctx.reals(f"bo{o}", 2, -1, 1)
    SC.update_magnets()
    SC.update_cavities()
    for o in (2, 5, 6):
        SC.IDEALRING[o].PolynomB = ctx.reals(f"ib{o}", len(SC.IDEALRING[o].PolynomB), -1, 1)
    return SC


def expected_model(SC, aperture=False):
    """the ideal ring with the machine's set points; no dipole fields"""
    out = snap_ring(SC.IDEALRING)
    for i, e in enumerate(SC.RING):
        if hasattr(e, "SetPointA"):
            out[i]["PolynomA"] = arr([0.0] + list(e.SetPointA)[1:])
            out[i]["PolynomB"] = arr([0.0] + list(e.SetPointB)[1:])
        if hasattr(e, "FrequencySetPoint"):
            for f in ("Voltage", "Frequency", "TimeLag"):
                out[i][f] = getattr(e, f + "SetPoint")
        for f in ("EApertures", "RApertures") if aperture else ():
            if hasattr(e, f):
                out[i][f] = _copyval(getattr(e, f))
    return out


def _copyval(v):
    return v.copy() if isinstance(v, np.ndarray) else v


class Beam:
    """positions at BPMs as second-order function of kicks and frequency changes with respect to the expected ring `base`"""

    def __init__(self, ctx, base, hc=HC, vc=VC, rf=RF, lost=(), quadratic=True, compare=True, z0=None, label="the ring tracked is the model"):
        self.ctx, self.base, self.knobs = ctx, base, [("H", o) for o in hc] + [("V", o) for o in vc] + [("F", o) for o in rf]
        self.lost, self.quadratic, self.compare, self.z0, self.label = lost, quadratic, compare, z0, label
        self.calls, self.known = [], {}

    def real(self, name, lo, hi):
        if name not in self.known:
            self.known[name] = self.ctx.real(name, lo, hi)
        return self.known[name]

    def value(self, kind, o, e):
        b = self.base[o]
        if kind == "F":
            return e.Frequency - b["Frequency"]
        d = 0 if kind == "H" else 1
        f = "PolynomB" if kind == "H" else "PolynomA"
        if e.PassMethod == "CorrectorPass":
            return e.KickAngle[d] - b["KickAngle"][d]
        return (getattr(e, f)[0] - b[f][0]) * e.Length * (-1 if kind == "H" else 1)

    def state(self, ring):
        used = {}
        for kind, o in self.knobs:
            v = self.value(kind, o, ring[o])
            used.setdefault(o, set()).add("Frequency" if kind == "F" else "KickAngle" if ring[o].PassMethod == "CorrectorPass" else "PolynomB" if kind == "H" else "PolynomA")
            if not same_term(v, 0.0):
                yield (kind, o), v
        if self.compare:
            same_ring(self.ctx, self.base, ring, self.label, [(o, f) for o, fs in used.items() for f in fs])
            for o, fs in used.items():
                for f in fs - {"Frequency", "KickAngle"}:
                    self.ctx.eq(getattr(ring[o], f)[1:], self.base[o][f][1:], self.label)

    def coordinates(self, ring, ref, turn, n=None):
        changes = self.pending
        out = []
        for p in "xy":
            t = f"{p}{int(ref)}.{turn}"
            if (tuple(k for k, _ in changes), int(ref), turn) in self.lost:
                out.append(NAN)
                continue
            v = self.real("t" + t, -1, 1)
            for (kind, o), k in changes:
                v = v + self.slope(kind, o, p, ref, turn) * k
                if self.quadratic:
                    v = v + self.curve(kind, o, p, ref, turn) * k * k
            out.append(v)
        return out

    def slope(self, kind, o, p, ref, turn):
        return self.real(f"R{kind}{o}{p}{int(ref)}.{turn}", -4, 4)

    def curve(self, kind, o, p, ref, turn):
        return self.real(f"Q{kind}{o}{p}{int(ref)}.{turn}", -4, 4) if self.quadratic else 0.0

    def track(self, lattice=None, r_in=None, nturns=1, refpts=None, **kw):
        refs = Tracker._refs(lattice, refpts)
        self.pending = list(self.state(lattice))
        self.calls.append(("track", [k for k, _ in self.pending], int(nturns), refs))
        if self.z0 is not None:
            self.ctx.eq(np.ravel(r_in), self.z0, "the trajectory starts at the requested coordinates")
        npart = int(np.prod(np.shape(r_in)[1:]))
        out = np.full((6, npart, len(refs), int(nturns)), 0.0, dtype=object if W.MODE == "sym" else float)
        for j, r in enumerate(refs):
            for t in range(int(nturns)):
                out[0, :, j, t], out[2, :, j, t] = self.coordinates(lattice, r, t)
                out[1, :, j, t], out[3, :, j, t] = 7.0, 9.0
        return (arr(out) if W.MODE == "sym" else out), {}, {}

    def orbit(self, ring=None, refpts=None, **kw):
        refs = Tracker._refs(ring, refpts)
        self.pending = list(self.state(ring))
        self.calls.append(("orbit", [k for k, _ in self.pending], 1, refs))
        out = np.full((len(refs), 6), 0.0, dtype=object if W.MODE == "sym" else float)
        for j, r in enumerate(refs):
            out[j, 0], out[j, 2] = self.coordinates(ring, r, 0)
            out[j, 1], out[j, 3] = 7.0, 9.0
        o = arr(out) if W.MODE == "sym" else out
        return zeros(6), o

    def stub(self):
        return W.stub(lattice_track=self.track, find_orbit6=self.orbit)


def bpms(n, rev=False):
    return np.array(BP[-n:] if rev else BP[:n])


def matrix(ctx, mode, turns=1, hc=HC, vc=VC, nb=2, ideal=True, rev=False, lost=None, defaults=False):
    """every column is the change of positions per kick of one corrector"""
    SC = disturb(ctx, machine(ctx))
    base = snap_ring(SC.IDEALRING) if ideal else expected_model(SC)
    dk = 1e-5 if defaults else ctx.real("dk", -1, 1)
    if not defaults:
        ctx.assume(ctx_or(dk >= 2.0 ** -17, dk <= -2.0 ** -17))
    z0 = zeros(6) if defaults else ctx.reals("z0.", 6, -1, 1)
    bo = bpms(nb, rev)
    k = dict(trackMode=mode, nTurns=turns, dkick=dk, Z0=z0.copy(), useIdealRing=ideal)
    if defaults:
        k = {}
    gone = set() if lost is None else {(lost[0], lost[1], lost[2])}
    beam = Beam(ctx, base, hc, vc, lost=gone, z0=z0 if mode == "TBT" else None)
    before = snap(SC)
    cms = [np.array(hc, dtype=int), np.array(vc, dtype=int)]
    with beam.stub():
        out = rm().SCgetModelRM(SC, bo, cms, **k)
    n = 1 if mode == "ORB" else turns
    cols = [("H", o) for o in hc] + [("V", o) for o in vc]
    ctx.check(out.shape == (2 * nb * n, len(cols)), "a row per plane, turn and BPM, a column per corrector")
    for i, (kind, o) in enumerate(cols):
        for d, p in enumerate("xy"):
            for t in range(n):
                for j, b in enumerate(bo):
                    if (((kind, o),), int(b), t) in gone:
                        exp = NAN
                    else:
                        exp = beam.slope(kind, o, p, b, t) + beam.curve(kind, o, p, b, t) * dk
                    ctx.eq(out[d * n * nb + t * nb + j, i], exp, "entry: change of position per kick")
    same_state(ctx, before, SC, "the machine and its ideal ring are as before")


def ctx_or(a, b):
    return a | b


def dispersion(ctx, mode, turns=1, rf=RF, nb=2, ideal=True, rev=False, defaults=False):
    SC = disturb(ctx, machine(ctx))
    base = snap_ring(SC.IDEALRING) if ideal else expected_model(SC)
    df = 1e3 if defaults else ctx.real("df", -8, 8)
    if not defaults:
        ctx.assume(ctx_or(df >= 0.125, df <= -0.125))
    z0 = zeros(6) if defaults else ctx.reals("z0.", 6, -1, 1)
    bo = bpms(nb, rev)
    k = {} if defaults else dict(trackMode=mode, nTurns=turns, rfStep=df, Z0=z0.copy(), useIdealRing=ideal)
    beam = Beam(ctx, base, rf=RF, z0=z0 if mode == "TBT" else None)
    before = snap(SC)
    with beam.stub():
        out = rm().SCgetModelDispersion(SC, bo, np.array(rf), **k)
    n = 1 if mode == "ORB" else turns
    ctx.check(np.shape(out) == (2 * nb * n,), "an entry per plane, turn and BPM")
    for d, p in enumerate("xy"):
        for t in range(n):
            for j, b in enumerate(bo):
                exp = 0.0
                for o in rf:
                    exp = exp + beam.slope("F", o, p, b, t) + beam.curve("F", o, p, b, t) * df
                ctx.eq(out[d * n * nb + t * nb + j], exp, "entry: change of position per frequency change of the given cavities")
    same_state(ctx, before, SC, "the machine and its ideal ring are as before")


def layout(ctx, turns, nb, rev):
    """entries belong to the positions in BPM readings: on a machine without errors the model is what a kick does to the readings"""
    SC = machine(ctx)
    base_m, base_i = snap_ring(SC.RING), snap_ring(SC.IDEALRING)
    SC.INJ.nTurns = turns
    bo = bpms(nb, rev)
    dk = 2.0 ** -10
    beam = Beam(ctx, base_i, (5,), (7,), rf=(), compare=False, quadratic=False)
    with beam.stub(), W.random(ctx, Draws(ctx, inside=1)):
        out = rm().SCgetModelRM(SC, bo, [np.array([5]), np.array([7])], nTurns=turns, dkick=dk)
        beam.base = base_m
        read = lambda: np.ravel(W.mod("pySC.core.beam").bpm_reading(SC, bpm_ords=bo)[0])
        r0 = read()
        for i, (o, skew) in enumerate(((5, False), (7, True))):
            SC.set_cm_setpoints(np.array([o]), dk, skew, "add")
            ctx.eq((read() - r0) / dk, out[:, i], "the model predicts the change of the BPM readings, in their order")
            SC.set_cm_setpoints(np.array([o]), -dk, skew, "add")


def no_beam(ctx, what, mode):
    """without an initial trajectory there is no model"""
    SC = disturb(ctx, machine(ctx))
    k = ctx.choose("where", 2)
    beam = Beam(ctx, snap_ring(SC.IDEALRING), lost={((), BP[k], 0)})
    before = snap(SC)
    try:
        with beam.stub():
            if what == "rm":
                rm().SCgetModelRM(SC, bpms(2), [np.array(HC), np.array(VC)], trackMode=mode)
            else:
                rm().SCgetModelDispersion(SC, bpms(2), np.array(RF), trackMode=mode)
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok, "no initial trajectory or orbit is an error")
    same_state(ctx, before, SC, "the machine and its ideal ring are as before")


def unknown(ctx, what):
    SC = disturb(ctx, machine(ctx))
    before = snap(SC)
    try:
        with Beam(ctx, snap_ring(SC.IDEALRING)).stub():
            if what == "rm":
                rm().SCgetModelRM(SC, bpms(2), [np.array(HC), np.array(VC)], trackMode="orbit")
            else:
                rm().SCgetModelDispersion(SC, bpms(2), np.array(RF), trackMode="orbit")
        ok = False
    except (ValueError, KeyError):
        ok = True
    ctx.check(ok, "unknown tracking modes are an error")
    same_state(ctx, before, SC, "the machine and its ideal ring are as before")


def model_ring(ctx, aperture, rf=True, then=None):
    SC = disturb(ctx, machine(ctx))
    for o, f in ((0, "EApertures"), (2, "RApertures"), (7, "EApertures")):
        setattr(SC.RING[o], f, ctx.reals(f"ap{o}", 2 if f[0] == "E" else 4, 0.5, 1))
    SC.IDEALRING[2].RApertures = arr([1.0, 1.0, 1.0, 1.0])
    if not rf:
        SC.ORD.RF = np.array([], dtype=int)
        for o in RF:
            for k in [k for k in vars(SC.RING[o]) if k.endswith("SetPoint")]:
                delattr(SC.RING[o], k)
    exp = expected_model(SC, aperture)
    before = snap(SC)
    ring = rm().SCgetModelRING(SC, includeAperture=aperture) if aperture else rm().SCgetModelRING(SC)
    same_ring(ctx, exp, ring, "the model is the ideal ring with the machine's set points and no dipole fields")
    ctx.check(ring.energy == SC.IDEALRING.energy, "the model is the ideal ring with the machine's set points and no dipole fields")
    same_state(ctx, before, SC, "the machine and its ideal ring are as before")
    if then == "model":
        for e in ring:
            for k, v in vars(e).items():
                if isinstance(v, np.ndarray) and v.dtype.kind in "fO" and v.size:
                    v[...] = v + 1
        same_state(ctx, before, SC, "changing the model leaves the machine alone")
    if then == "machine":
        SC.set_magnet_setpoints(np.array([2, 5]), 0.5, False, 1, method="rel")
        for e in SC.RING:
            for k in ("SetPointA", "SetPointB", "EApertures", "RApertures"):
                if hasattr(e, k):
                    getattr(e, k)[...] = getattr(e, k) + 1
        same_ring(ctx, exp, ring, "changing the machine leaves the model alone")


CASES = [Case(f"ring-{'ap' if a else 'plain'}-{t}", model_ring, aperture=a, then=t) for a in (False, True) for t in (None, "model", "machine")]
CASES += [Case("ring-norf", model_ring, aperture=False, rf=False)]
CASES += [Case(f"rm-{m}-{t}-{'ideal' if i else 'model'}-{nb}{'r' if r else ''}", matrix, quick=q, mode=m, turns=t, ideal=i, nb=nb, rev=r)
          for m, t, i, nb, r, q in (("TBT", 1, True, 2, False, True), ("TBT", 2, True, 2, True, True), ("TBT", 2, False, 2, False, True), ("TBT", 3, True, 3, False, False), ("TBT", 3, False, 3, True, False),
                                    ("ORB", 1, True, 2, True, True), ("ORB", 3, True, 2, False, True), ("ORB", 1, False, 3, False, True))]
CASES += [Case("rm-defaults", matrix, mode="TBT", defaults=True), Case("rm-onlyH", matrix, mode="TBT", hc=(6, 3), vc=()), Case("rm-onlyV", matrix, mode="ORB", hc=(), vc=(7, 5, 3)), Case("rm-bd", matrix, mode="TBT", hc=(2,), vc=(2,), ideal=False)]
CASES += [Case(f"rm-lost-{m}", matrix, mode=m, turns=1 if m == "ORB" else 2, lost=((("V", 5),), BP[1], 0 if m == "ORB" else 1)) for m in ("TBT", "ORB")]
CASES += [Case(f"eta-{m}-{t}-{'ideal' if i else 'model'}-{''.join(map(str, rf))}", dispersion, quick=q, mode=m, turns=t, ideal=i, rf=rf, nb=nb, rev=r)
          for m, t, i, rf, nb, r, q in (("ORB", 1, True, RF, 2, False, True), ("ORB", 2, False, RF, 3, True, True), ("TBT", 2, True, RF, 2, False, True), ("TBT", 3, False, RF[1:], 3, True, True), ("ORB", 1, False, RF[:1], 2, False, True))]
CASES += [Case("eta-defaults", dispersion, mode="ORB", defaults=True)]
CASES += [Case(f"layout-{t}-{nb}{'r' if r else ''}", layout, turns=t, nb=nb, rev=r) for t, nb, r in ((1, 2, True), (2, 3, False), (3, 2, False))]
CASES += [Case(f"nobeam-{w}-{m}", no_beam, what=w, mode=m) for w in ("rm", "eta") for m in ("TBT", "ORB")]
CASES += [Case(f"unknown-{w}", unknown, what=w) for w in ("rm", "eta")]
