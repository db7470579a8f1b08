"""RF corrections: the cavities are stepped and put back, the correction is the zero crossing, unclear measurements change nothing."""
from props.common import *

BOUNDS = dict(machine="2 cavities and 3 BPMs, any registered subset used", scan="6 to 8 steps, 3 to 5 turns", data="arbitrary energy slopes per step, arbitrary exact linear response, beam loss at any step")
ASSUMPTIONS = ["the sine fit and the root search are by contract (arbitrary fit results; some root of the fitted function)",
               "the spread of the readings over the BPMs, which weights the turns, is fixed"]
RF1, RF2 = 1, 5
BORD = (3, 4, 7)
CLIGHT = 299792458.0


def machine(ctx, nturns=4):
    SC = new_SC(lattice([drift(), cavity("RF1", 1e6, 5e8, 0.0), quad(), monitor("B1"), monitor("B2"), cavity("RF2", 2e6, 5e8, 0.0), drift(), monitor("B3")]))
    SC.register_bpms(np.array(BORD))
    SC.register_cavities(np.array([RF1, RF2]))
    for o in (RF1, RF2):
        for p in ("Frequency", "TimeLag"):
            setattr(SC.RING[o], p + "Offset", ctx.real(f"{p}o{o}", -64, 64))
    SC.RING[RF2].FrequencySetPoint = 5.25e8
    SC.RING[RF1].TimeLagSetPoint = 0.125
    SC.update_cavities()
    SC.INJ.nTurns = nturns
    SC.INJ.trackMode = "TBT"
    return SC


def whole(x):
    ok = sabs(x) <= 1e-6
    for k in (-4, -3, -2, -1, 1, 2, 3, 4):
        ok = ok | (sabs(x - k) <= 1e-6)
    return ok


class Reading:
    """x = closed orbit of the BPM + slope * turn; the slope is a function of how far the cavities are from where they were"""

    def __init__(self, ctx, SC, cavs, bpms, param, slope, lost=None, base=None):
        self.ctx, self.cavs, self.bpms, self.param, self.slope, self.lost = ctx, cavs, bpms, param, slope, lost
        self.start = {o: getattr(SC.RING[o], param + "SetPoint") for o in (RF1, RF2)}
        self.before = snap_ring(SC.RING)
        self.steps, self.turns = [], SC.INJ.nTurns
        self.base = base or [[2.0**-12 * (1 + 2 * i) * (-1)**i for i in range(len(BORD))] for _ in range(self.turns)]

    def __call__(self, SC, bpm_ords=None, *a, **k):
        ctx = self.ctx
        if a or k:
            raise E.Inconclusive("BPM reading with further arguments")
        ctx.check(list(map(int, bpm_ords if bpm_ords is not None else SC.ORD.BPM)) == list(self.bpms), "the requested BPMs are read")
        d = getattr(SC.RING[self.cavs[0]], self.param + "SetPoint") - self.start[self.cavs[0]]
        for o in (RF1, RF2):
            e = getattr(SC.RING[o], self.param + "SetPoint") - self.start[o]
            ctx.eq(e, d if o in self.cavs else 0.0, "exactly the given cavities are moved, together")
            ctx.eq(getattr(SC.RING[o], self.param), self.before[o][self.param] + e, "the cavity follows its set point")
        same_ring(ctx, self.before, SC.RING, "nothing else is moved for the measurement", [(o, q) for o in self.cavs for q in (self.param, self.param + "SetPoint")])
        s, n = len(self.steps), len(self.bpms)
        self.steps.append(d)
        last = self.lost(s) if self.lost else self.turns * n
        x = np.full((2, self.turns * n), NAN, dtype=object if W.MODE == "sym" else float)
        for i in range(min(last, self.turns * n)):
            x[0, i] = self.base[i // n][i % n] + self.slope(s, d) * (i // n)
            x[1, i] = 2.0**-11 * i
        return arr(x), zeros(self.turns * n)


def freq(ctx, cavs=None, bpms=None, n_steps=6, f_range=None, lost=None, turns=4, linear=True, kind="ok"):
    """kind: ok - enough data; few - not enough usable steps"""
    SC = machine(ctx, turns)
    who, b = cavs or [RF1, RF2], bpms or list(BORD)
    rng = f_range or (-1000.0, 1000.0)
    gain, f0 = (2.0**-17, -2.0**-18, 2.0**-40)[ctx.choose("gain", 3)] if linear else 0.0, ctx.real("f0", -4000, 4000)
    data = {}

    def slope(s, d):
        if linear:
            return gain * (rng[0] + (rng[1] - rng[0]) * s / (n_steps - 1) - f0)
        if s not in data:
            data[s] = ctx.real(f"s{s}", -1e-3, 1e-3)
        return data[s]
    r = Reading(ctx, SC, who, b, "Frequency", slope, lost)
    before = snap(SC)
    kw = dict(n_steps=n_steps)
    if cavs:
        kw["cav_ords"] = np.array(cavs)
    if bpms:
        kw["bpm_ords"] = np.array(bpms)
    if f_range:
        kw["f_range"] = f_range
    with W.patched("pySC.core.beam", "bpm_reading", r):
        try:
            out = W.mod("pySC.correction.rf").correct_rf_frequency(SC, **kw)
        except E.Inconclusive:
            raise
        except (RuntimeError, ValueError) as ex:
            out = ex
    ctx.check(len(r.steps) == n_steps, "one reading per step")
    for s, d in enumerate(r.steps):
        ctx.eq(d, rng[0] + (rng[1] - rng[0]) * s / (n_steps - 1), "the frequency is stepped evenly over the range")
    if kind == "few":
        ctx.check(isinstance(out, RuntimeError), "not enough data is an error")
        same_state(ctx, before, SC, "the machine is as before")
        return
    ctx.check(out is SC, "the machine is returned")
    moved = SC.RING[who[0]].FrequencySetPoint - before["RING"][who[0]]["FrequencySetPoint"]
    for o in (RF1, RF2):
        ctx.eq(SC.RING[o].FrequencySetPoint, before["RING"][o]["FrequencySetPoint"] + (moved if o in who else 0.0), "the given cavities get the same change")
        ctx.eq(SC.RING[o].Frequency, before["RING"][o]["Frequency"] + (moved if o in who else 0.0), "the cavity follows its set point")
    if linear:
        if bool(moved == 0):
            clear = gain != 2.0**-40 and (f0 > 2000 or f0 < -2000)
            ctx.check(not bool(clear), "clear measurements are used")
        else:
            ctx.eq(moved, f0, "the frequency changes to where the energy stays constant")
            ctx.check(gain != 2.0**-40, "unclear measurements change nothing")
    same_state(ctx, before, SC, "nothing else is changed", [(o, q) for o in who for q in ("Frequency", "FrequencySetPoint")])


def rejects(ctx, what, phase):
    SC = machine(ctx)
    m = W.mod("pySC.correction.rf")
    f = m.correct_rf_phase if phase else m.correct_rf_frequency
    kw = {}
    if what == "turns":
        SC.INJ.nTurns = 2
    elif what == "mode":
        SC.INJ.trackMode = "ORB"
    elif what == "steps":
        kw["n_steps"] = 5
    elif what == "kind":
        kw["cav_ords"] = np.array([RF1, 2])
    elif what == "off":
        SC.RING[RF2].PassMethod = "IdentityPass"
    before = snap(SC)
    n = []
    with W.patched("pySC.core.beam", "bpm_reading", lambda *a, **k: n.append(1)):
        try:
            f(SC, **kw)
            ok = False
        except ValueError:
            ok = True
    ctx.check(ok and not n, "unsuitable settings are rejected before anything is measured")
    same_state(ctx, before, SC, "nothing is changed")


def phase(ctx, cavs=None, bpms=None, n_steps=6, lost=None, turns=4, kind="ok", A=None, C=None, cov=(0.0, 0.0), root=(-0.75, 0.75)):
    """arbitrary data, arbitrary fit, arbitrary root"""
    SC = machine(ctx, turns)
    who, b = cavs or [RF1, RF2], bpms or list(BORD)
    lam = CLIGHT / SC.RING[who[0]].FrequencySetPoint
    data = {}

    def slope(s, d):
        if s not in data:
            data[s] = ctx.real(f"s{s}", -1e-3, 1e-3)
        return data[s]
    r = Reading(ctx, SC, who, b, "TimeLag", slope, lost)
    before = snap(SC)
    grid = [-0.5 + s / (n_steps - 1) for s in range(n_steps)]
    good = [s for s in range(n_steps) if lost is None or lost(s) >= 3 * len(b)]
    B = 0.7
    par = [ctx.real("A", *(A or (0.25, 2))), B, ctx.real("C", *(C or (-2, 2)))]
    phi = ctx.real("phi", *root) if kind != "nan" else NAN
    seen = []

    def curve(f, x, y, p0=None, sigma=None, absolute_sigma=False, **k):
        x, y, sg = np.asarray(x), np.asarray(y), np.asarray(sigma)
        ctx.check(len(x) == len(y) == len(sg) == len(good), "all usable steps are fitted")
        for i, s in enumerate(good):
            ctx.eq(x[i], grid[s], "the fit is over the phase in units of the wavelength")
            ctx.eq(y[i], data[s], "the data are the energy slopes")
            ctx.check(bool(sg[i] > 0), "errors of the slopes are used")
        for v in (0.0, 0.2, -0.4):
            ctx.eq(f(v, 1.5, 0.3, 0.25), 1.5 * math.sin(2 * math.pi * v + 0.3) + 0.25, "a sine of the phase with an offset is fitted")
        ctx.check(absolute_sigma is True, "the errors are absolute")
        seen.append("fit")
        return arr(par), arr([[cov[0], 0.0, 0.0], [0.0, 0.01, 0.0], [0.0, 0.0, cov[1]]])

    def solve(f, x0, *a, **k):
        for v in (0.0, 0.2, -0.4):
            got = f(v * lam)
            ctx.eq(got, par[0] * math.sin(2 * math.pi * v + B) + par[2], "the zero of the fitted function is searched")
        seen.append("root")
        return arr([phi])
    kw = dict(n_steps=n_steps)
    if cavs:
        kw["cav_ords"] = np.array(cavs)
    if bpms:
        kw["bpm_ords"] = np.array(bpms)
    with W.patched("pySC.core.beam", "bpm_reading", r), W.stub(curve_fit=curve, fsolve=solve):
        try:
            out = W.mod("pySC.correction.rf").correct_rf_phase(SC, **kw)
        except E.Inconclusive:
            raise
        except (RuntimeError, ValueError) as ex:
            out = ex
    ctx.check(len(r.steps) == n_steps, "one reading per step")
    for s, d in enumerate(r.steps):
        ctx.eq(d, lam * grid[s], "the phase is stepped evenly over one period")
    a, c = sabs(par[0]), sabs(par[2])
    if kind == "few":
        ctx.check(isinstance(out, RuntimeError) and not seen, "not enough data is an error")
    elif bool(c > a):
        ctx.check(isinstance(out, RuntimeError), "a response that does not cross zero is an error")
    elif bool(a < 2 * math.sqrt(cov[0])) or bool(c < 2 * math.sqrt(cov[1])):
        ctx.check(out is SC, "an unclear measurement is not an error")
    elif kind == "nan":
        ctx.check(isinstance(out, RuntimeError), "no zero crossing is an error")
    else:
        ctx.check(out is SC and seen == ["fit", "root"], "the machine is returned")
        moved = SC.RING[who[0]].TimeLagSetPoint - before["RING"][who[0]]["TimeLagSetPoint"]
        turns_ = (moved - phi) / lam
        ctx.check(whole(turns_), "the correction is the zero crossing, up to whole wavelengths")
        ctx.check(sabs(moved) <= lam / 2 * (1 + 1e-9), "the correction is at most half a wavelength")
        for o in (RF1, RF2):
            ctx.eq(SC.RING[o].TimeLagSetPoint, before["RING"][o]["TimeLagSetPoint"] + (moved if o in who else 0.0), "the given cavities get the same change")
            ctx.eq(SC.RING[o].TimeLag, before["RING"][o]["TimeLag"] + (moved if o in who else 0.0), "the cavity follows its set point")
        same_state(ctx, before, SC, "nothing else is changed", [(o, q) for o in who for q in ("TimeLag", "TimeLagSetPoint")])
        return
    same_state(ctx, before, SC, "the machine is as before")


def shift(ctx, turns, nb, gone=(), linear=True):
    """the energy slope: weighted straight-line fit of the mean first-turn difference over the surviving turns"""
    SC = machine(ctx, turns)
    b = list(BORD)[:nb]
    base = [[2.0**-10 * (1 + t + 3 * i * i) for i in range(nb)] for t in range(turns)]
    s = ctx.real("slope", -1e-2, 1e-2)
    y = [s * t if linear else ctx.real(f"y{t}", -1e-2, 1e-2) if t else 0.0 for t in range(turns)]
    x = np.full((2, turns * nb), NAN, dtype=object if W.MODE == "sym" else float)
    for t in range(turns):
        for i in range(nb):
            if t not in gone:
                x[0, t * nb + i] = base[0 if linear else t][i] + y[t]
    w = []
    with W.patched("pySC.core.beam", "bpm_reading", lambda S, o=None: (arr(x), zeros(turns * nb))):
        got = W.mod("pySC.correction.rf")._get_tbt_energy_shift(SC, np.array(b))
    left = [t for t in range(turns) if t not in gone]
    if len(left) < 3:
        ctx.check(bool(np.isnan(got[0])), "no slope without three turns")
        return
    if linear:
        ctx.eq(got[0], s, "the slope is the change per turn")
    else:
        var = [sum((v - sum(r) / nb) ** 2 for v in r) / nb for r in base]
        wt = [1 / (math.sqrt(var[t]) / math.sqrt(nb) + 1e-9) ** 2 for t in range(turns)]
        mean = [y[t] + sum(base[t]) / nb - sum(base[0]) / nb for t in range(turns)]
        S0, S1, S2 = [sum(wt[t] * t ** k for t in left) for k in (0, 1, 2)]
        num = 0.0
        for t in left:
            num = num + wt[t] * (S0 * t - S1) * mean[t]
        ctx.eq(got[0], num / (S0 * S2 - S1 * S1), "the weighted straight-line fit")
        ctx.eq(got[1], math.sqrt(S0 / (S0 * S2 - S1 * S1)), "its uncertainty")


def static_error(ctx, cavs):
    """phase error in degrees within half a turn, energy error"""
    SC = machine(ctx)
    SC.INJ.Z0 = arr([0.0] * 4 + [ctx.real("d", -0.01, 0.01), ctx.real("ct", -1, 1)])
    orb = arr([0.0] * 4 + [ctx.real("od", -0.01, 0.01), ctx.real("oct", -0.25, 0.25)])
    lam = CLIGHT / SC.RING[cavs[0]].Frequency if not cavs == [RF1] else None
    SC.RING[RF1].Frequency = 5e8
    lam = CLIGHT / SC.RING[cavs[0]].Frequency
    before = snap(SC)
    with W.stub(find_orbit6=lambda *a, **k: (orb, None)):
        ph, en = W.mod("pySC.correction.rf").phase_and_energy_error(SC, np.array(cavs))
    ctx.eq(en, SC.INJ.Z0[4] - orb[4], "the energy error is injection minus closed orbit")
    ctx.check(sabs(ph) <= 180 * (1 + 1e-9), "the phase error is at most half a turn")
    d = (orb[5] - SC.INJ.Z0[5]) / lam - ph / 360
    ctx.check(whole(d), "the phase error is the distance in units of the wavelength, up to whole ones")
    same_state(ctx, before, SC, "nothing is changed")


def late(k, n):
    """loss in step s after (k, k-1, ...) turns of n BPMs"""
    return lambda s: n * max(0, k - s) if k >= 0 else (0 if s < -k else 99)


CASES = [
    Case("f-all", freq), Case("f-range", freq, f_range=(-500.0, 1500.0), n_steps=7), Case("f-one", freq, cavs=[RF2], bpms=[3, 7]), Case("f-first", freq, cavs=[RF1], turns=3),
    Case("f-two-bpms", freq, bpms=[4, 7], turns=5), Case("f-late", freq, lost=lambda s: 9 + s, n_steps=6), Case("f-lossy", freq, lost=lambda s: 0 if s in (0, 3, 4) else 99, n_steps=6),
    Case("f-lossy-end", freq, lost=lambda s: 8 if s > 2 else 99, n_steps=6), Case("f-few", freq, lost=lambda s: 99 if s in (1, 5) else 8, linear=False, kind="few"),
    Case("f-none", freq, lost=lambda s: 0, linear=False, kind="few"), Case("f-any", freq, linear=False),
    Case("p-all", phase), Case("p-one", phase, cavs=[RF2], bpms=[4, 7]), Case("p-steps", phase, n_steps=7, cavs=[RF1]), Case("p-far", phase, root=(0.5, 1.5), cavs=[RF1]), Case("p-near", phase, root=(-1.5, -0.5), cavs=[RF1]),
    Case("p-negative", phase, A=(-2, -0.25)), Case("p-imprecise", phase, cov=(0.25, 0.0)), Case("p-imprecise-offset", phase, cov=(0.0, 0.0625)), Case("p-imprecise-both", phase, cov=(0.09, 0.01)),
    Case("p-few", phase, kind="few", lost=lambda s: 99 if s else 8), Case("p-lossy", phase, n_steps=8, lost=lambda s: 8 if s in (0, 4) else 99), Case("p-nan", phase, kind="nan"),
    Case("p-partial", phase, lost=lambda s: 9 + s % 3),
    Case("slope", shift, turns=4, nb=3), Case("slope-any", shift, turns=4, nb=3, linear=False), Case("slope-gap", shift, turns=5, nb=2, gone=(2,), linear=False), Case("slope-late", shift, turns=5, nb=3, gone=(4, 3), linear=False),
    Case("slope-few", shift, turns=4, nb=2, gone=(2, 3)), Case("slope-long", shift, turns=9, nb=2, linear=False), Case("slope-long-late", shift, turns=9, nb=2, gone=(6, 7, 8)),
    Case("static", static_error, cavs=[RF1]), Case("static-2", static_error, cavs=[RF2, RF1]),
]
CASES += [Case(f"reject-{w}-{'p' if p else 'f'}", rejects, what=w, phase=p) for w in ("turns", "mode", "steps", "kind", "off") for p in (True, False)]
