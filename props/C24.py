"""Response matrix and dispersion measured with the BPMs of the machine."""
from props.common import *

BOUNDS = dict(machine="2 BPMs (1 or 2 turns), up to 2 horizontal and 2 vertical correctors, 2 cavities", beam="any linear and quadratic response of the readings, beam lost beyond given corrector changes", settings="any initial set points, amplitudes and corrector limits on one side, 2 to 5 steps, both fit orders")
ASSUMPTIONS = ["BPM readings are replaced by an arbitrary second-order response to the set points that are recorded at every reading", "each corrector can take the amplitude in at least one direction"]
BP, RF = (2, 6), (7, 8)
HC, VC = (1, 4), (4, 5)


def resp():
    return W.mod("pySC.lattice_properties.response_measurement")


def machine(ctx, turns=1, rf=0.0):
    SC = new_SC(lattice([drift(), corrector("C1"), monitor("B1"), drift(), quad("QC", 0.5, 1.0), corrector("C2"), monitor("B2"), cavity("R1"), cavity("R2", f=2.0 ** 30)]))
    SC.register_bpms(np.array(BP))
    SC.register_magnets(np.array([1]), HCM=8.0)
    SC.register_magnets(np.array([4]), HCM=8.0, VCM=8.0)
    SC.register_magnets(np.array([5]), VCM=8.0)
    SC.register_cavities(np.array(RF))
    for o in (1, 4, 5):
        e = SC.RING[o]
        e.CMlimit = arr([1e3, 1e3])
        e.CalErrorB = ctx.reals(f"cb{o}", len(e.CalErrorB), -0.5, 0.5)
        e.CalErrorA = ctx.reals(f"ca{o}", len(e.CalErrorA), -0.5, 0.5)
        for f in ("SetPointA", "SetPointB"):
            v = list(getattr(e, f))
            setattr(e, f, arr([ctx.real(f"{f}{o}", -1, 1)] + v[1:]))
    for o in RF:
        SC.RING[o].FrequencySetPoint = SC.RING[o].FrequencySetPoint + ctx.real(f"f{o}", -4, 4)
        SC.RING[o].FrequencyOffset = ctx.real(f"fo{o}", -4, 4)
    SC.INJ.nTurns = turns
    SC.update_magnets()
    SC.update_cavities()
    return SC


def kick(SC, o, skew):
    e = SC.RING[o]
    v = e.SetPointA[0] if skew else e.SetPointB[0]
    if e.PassMethod == "CorrectorPass":
        return v
    return v * e.Length * (1 if skew else -1)


class Readings:
    """readings follow the changes of the knobs; nan(knob, change, row) tells whether a reading is missing"""

    def __init__(self, ctx, SC, turns=1, bpms=BP, slope=None, curve=None, nan=None, dead=(), hc=HC, vc=VC, only=None):
        self.ctx, self.SC, self.n, self.bpms = ctx, SC, turns * len(bpms), bpms
        self.knobs = [("H", o) for o in hc] + [("V", o) for o in vc]
        self.R, self.Q, self.nan, self.dead, self.known = slope, curve, nan, set(dead), {}
        self.start = {k: self.value(k) for k in self.knobs}
        self.f0 = {o: SC.RING[o].FrequencySetPoint for o in RF}
        self.before = snap(SC)
        self.log = []

    def value(self, k):
        return kick(self.SC, k[1], k[0] == "V")

    def real(self, name, lo, hi):
        if name not in self.known:
            self.known[name] = self.ctx.real(name, lo, hi)
        return self.known[name]

    def slope(self, k, row):
        return self.R(k, row) if self.R else self.real(f"R{k[0]}{k[1]}.{row}", -4, 4)

    def curve(self, k, row):
        return self.Q(k, row) if self.Q else self.real(f"Q{k[0]}{k[1]}.{row}", -4, 4)

    def reading(self, SC, bpm_ords=None, *a, **kw):
        c = self.ctx
        c.check(SC is self.SC and (bpm_ords is None and self.bpms == BP or bpm_ords is not None and tuple(map(int, bpm_ords)) == self.bpms), "the requested BPMs are read")
        changes = []
        for k in self.knobs:
            d = self.value(k) - self.start[k]
            if not same_term(d, 0.0):
                changes.append((k, d))
        for o in RF:
            d = SC.RING[o].FrequencySetPoint - self.f0[o]
            if not same_term(d, 0.0):
                changes.append((("F", o), d))
        self.log.append(changes)
        moved = {o for (t, o), _ in changes if t != "F"}
        if self.log[1:] and not any(t == "F" for (t, _), _ in changes):
            same_ring(c, self.before["RING"], SC.RING, "only the corrector measured is changed", [(o, f) for o in moved for f in ("SetPointA", "SetPointB", "PolynomA", "PolynomB", "KickAngle")])
            c.check(len(changes) <= 1, "one corrector at a time")
        out = np.full((2, self.n), NAN, dtype=object if W.MODE == "sym" else float)
        for d in (0, 1):
            for i in range(self.n):
                row = d * self.n + i
                if row in self.dead or (self.nan and any(self.nan(k, v, row) for k, v in changes)):
                    continue
                v = self.real(f"b{row}", -1, 1)
                for k, x in changes:
                    v = v + self.slope(k, row) * x + self.curve(k, row) * x * x
                out[d, i] = v
        return arr(out), zeros(self.n)

    def patch(self):
        return W.patched("pySC.core.beam", "bpm_reading", self.reading)


def restored(ctx, b, SC):
    """all set points are back; the field follows them"""
    same_state(ctx, b.before, SC, "the machine is as before")


def amplitudes(ctx, form, hc, vc):
    a = ctx.real("a", 2.0 ** -8, 0.5)
    if form == "negative":
        return -a, {("H", o): -a for o in hc} | {("V", o): -a for o in vc}
    if form == "value":
        return a, {("H", o): a for o in hc} | {("V", o): a for o in vc}
    if form == "array":
        return arr([a]), {("H", o): a for o in hc} | {("V", o): a for o in vc}
    v = [[ctx.real(f"a{t}{o}", 2.0 ** -8, 0.5) for o in os] for t, os in (("H", hc), ("V", vc))]
    return [arr(v[0]) if v[0] else zeros(0), arr(v[1]) if v[1] else zeros(0)], {(t, o): x for t, os, w in (("H", hc, v[0]), ("V", vc, v[1])) for o, x in zip(os, w)}


def fit(ctx, xs, ys):
    """slope of the straight line, least squares"""
    n = len(xs)
    mx, my = sum(xs[1:], xs[0]) / n, sum(ys[1:], ys[0]) / n
    num = sum(((x - mx) * (y - my) for x, y in zip(xs[1:], ys[1:])), (xs[0] - mx) * (ys[0] - my))
    den = sum(((x - mx) * (x - mx) for x in xs[1:]), (xs[0] - mx) * (xs[0] - mx))
    return num / den


def two(ctx, form="value", turns=1, hc=HC, vc=VC, bpms=BP, dead=(), limit=None):
    SC = machine(ctx, turns)
    amp, each = amplitudes(ctx, form, hc, vc)
    if limit:
        t, o = limit
        lim = ctx.real("limit", 0.5, 2)
        d = 1 if t == "V" else 0
        s = kick(SC, o, t == "V")
        ctx.assume(sabs(s) <= lim)
        ctx.assume(each[limit] <= lim)
        v = [1e3, 1e3]
        v[d] = lim
        SC.RING[o].CMlimit = arr(v)
    b = Readings(ctx, SC, turns, bpms, dead=dead, hc=hc, vc=vc)
    with b.patch():
        M, err, steps = resp().response_matrix(SC, amp, np.array(bpms), [np.array(hc, dtype=int), np.array(vc, dtype=int)])
    ctx.check(M.shape == (2 * b.n, len(hc) + len(vc)), "a row per reading and plane, a column per corrector")
    for i, k in enumerate(b.knobs):
        st = each[k]
        if limit == k and bool(sabs(b.start[k] + st) > lim):
            st = -st
        ctx.eq(steps[k[0] == "V"][-1, (hc, vc)[k[0] == "V"].index(k[1])], st, "the corrector is changed by the amplitude, away from its limit")
        for r in range(2 * b.n):
            ctx.eq(M[r, i], 0.0 if r in dead else b.slope(k, r) + b.curve(k, r) * st, "entry: change of the reading per set point change; nothing without beam")
    restored(ctx, b, SC)


def many(ctx, n, order=1, hc=HC[:1], vc=(), gone=None, dead=(), form="list"):
    """gone: (row, step) readings without beam on the way"""
    SC = machine(ctx)
    amp, each = amplitudes(ctx, form, hc, vc)
    b = None

    def nan(k, v, row):
        return gone is not None and (row, step_of(k, v)) in gone

    def step_of(k, v):
        for j in range(n):
            if same_term(v, each[k] * (-1 + 2 * j / E.frac(n - 1)) if W.MODE == "sym" else each[k] * (-1 + 2 * j / (n - 1))):
                return j
    b = Readings(ctx, SC, nan=nan, dead=dead, hc=hc, vc=vc)
    with b.patch():
        M, err, steps = resp().response_matrix(SC, amp, np.array(BP), [np.array(hc, dtype=int), np.array(vc, dtype=int)], n_steps=n, fit_order=order)
    for i, k in enumerate(b.knobs):
        a = each[k]
        xs = [a * (2 * j - (n - 1)) / (n - 1) for j in range(n)]
        got = steps[k[0] == "V"][:, (hc, vc)[k[0] == "V"].index(k[1])]
        ctx.eq(got, arr(xs), "the corrector goes from one side of its set point to the other in even steps")
        for r in range(2 * b.n):
            use = [j for j in range(n) if r not in dead and (gone is None or (r, j) not in gone)]
            if len(use) <= order:
                ctx.eq(M[r, i], 0.0, "readings that are too few count as no response")
                continue
            R, Q = b.slope(k, r), b.curve(k, r)
            X = [xs[j] for j in use]
            Y = [R * x + Q * x * x for x in X]
            ctx.eq(M[r, i], R if order == 2 else fit(ctx, X, Y), "entry: slope of the fit through all readings with beam")
            res = [(M[r, i] * x - y) * (M[r, i] * x - y) for x, y in zip(X, Y)]
            ctx.eq(err[r, i] * err[r, i], sum(res[1:], res[0]) / len(res), "its error: rms distance of the readings")
            ctx.check(err[r, i] >= 0, "its error: rms distance of the readings")
    restored(ctx, b, SC)


def clipped(ctx, n, neg=False, bend=0.0):
    """steps beyond the corrector's limit: the fit is over the changes the corrector really made"""
    SC = machine(ctx)
    a = ctx.real("a", 0.25, 0.5) * (-1 if neg else 1)
    s0 = kick(SC, 1, False)
    lim = 1.125
    ctx.assume(sabs(s0) <= lim)
    SC.RING[1].CMlimit = arr([lim, 1e3])
    b = Readings(ctx, SC, hc=(1,), vc=(), curve=lambda k, r: 0.0 if r else bend)
    with b.patch():
        M, err, steps = resp().response_matrix(SC, a, np.array(BP), [np.array([1]), np.array([], dtype=int)], n_steps=n)
    top = -a if bool(sabs(s0 + a) > lim) else a
    xs = [clipsym(s0 + top * (2 * j - (n - 1)) / (n - 1), lim) - s0 for j in range(n)]
    ctx.eq(steps[0][:, 0], arr(xs), "steps are those the corrector can make")
    k = b.knobs[0]
    for r in range(2 * b.n):
        ctx.eq(M[r, 0], fit(ctx, xs, [b.slope(k, r) * x + b.curve(k, r) * x * x for x in xs]), "entry: slope of the fit through all readings with beam")
    restored(ctx, b, SC)


def reach(ctx, need, rows=(1, 3), knob=("H", 1)):
    """beam reaches the BPMs only below a corrector change of `need` times the amplitude"""
    hc, vc = (knob[1],) if knob[0] == "H" else (), (knob[1],) if knob[0] == "V" else ()
    SC = machine(ctx)
    a = ctx.real("a", 0.25, 0.5)
    b = Readings(ctx, SC, nan=lambda k, v, row: row in rows and bool(sabs(v) > need * a), hc=hc, vc=vc)
    with b.patch():
        M, err, steps = resp().response_matrix(SC, arr([a]), np.array(BP), [np.array(hc, dtype=int), np.array(vc, dtype=int)])
    k = 0
    while 0.9 ** k > need and k < 20:
        k += 1
    st = steps[knob[0] == "V"][-1, 0]
    f = E.frac("0.9") ** k if W.MODE == "sym" else 0.9 ** k
    ctx.eq(st, a * f, "amplitudes without beam at all BPMs are reduced in steps of a tenth")
    for r in range(2 * b.n):
        lost = r in rows and 0.9 ** k > need
        ctx.eq(M[r, 0], 0.0 if lost else b.slope(knob, r) + b.curve(knob, r) * st, "entry: change of the reading per set point change; nothing without beam")
    restored(ctx, b, SC)


RV = ((0.5, -2.0, 1.0, 0.25), (1.0, 0.5, -0.25, 0.125))


def offset(ctx, dead=(), need=None, sign=1):
    """amplitude given as position change at the BPMs"""
    vc = (4,) if need is None else ()
    SC = machine(ctx)
    a = ctx.real("a", 2.0 ** -6, 0.5)
    rv = lambda k, r: RV[b.knobs.index(k)][r]
    b = Readings(ctx, SC, slope=rv, curve=lambda k, r: 0.0, dead=dead, hc=(1,), vc=vc, nan=None if need is None else (lambda k, v, row: row == 3 and bool(sabs(v) > need * a)))
    with b.patch():
        M, err, steps = resp().response_matrix(SC, sign * a, np.array(BP), [np.array([1]), np.array(vc, dtype=int)], mode="fixedOffset")
    for i, k in enumerate(b.knobs):
        big = max(abs(RV[i][r]) for r in range(4) if r not in dead)
        ctx.eq(sabs(steps[i][-1, 0]) * big, a, "the largest position change is the amplitude")
        for r in range(4):
            ctx.eq(M[r, i], 0.0 if r in dead else RV[i][r], "entry: change of the reading per set point change; nothing without beam")
    restored(ctx, b, SC)


def rejected(ctx, what):
    SC = machine(ctx)
    b = Readings(ctx, SC, dead=(2,) if what == "orbit" else ())
    amp = dict(short=[np.array([0.5]), np.array([0.5, 0.5])], array=np.array([0.5, 0.25]), orbit=0.5, mode=0.5)[what]
    if what == "orbit":
        SC.INJ.trackMode = "ORB"
        b.before = snap(SC)
    try:
        with b.patch():
            resp().response_matrix(SC, amp, np.array(BP), [np.array(HC), np.array(VC)], **(dict(mode="fixed") if what == "mode" else {}))
        ok = False
    except (ValueError, KeyError) as e:
        ok = True
    ctx.check(ok, "amplitudes that do not match, unknown modes and missing closed orbits are errors")
    restored(ctx, b, SC)


def dispersion(ctx, n=None, cavs=None, bpms=BP, turns=1, sign=1):
    SC = machine(ctx, turns)
    df = sign * ctx.real("df", 0.25, 8)
    b = Readings(ctx, SC, turns, bpms, hc=(), vc=())
    with b.patch():
        kw = {} if n is None else dict(n_steps=n)
        if cavs:
            kw["cav_ords"] = np.array(cavs)
        if bpms != BP:
            kw["bpm_ords"] = np.array(bpms)
        eta = resp().dispersion(SC, df, **kw)
    cs = cavs or RF
    ctx.check(np.shape(eta) == (2 * b.n,), "an entry per reading and plane")
    n = n or 2
    xs = [df] if n == 2 else [df * (2 * j - (n - 1)) / (n - 1) for j in range(n)]
    seen = [c for c in b.log if c]
    ctx.check(all({o for (_, o), _ in c} == set(cs) and len(c) == len(cs) for c in seen), "the given cavities are moved together")
    ctx.check(len(seen) == len([x for x in xs if not same_term(x, 0.0)]), "one reading per frequency")
    if ctx_ok(seen, xs):
        for c, x in zip(seen, [x for x in xs if not same_term(x, 0.0)]):
            for _, v in c:
                ctx.eq(v, x, "frequencies go up by the step, or from one side to the other in even steps")
    for r in range(2 * b.n):
        R = Q = 0.0
        for o in cs:
            R, Q = R + b.slope(("F", o), r), Q + b.curve(("F", o), r)
        ctx.eq(eta[r], R + Q * df if n == 2 else R, "entry: change of the reading per frequency change")
    same_state(ctx, b.before, SC, "the machine is as before")


def ctx_ok(seen, xs):
    return len(seen) == len([x for x in xs if not same_term(x, 0.0)])


CASES = [Case(f"two-{f}-{t}", two, form=f, turns=t) for f, t in (("value", 1), ("array", 2), ("list", 1), ("negative", 1))]
CASES += [Case("two-onlyH", two, hc=HC, vc=()), Case("two-onlyV", two, form="list", hc=(), vc=VC[::-1]), Case("two-onebpm", two, bpms=BP[1:]), Case("two-dead", two, dead=(1, 3))]
CASES += [Case(f"two-limit-{t}{o}", two, form="list", limit=(t, o), hc=(o,) if t == "H" else (), vc=(o,) if t == "V" else ()) for t, o in (("H", 1), ("H", 4), ("V", 4))]
CASES += [Case(f"many-{n}-{o}", many, quick=n < 5, n=n, order=o) for n in (3, 4, 5) for o in (1, 2)]
CASES += [Case("many-HV", many, n=3, hc=(4,), vc=(5,)), Case("many-negative", many, n=3, form="negative"), Case("many-dead", many, n=4, dead=(1, 3)), Case("many-dead-odd", many, n=3, dead=(0, 2)),
          Case("many-gone", many, n=4, gone={(1, 0), (3, 0)}), Case("many-gone-two", many, n=4, gone={(0, 0), (2, 0), (0, 1), (2, 1)}), Case("many-gone-fit2", many, n=4, order=2, gone={(0, 0), (2, 0), (0, 1), (2, 1)})]
CASES += [Case(f"reach-{q}", reach, need=q, knob=k) for q, k in ((0.85, ("H", 1)), (0.5, ("V", 4)), (0.0625, ("H", 4)))]
CASES += [Case("clipped-3", clipped, n=3), Case("clipped-3-neg", clipped, n=3, neg=True), Case("clipped-4", clipped, quick=False, n=4), Case("clipped-3-bend", clipped, quick=False, n=3, bend=0.5)]
CASES += [Case("offset", offset), Case("offset-negative", offset, sign=-1), Case("offset-dead", offset, dead=(1, 3)), Case("offset-reach", offset, need=0.75)]
CASES += [Case(f"reject-{w}", rejected, what=w) for w in ("short", "array", "orbit", "mode")]
CASES += [Case(f"eta-{n or 'default'}", dispersion, n=n) for n in (None, 2, 3, 4, 5)]
CASES += [Case(f"eta-negative-{n or 2}", dispersion, n=n, sign=-1) for n in (None, 3)]
CASES += [Case("eta-cavity", dispersion, cavs=RF[1:]), Case("eta-cavity-3", dispersion, n=3, cavs=RF[:1], bpms=BP[1:], turns=2)]
