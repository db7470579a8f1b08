"""LOCO data: measurement, structures, lattice correction and diagnostic correction."""
from props.common import *
from props.C24 import Readings, machine as rm_machine, BP, RF, HC, VC

BOUNDS = dict(machine="2 BPMs, up to 2 correctors per plane, 2 cavities; up to 3 quadrupoles in 2 groups", data="arbitrary fitted values, gains, couplings, offsets, steps and damping", beam="any linear response")
ASSUMPTIONS = ["readings are linear in the set points (C24 has the measurement itself)"]


def lw():
    return W.mod("pySC.correction.loco_wrapper")


def measurement(ctx, hc=HC, vc=VC, steps=None, scalar=False):
    SC = rm_machine(ctx)
    b = Readings(ctx, SC, curve=lambda k, row: 0.0, hc=hc, vc=vc)
    if scalar:
        a = ctx.real("a", 2.0 ** -8, 0.5)
        amp, each = a, [a] * (len(hc) + len(vc))
    else:
        v = [[ctx.real(f"a{t}{o}", 2.0 ** -8, 0.5) for o in os] for t, os in (("H", hc), ("V", vc))]
        sign = -1 if steps else 1
        amp, each = [arr([sign * x for x in w]) if w else zeros(0) for w in v], v[0] + v[1]
    df = ctx.real("df", 1, 64)
    kw = {} if steps is None else dict(n_steps=steps)
    with b.patch():
        data, cm_steps = lw().loco_measurement(SC, amp, df, np.array(BP), [np.array(hc, dtype=int), np.array(vc, dtype=int)], **kw)
    ctx.check(len(cm_steps) == 2, "steps of both planes")
    for got, exp in zip(cm_steps, (each[:len(hc)], each[len(hc):])):
        ctx.eq(got, arr(exp) if exp else zeros(0), "the step of each corrector", tol=1e-6)
    knobs = [("H", o) for o in hc] + [("V", o) for o in vc]
    ctx.check(np.shape(data.M) == (2 * b.n, len(knobs)), "one column per corrector")
    for i, k in enumerate(knobs):
        for row in range(2 * b.n):
            ctx.eq(data.M[row, i], 2000 * each[i] * b.slope(k, row), "response to the double step in millimetre", tol=1e-4)
    for row in range(2 * b.n):
        s = sum((b.slope(("F", o), row) for o in RF[1:]), b.slope(("F", RF[0]), row))
        ctx.eq(data.Eta[row], 1000 * df * s, "dispersion for the frequency step in millimetre", tol=1e-3)
    if steps:
        for k, a in zip(knobs, each):
            n = len({i for i, ch in enumerate(b.log) if any(kk == k for kk, _ in ch)})
            ctx.check(n >= steps - steps % 2, "the requested number of steps", f"{n}")
    ctx.eq(data.DeltaRF, df, "frequency step")
    ctx.eq(data.RF - SC.RING[RF[0]].Frequency, 0.0, "frequency of the machine")
    ctx.check(np.shape(data.BPMSTD) == (2 * b.n,), "one error per reading")
    same_state(ctx, b.before, SC, "the machine is as before")


def quads(ctx, comp=False):
    els = [drift(), quad("Q1"), quad("Q2", k=-1.0), dipole("B", 1.0, 0.125, 0.5), sext("S"), drift()]
    SC = new_SC(lattice(els))
    SC.register_magnets(np.array([1, 2, 4]), SkewQuad=100.0)
    SC.register_magnets(np.array([3]), CF=1, HCM=1e3)
    for o in (1, 2, 4):
        symmag(ctx, SC.RING[o], f"m{o}")
    SC.RING[3].SetPointB = arr([ctx.real("b0", -1, 1), ctx.real("b1", -2, 2)])
    SC.update_magnets()
    return SC


class Par:
    def __init__(self, **k):
        self.__dict__.update(k)


def lattice_correction(ctx, groups, damping=False, comp=None):
    """groups: of (element, field) pairs that share one fitted value"""
    SC = quads(ctx)
    twin = copy.deepcopy(SC)
    before = snap(SC)
    n = len(groups)
    orig, ideal, val = (ctx.reals(x, n, -2, 2) for x in ("orig", "ideal", "val"))
    keep = [orig.copy(), ideal.copy(), val.copy()]
    par = Par(Params=[[Par(ElemIndex=o, SCFieldName=f) for o, f in g] for g in groups], OrigValues=orig, IdealValues=ideal, Values=val)
    d = ctx.real("damping", 0, 1) if damping else 1
    kw = dict(damping=d) if damping else {}
    if comp is not None:
        kw["dipole_compensation"] = comp
    out = lw().apply_lattice_correction(SC, par, **kw)
    ctx.check(out is SC, "the machine is returned")
    moved = []
    for i, g in enumerate(groups):
        for o, f in g:
            new = orig[i] + d * (ideal[i] - val[i])
            ctx.eq(getattr(SC.RING[o], f)[1], new, "original value plus damped difference of ideal and fitted value")
            twin.set_magnet_setpoints(np.array([o]), new, f == "SetPointA", 1, dipole_compensation=(comp is None or comp) and f == "SetPointB")
            moved += [(o, a) for a in ("SetPointA", "SetPointB", "PolynomA", "PolynomB")]
    same_ring(ctx, snap_ring(twin.RING), SC.RING, "set as magnet set points are, dipole fields kept on request")
    same_state(ctx, before, SC, "nothing else changes", moved)
    for a, b in zip(keep, (orig, ideal, val)):
        ctx.eq(a, b, "arguments are left unmodified")


def mean(xs):
    return sum(xs[1:], xs[0]) / len(xs)


def expected(ctx, fit, outlier, zero):
    """gains after removal of outliers and of the mean deviation"""
    r = []
    for x in fit:
        if outlier is not None and bool(sabs(1 - x) >= outlier):
            x = 1.0
        r.append(x)
    if zero:
        m = mean([1 - x for x in r])
        r = [x + m for x in r]
    return r


def diagnostics(ctx, kicks=False, gains=False, coupling=False, outlier=False, zero=False, offsets=False, steps="list", order=None):
    SC = rm_machine(ctx)
    for o in BP:
        SC.RING[o].CalError = ctx.reals(f"cal{o}", 2, -0.5, 0.5)
        SC.RING[o].Roll = ctx.real(f"roll{o}", -1, 1)
    before = snap(SC)
    m = lw()
    if steps == "scalar":
        st = ctx.real("st", 2.0 ** -6, 1)
        cm_step, each = st, [[st] * 2, [st] * 2]
    elif steps == "array":
        st = ctx.real("st", 2.0 ** -6, 1)
        cm_step, each = arr([st]), [[st] * 2, [st] * 2]
    else:
        s = [ctx.reals(f"st{t}", 2, 2.0 ** -6, 1) for t in "HV"]
        cm_step, each = [s[0], s[1]], [list(s[0]), list(s[1])]
    cm = m.loco_cm_structure(SC, cm_steps=[arr(each[0]), arr(each[1])], FitKicks=kicks)
    bpm = m.loco_bpm_structure(SC, FitGains=gains, FitCoupling=coupling)
    g = {}
    for t in "HV":
        g[t] = [ctx.real(f"k{t}{i}", 0.5, 1.5) for i in range(2)]
        cm[t + "CMKicks"] = arr([2000 * a * b for a, b in zip(g[t], each["HV".index(t)])])
        bpm[t + "BPMGain"] = ctx.reals(f"g{t}", 2, 0.5, 1.5)
        bpm[t + "BPMCoupling"] = ctx.reals(f"c{t}", 2, -0.5, 0.5)
    if order:
        bpm.HBPMIndex = np.array(order)
    kw = {}
    lim = None
    if outlier:
        lim = ctx.real("lim", 0.125, 0.5)
        kw["outlierRemovalAt"] = lim
    if zero:
        kw["meanToZero"] = True
    off = [[0.0, 0.0], [0.0, 0.0]]
    if offsets:
        o_ = [ctx.reals(f"off{t}", 2, -0.25, 0.25) for t in "HV"]
        off = [list(o_[0]), list(o_[1])]
        kw["CMcalOffsets"] = o_
    keep = {f: bpm[f].copy() for f in bpm if isinstance(bpm[f], np.ndarray)}
    keepc = {f: cm[f].copy() for f in cm if isinstance(cm[f], np.ndarray)}
    out = m.applyDiagnosticCorrection(SC, cm_step, cm, bpm, **kw)
    ctx.check(out is SC, "the machine is returned")
    allow = []
    for d, t in enumerate("HV"):
        f = "CalErrorB" if d == 0 else "CalErrorA"
        exp = expected(ctx, [x - y for x, y in zip(g[t], off[d])], lim, zero)
        for i, o in enumerate((HC, VC)[d]):
            c0 = before["RING"][o][f][0]
            ctx.eq(getattr(SC.RING[o], f)[0], c0 + (1 - exp[i]) if kicks else c0, "corrector calibration moves by one minus the fitted gain", tol=1e-6)
            ctx.eq(getattr(SC.RING[o], f)[1:], before["RING"][o][f][1:], "other orders of the calibration stay")
            if kicks:
                allow.append((o, f))
        exp = expected(ctx, list(keep[t + "BPMGain"]), lim, zero)
        for i in range(2):
            o = BP[order[i]] if order and d == 0 else BP[i]
            c0 = before["RING"][o]["CalError"][d]
            ctx.eq(SC.RING[o].CalError[d], c0 + (1 - exp[i]) if gains else c0, "BPM calibration moves by one minus the fitted gain", tol=1e-6)
            allow.append((o, "CalError"))
    for i, o in enumerate(BP):
        r0 = before["RING"][o]["Roll"]
        ctx.eq(SC.RING[o].Roll, r0 - (keep["VBPMCoupling"][i] - keep["HBPMCoupling"][i]) / 2 if coupling else r0, "BPM roll moves by half the difference of the couplings")
        allow.append((o, "Roll"))
    same_state(ctx, before, SC, "nothing else changes", allow)
    for x, k in ((bpm, keep), (cm, keepc)):
        for f in k:
            ctx.eq(x[f], k[f], "arguments are left unmodified")


def structures(ctx, steps):
    SC = rm_machine(ctx)
    before = snap(SC)
    m = lw()
    bpm = m.loco_bpm_structure(SC, FitGains=True)
    sub = m.loco_bpm_structure(SC, np.array([BP[1]]))
    kw = {}
    if steps == "scalar":
        s = ctx.real("s", 0.125, 1)
        kw["cm_steps"] = s if W.MODE == "conc" else arr([s])
        each = [[s] * 2, [s] * 2]
    elif steps == "lists":
        v = [ctx.reals(f"s{t}", 2, 0.125, 1) for t in "HV"]
        kw["cm_steps"] = v
        each = [list(x) for x in v]
    else:
        each = [[1.0] * 2, [1.0] * 2]
    cm = m.loco_cm_structure(SC, FitKicks=True, **kw)
    ctx.check(bool(bpm.FitGains) and bool(cm.FitKicks) and not bool(sub.FitGains), "options are taken over")
    ctx.check(list(bpm.BPMIndex) == list(BP) and list(sub.BPMIndex) == [BP[1]], "the BPMs asked for, by default all")
    ctx.check(list(cm.HCMIndex) == list(HC) and list(cm.VCMIndex) == list(VC), "by default all correctors")
    for d, t in enumerate("HV"):
        ctx.eq(cm[t + "CMsteps"], arr(each[d]), "steps as given")
        ctx.eq(cm[t + "CMKicks"], arr([2000 * x for x in each[d]]), "kicks are the double steps in millirad")
        ctx.eq(cm[t + "CMCoupling"], zeros(2), "no coupling to start with")
        ctx.eq(bpm[t + "BPMGain"], arr([1.0, 1.0]), "unit gains to start with")
        ctx.eq(bpm[t + "BPMCoupling"], zeros(2), "no coupling to start with")
        ctx.check(list(bpm[t + "BPMIndex"]) == [0, 1] and list(sub[t + "BPMIndex"]) == [0], "the positions of the BPMs")
    bpm.BPMIndex[0] = 5
    cm.HCMIndex[0] = 5
    cm.VCMIndex[0] = 4
    if steps == "lists":
        cm.HCMsteps[0] = 17.0
        ctx.eq(kw["cm_steps"][0], arr(each[0]), "the structure shares nothing with what was given")
    same_state(ctx, before, SC, "the machine shares nothing with the structures")


def model(ctx, given=False):
    SC = rm_machine(ctx)
    SC.IDEALRING[RF[0]].Frequency = ctx.real("fideal", 2.0 ** 28, 2.0 ** 29)
    n = ctx.choose("harm", 3) + 5
    SC.IDEALRING[RF[0]].HarmNumber = n
    before = snap(SC)
    kw = dict(Coupling=True, SVmethod=ctx.real("sv", 0, 1), HorizontalDispersionWeight=ctx.real("hw", 0, 64)) if given else {}
    keep = dict(kw)
    ring, flags, init = lw().loco_model(SC, **kw)
    ctx.check(ring.Lattice is SC.IDEALRING and init.SC is SC, "the model is the ideal ring of the machine")
    ctx.eq(ring.CavityFrequency - SC.IDEALRING[RF[0]].Frequency, 0.0, "frequency of the ideal ring")
    ctx.check(int(ring.CavityHarmNumber) == n, "harmonic number of the ideal ring")
    default = dict(Dispersion=False, HorizontalDispersionWeight=10, VerticalDispersionWeight=10, FitHCMEnergyShift=False, FitVCMEnergyShift=False, AutoCorrectDelta=False, SVmethod=1E-3, Normalize=True, Coupling=False, Linear=True)
    default.update(keep)
    ctx.check(sorted(flags) == sorted(default), "all flags")
    for f, v in default.items():
        ctx.check(flags[f] == v if isinstance(v, E.S) or isinstance(v, float) else flags[f] == v and bool(flags[f]) == bool(v), "flags as given, defaults otherwise")
    same_state(ctx, before, SC, "nothing changes", [])


def bad_steps(ctx):
    SC = rm_machine(ctx)
    before = snap(SC)
    m = lw()
    cm, bpm = m.loco_cm_structure(SC, cm_steps=[zeros(2), zeros(2)], FitKicks=True), m.loco_bpm_structure(SC, FitCoupling=False)
    ctx.raises(ValueError, lambda: m.applyDiagnosticCorrection(SC, ctx.reals("st", 3, 0.5, 1), cm, bpm), "steps that fit no corrector")
    same_state(ctx, before, SC, "nothing has changed")


B, A = "SetPointB", "SetPointA"
CASES = [Case("measure", measurement), Case("measure-one", measurement, hc=(1,), vc=(5,)), Case("measure-uneven", measurement, hc=(1, 4), vc=(5,)), Case("measure-scalar", measurement, scalar=True),
         Case("measure-3", measurement, steps=3), Case("measure-4", measurement, steps=4, hc=(4,), vc=(4, 5)), Case("measure-plane", measurement, hc=(), vc=(4, 5))]
CASES += [Case(f"lattice-{n}-{d}", lattice_correction, groups=g, damping=d) for n, g in (("single", [[(1, B)]]), ("family", [[(1, B), (2, B)]]), ("skew", [[(4, A)], [(1, A)]]), ("mixed", [[(1, B), (2, B)], [(4, A)], [(1, A)]])) for d in (False, True)]
CASES += [Case(f"lattice-dipole-{c}", lattice_correction, groups=[[(3, B)], [(1, B)]], comp=c) for c in (None, True, False)]
for n, k in (("kicks", dict(kicks=True)), ("gains", dict(gains=True)), ("coupling", dict(coupling=True)), ("all", dict(kicks=True, gains=True, coupling=True)), ("none", {})):
    CASES.append(Case(f"diag-{n}", diagnostics, **k))
for n in ("kicks", "gains"):
    for v in (dict(outlier=True), dict(zero=True), dict(outlier=True, zero=True)):
        CASES.append(Case(f"diag-{n}-{'-'.join(v)}", diagnostics, **{n: True}, **v))
CASES += [Case("diag-offsets", diagnostics, kicks=True, offsets=True), Case("diag-offsets-outlier", diagnostics, kicks=True, offsets=True, outlier=True, zero=True), Case("diag-scalar", diagnostics, kicks=True, steps="scalar"),
          Case("diag-array", diagnostics, kicks=True, steps="array"), Case("diag-order", diagnostics, gains=True, order=(1, 0)), Case("bad-steps", bad_steps)]
CASES += [Case(f"structures-{s}", structures, steps=s) for s in ("scalar", "lists", "default")]

CASES += [Case(f"model-{g}", model, given=g) for g in (False, True)]
