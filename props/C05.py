"""Malformed requests are rejected and leave the machine as it was."""
from props.common import *

BOUNDS = dict(machine="ring with two BPMs, four magnets, two cavities, a girder; all set points and errors arbitrary", requests="every listed kind of malformed argument; values arbitrary")
ASSUMPTIONS = ["any exception counts as a rejection"]


def machine(ctx):
    SC = new_SC(lattice([cavity("RF"), monitor("B1"), drift("D"), quad("Q"), corrector("C"), monitor("B2"), dipole("B"), drift("D2"), quad("Q2"), cavity("RF2")]))
    SC.register_bpms(np.array([1, 5]), Offset=arr([1.0, 1.0]))
    SC.register_cavities(np.array([0, 9]), VoltageOffset=1.0)
    SC.register_magnets(np.array([3, 4, 6, 8]), HCM=1.0, VCM=1.0, CalErrorB=arr([0.1, 0.1]))
    SC.register_supports(np.array([[2], [7]]), "Girder", Offset=arr([0.1, 0.1, 0.1]))
    for o in (3, 6, 8):
        symmag(ctx, SC.RING[o], f"m{o}")
    SC.RING[0].VoltageSetPoint = ctx.real("V", 1, 2)
    SC.RING[0].VoltageCalError = ctx.real("Vc", -1, 1)
    SC.INJ.Z0 = ctx.reals("z0", 6, -1, 1)
    return SC


def rejected(ctx, SC, fn, label):
    before = snap(SC)
    try:
        fn()
    except E.Inconclusive:
        raise
    except Exception:
        pass
    else:
        ctx.check(False, "the request is rejected: " + label)
        return
    same_state(ctx, before, SC, "a rejected request changes nothing: " + label)


def call(ctx, SC, what, ords, vals, method):
    if what == "cm":
        return lambda: SC.set_cm_setpoints(ords, vals, False, method)
    if what == "cm_skew":
        return lambda: SC.set_cm_setpoints(ords, vals, True, method)
    if what == "magnet":
        return lambda: SC.set_magnet_setpoints(ords, vals, False, 1, method)
    if what == "magnet_comp":
        return lambda: SC.set_magnet_setpoints(ords, vals, False, 1, method, dipole_compensation=True)
    if what == "skew":
        return lambda: SC.set_magnet_setpoints(ords, vals, True, 0, method)
    return lambda: SC.set_cavity_setpoints(ords, vals, "Voltage", method)


def bad_method(ctx, what, methods):
    SC = machine(ctx)
    method = methods[ctx.choose("method", len(methods))]
    ords = np.array([0, 9]) if what == "cavity" else np.array([3, 6])
    v = ctx.reals("v", 2, -2, 2)
    keep = v.copy()
    rejected(ctx, SC, call(ctx, SC, what, ords, v, method), "unknown method")
    ctx.eq(v, keep, "the caller's values are left alone")


def bad_length(ctx, what):
    SC = machine(ctx)
    n_ords, n_vals, method = 1 + ctx.choose("ordinates", 3), ctx.choose("values", 7), ("abs", "rel", "add")[ctx.choose("method", 3)]
    ctx.assume(n_vals not in (1, n_ords))
    ords = np.array(([0, 9, 0] if what == "cavity" else [3, 6, 8])[:n_ords])
    v = ctx.reals("v", n_vals, -2, 2)
    keep = v.copy()
    rejected(ctx, SC, call(ctx, SC, what, ords, v, method), "as many values as elements, or one")
    ctx.eq(v, keep, "the caller's values are left alone")


def unknown_kw(ctx, kind, kw, known):
    SC = machine(ctx)
    v = ctx.real("s", 0, 2)
    ords = dict(bpms=[5], cavities=[9], magnets=[8, 3], supports=[[1], [8]])[kind]
    fn = getattr(SC, f"register_{kind}")
    args = (np.array(ords), "Girder") if kind == "supports" else (np.array(ords),)
    rejected(ctx, SC, lambda: fn(*args, **{**{k: v for k in known}, kw: v}), "unknown keyword")


def bad_support(ctx, t, ords):
    SC = machine(ctx)
    rejected(ctx, SC, lambda: SC.register_supports(ords, t, Offset=ctx.reals("s", 3, 0, 1)), "support registration")


def bad_table(ctx, which, shape):
    SC = machine(ctx)
    t = ctx.reals("t", shape, -1, 1)
    keep = t.copy()
    if which == "sys":
        rejected(ctx, SC, lambda: SC.set_systematic_multipole_errors(np.array([3, 6]), t, 1, False), "table of shape N x 2")
    else:
        rejected(ctx, SC, lambda: SC.set_random_multipole_errors(np.array([3, 6]), t), "table of shape N x 2")
    ctx.eq(t, keep, "the caller's table is left alone")


def bad_circ(ctx, mode):
    SC = machine(ctx)
    f = W.mod("pySC.utils.sc_tools").scale_circumference
    c = ctx.real("c", 1, 20)
    rejected(ctx, SC, lambda: f(SC.RING, c, mode), "unknown scaling mode")


def bad_mode(ctx, mode):
    SC = machine(ctx)
    SC.INJ.nTurns, SC.INJ.nParticles = 7, 9

    def fn():
        SC.INJ.trackMode = mode
    rejected(ctx, SC, fn, "unknown tracking mode")
    ctx.check(SC.INJ.trackMode == "TBT", "the tracking mode stays")


def good_mode(ctx, mode):
    SC = machine(ctx)
    SC.INJ.nTurns, SC.INJ.nParticles = 7, 9
    SC.INJ.trackMode = mode
    ctx.check(SC.INJ.trackMode == mode, "the tracking mode is set")
    ctx.check((SC.INJ.nTurns, SC.INJ.nParticles) == ((1, 1) if mode == "ORB" else (7, 9)), "orbit mode tracks one particle for one turn")


def bad_switch(ctx, args):
    SC = machine(ctx)
    f = W.mod("pySC.core.lattice_setting").switch_cavity_and_radiation
    rejected(ctx, SC, lambda: f(SC.RING, *args), "unknown switch")


def bad_reading(ctx, what):
    """requests about BPMs that are not registered, feedback on the wrong number of turns, unusable trackers"""
    SC = machine(ctx)
    OT, BBA, RF = (W.mod("pySC.correction." + m) for m in ("orbit_trajectory", "bba", "rf"))
    RM = W.mod("pySC.lattice_properties.response_model")
    rm = ctx.reals("rm", (4, 8), -1, 1)
    tr = Tracker(ctx, fixed=True)
    calls = dict(
        unregistered=lambda: W.mod("pySC.core.beam").bpm_reading(SC, np.array([3, 8])),
        rm_rows=lambda: OT.first_turn(SC, ctx.reals("r2", (3, 8), -1, 1), cm_ords=[np.array([3, 4, 6, 8])] * 2, bpm_ords=SC.ORD.BPM),
        rm_cols=lambda: OT.first_turn(SC, ctx.reals("r2", (4, 7), -1, 1), cm_ords=[np.array([3, 4, 6, 8])] * 2, bpm_ords=SC.ORD.BPM),
        reference=lambda: OT.correct(SC, rm, reference=ctx.reals("ref", 3, -1, 1)),
        stitch_turns=lambda: OT.stitch(SC, rm),
        balance_turns=lambda: OT.balance(SC, rm),
        bba_turns=lambda: BBA.trajectory_bba(SC, np.array([[1], [1]]), np.array([[3], [3]])),
        bba_mode=lambda: BBA.orbit_bba(SC, np.array([[1], [1]]), np.array([[3], [3]])),
        fake_bba=lambda: BBA.fake_bba(SC, np.array([[1], [1]]), np.array([[3], [3]])),
        model_mode=lambda: RM.SCgetModelRM(SC, SC.ORD.BPM, SC.ORD.CM, trackMode="XYZ"),
        dispersion_mode=lambda: RM.SCgetModelDispersion(SC, SC.ORD.BPM, SC.ORD.RF, trackMode="XYZ"),
        not_a_cavity=lambda: RF.correct_rf_phase(SC, cav_ords=np.array([3])),
        frequency_not_a_cavity=lambda: RF.correct_rf_frequency(SC, cav_ords=np.array([3])),
        few_steps=lambda: RF.correct_rf_phase(SC, n_steps=2),
    )
    if what in ("not_a_cavity", "frequency_not_a_cavity", "few_steps"):
        SC.INJ.nTurns = 200
    with tr.stub(), W.random(ctx, Draws(ctx, inside=1)):
        rejected(ctx, SC, calls[what], what)


CASES = []
for n in ("cm", "cm_skew", "magnet", "magnet_comp", "skew", "cavity"):
    CASES.append(Case(f"method-{n}", bad_method, what=n, methods=("ABS", "", None, "absolute", 0, "Rel", "sub", "reladd")))
    CASES.append(Case(f"length-{n}", bad_length, what=n))
for k, kws in dict(bpms=("offset", "Calerror", "SupportOffset"), cavities=("Voltage", "FrequencySetPoint", "Offset"),
                   magnets=("CalError", "HCMs", "Offset", "RollError"), supports=("GirderOffset", "Length", "offset")).items():
    good = dict(bpms=("Roll",), cavities=("VoltageOffset",), magnets=("CalErrorA", "HCM"), supports=())[k]
    for kw in kws:
        CASES.append(Case(f"keyword-{k}-{kw}", unknown_kw, kind=k, kw=kw, known=good))
for i, (t, o) in enumerate((("Gider", [[1], [8]]), ("girder", [[1], [8]]), ("Girder", [1, 8, 9]), ("Girder", [[1, 2, 3], [4, 5, 6], [7, 8, 9]]),
                            ("Girder", [[1, 8]]), ("Section", []))):
    CASES.append(Case(f"support-{i}", bad_support, t=t, ords=np.array(o, dtype=int)))
for fn in ("sys", "ran"):
    for sh in (3, (2, 3), (3, 1), (2, 2, 2)):
        CASES.append(Case(f"table-{fn}-{sh}", bad_table, which=fn, shape=sh))
CASES += [Case(f"circumference-{m}", bad_circ, mode=m) for m in ("ABS", "", None, "add")]
CASES += [Case(f"trackmode-{m}", bad_mode, mode=m) for m in ("tbt", "", None, "orbit", "PORBIT")]
CASES += [Case(f"trackmode-ok-{m}", good_mode, mode=m) for m in ("TBT", "ORB", "PORB")]
CASES += [Case(f"switch-{i}", bad_switch, args=a) for i, a in enumerate((("cavity",), ("cavityon", "radiation"), ("",), ("CavityOn",), ("radiationon", "cavityoff", "x")))]
CASES += [Case(f"request-{w}", bad_reading, what=w) for w in ("unregistered", "rm_rows", "rm_cols", "reference", "stitch_turns", "balance_turns", "bba_turns",
                                                             "bba_mode", "fake_bba", "model_mode", "dispersion_mode", "not_a_cavity", "frequency_not_a_cavity", "few_steps")]
