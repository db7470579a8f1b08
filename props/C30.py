"""The MATLAB names do what the Python functions of the package do, with the MATLAB conventions translated."""
import inspect

from props.common import *

BOUNDS = dict(machine="10 elements, one or two of each kind", arguments="arbitrary values for every number; each optional argument given and not given")
ASSUMPTIONS = ["for wrappers of measurements, corrections and plots the wrapped function is replaced by a recorder of its arguments; the functions themselves have their own properties"]
SCM, BEAM, BBA, OT, RF, RM, RMO = ("pySC.core.simulated_commissioning", "pySC.core.beam", "pySC.correction.bba", "pySC.correction.orbit_trajectory", "pySC.correction.rf",
                                   "pySC.lattice_properties.response_measurement", "pySC.lattice_properties.response_model")


def mx():
    return W.mod("pySC.matlab_index")


def ring(ctx):
    r = lattice([drift(), quad("QF", k=1.5), corrector("C1"), monitor("BPM1"), dipole("BD", 1.0, 0.125, -0.5), sext("S"), quad("QD", k=-1.0), cavity("RF"), monitor("BPM2"), drift()])
    return r


def machine(ctx, registered=True):
    SC = new_SC(ring(ctx))
    if registered:
        SC.register_magnets(np.array([1, 6]), CalErrorB=np.array([0.0, 0.125]), MagnetOffset=np.array([0.25, 0.5, 0.0]))
        SC.register_magnets(np.array([2]), HCM=10.0, VCM=10.0)
        SC.register_magnets(np.array([4]), CF=1, HCM=10.0)
        SC.register_bpms(np.array([3, 8]), Offset=np.array([0.25, 0.125]))
        SC.register_cavities(np.array([7]), VoltageOffset=1000.0)
        SC.register_supports(np.array([[0, 5], [4, 9]]), "Girder", Offset=np.array([0.25, 0.5, 0.125]), Roll=np.array([0.25, 0.0, 0.0]))
        for o in (1, 6, 4):
            SC.RING[o].SetPointB = arr([0.0, ctx.real(f"k{o}", -2, 2)])
            SC.RING[o].CalErrorB = arr([0.0, ctx.real(f"cal{o}", -0.25, 0.25)])
        for o in (0, 5, 4, 9):
            SC.RING[o].GirderOffset = arr([ctx.real(f"g{o}", -1, 1), 0.25 * o, 0.0])
        for o in (0, 4):
            SC.RING[o].GirderRoll = arr([0.125, 0.0, 0.0])
        SC.RING[7].VoltageCalError = ctx.real("vc", -0.25, 0.25)
        SC.update_magnets()
    return SC


class Same:
    """the same random numbers in both runs"""

    def __init__(self, ctx, far=False):
        self.ctx, self.values, self.n = ctx, {}, 0
        self.lim = 0.9375 if far else 1.9375
        if far:
            self.values = {2: 1.5, 5: -1.25}              # cut at one sigma, not at two

    def __call__(self, kind, shape):
        size = int(np.prod(shape)) if shape != () else 1
        out = []
        for _ in range(size):
            if self.n not in self.values:
                self.values[self.n] = self.ctx.real(f"z{self.n}", -self.lim, self.lim)
            out.append(self.values[self.n])
            self.n += 1
        return out[0] if shape == () else arr(out).reshape(shape)


def compare(ctx, a, b, label):
    if isinstance(a, tuple) or isinstance(b, tuple):
        ctx.check(isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b), label)
        for x, y in zip(a, b):
            compare(ctx, x, y, label)
    elif a is None or b is None:
        ctx.check(a is None and b is None, label)
    elif isinstance(a, list) and hasattr(a[0], "PassMethod"):
        same_ring(ctx, snap_ring(b), a, label)
    else:
        ctx.eq(a, b, label)


def both(ctx, old, new, registered=True, returns="SC", far=False):
    """old(M, SC), new(SC): wrapper and direct call on equal machines with equal arguments; returns: SC - the machine, value - the same value"""
    SC = machine(ctx, registered)
    SC2 = copy.deepcopy(SC)
    args = {}

    def v(name, lo=-2, hi=2):
        if name not in args:
            args[name] = ctx.real(name, lo, hi)
        return args[name]
    rnd = Same(ctx, far)
    with W.random(ctx, rnd):
        want = new(SC2, v)
        rnd.n = 0
        got = old(mx(), SC, v)
    if returns == "SC":
        ctx.check(got is SC, "the machine is returned")
    elif returns == "value":
        compare(ctx, got, want, "the result is the same")
    elif returns == "SC+value":
        ctx.check(got[0] is SC, "the machine is returned")
        compare(ctx, got[1], want, "the result is the same")
    same_state(ctx, snap(SC2), SC, "the machine is the same")


O, T = np.array, [1, 6]


def _multipoles(v, swap):
    a = [[v(f"b{i}"), v(f"a{i}")] for i in range(3)]
    return arr([r[::-1] for r in a] if swap else a)


def _spos(v):
    return arr([0.5, 1.25, 3.0])


STATE = dict(
    apply=(lambda M, S, v: M.SCapplyErrors(S), lambda S, v: S.apply_errors(), "SC"),
    apply_cut=(lambda M, S, v: M.SCapplyErrors(S, nsigmas=1), lambda S, v: S.apply_errors(nsigmas=1), "SC"),
    bpms=(lambda M, S, v: M.SCregisterBPMs(S, O([3, 8]), Noise=arr([v("n"), v("m")]), Roll=v("r")), lambda S, v: S.register_bpms(O([3, 8]), Noise=arr([v("n"), v("m")]), Roll=v("r")), "SC"),
    cavs=(lambda M, S, v: M.SCregisterCAVs(S, O([7]), FrequencyCalError=v("f")), lambda S, v: S.register_cavities(O([7]), FrequencyCalError=v("f")), "SC"),
    mags=(lambda M, S, v: M.SCregisterMagnets(S, O([5, 1]), CalErrorB=arr([0.0, v("c")])), lambda S, v: S.register_magnets(O([5, 1]), CalErrorB=arr([0.0, v("c")])), "SC"),
    support=(lambda M, S, v: M.SCregisterSupport(S, "Plinth", O([[1], [6]]), Offset=arr([v("x"), v("y"), v("z")])), lambda S, v: S.register_supports(O([[1], [6]]), "Plinth", Offset=arr([v("x"), v("y"), v("z")])), "SC"),
    cavset=(lambda M, S, v: M.SCsetCavs2SetPoints(S, O([7]), "Voltage", v("V")), lambda S, v: S.set_cavity_setpoints(O([7]), v("V"), "Voltage"), "SC"),
    cavadd=(lambda M, S, v: M.SCsetCavs2SetPoints(S, O([7]), "Frequency", arr([v("V")]), mode="add"), lambda S, v: S.set_cavity_setpoints(O([7]), arr([v("V")]), "Frequency", "add"), "SC"),
    cavrel=(lambda M, S, v: M.SCsetCavs2SetPoints(S, O([7]), "Voltage", v("V"), mode="rel"), lambda S, v: S.set_cavity_setpoints(O([7]), v("V"), "Voltage", "rel"), "SC"),
    hcm=(lambda M, S, v: M.SCsetCMs2SetPoints(S, O([2]), v("c"), 1), lambda S, v: (S.set_cm_setpoints(O([2]), v("c"), False), S.get_cm_setpoints(O([2]), False))[1], "SC+value"),
    vcm=(lambda M, S, v: M.SCsetCMs2SetPoints(S, O([2]), arr([v("c")]), 2, mode="add"), lambda S, v: (S.set_cm_setpoints(O([2]), arr([v("c")]), True, "add"), S.get_cm_setpoints(O([2]), True))[1], "SC+value"),
    gethcm=(lambda M, S, v: (M.SCsetCMs2SetPoints(S, O([2]), v("c"), 1), M.SCgetCMSetPoints(S, O([2]), 1))[1], lambda S, v: (S.set_cm_setpoints(O([2]), v("c"), False), S.get_cm_setpoints(O([2]), False))[1], "value"),
    getvcm=(lambda M, S, v: (M.SCsetCMs2SetPoints(S, O([2]), v("c"), 2), M.SCgetCMSetPoints(S, O([2]), 2))[1], lambda S, v: (S.set_cm_setpoints(O([2]), v("c"), True), S.get_cm_setpoints(O([2]), True))[1], "value"),
    quad=(lambda M, S, v: M.SCsetMags2SetPoints(S, O(T), 2, 2, v("k")), lambda S, v: S.set_magnet_setpoints(O(T), v("k"), False, 1, "abs"), "SC"),
    skew=(lambda M, S, v: M.SCsetMags2SetPoints(S, O(T), 1, 2, arr([v("k"), v("l")]), method="add"), lambda S, v: S.set_magnet_setpoints(O(T), arr([v("k"), v("l")]), True, 1, "add"), "SC"),
    comp=(lambda M, S, v: M.SCsetMags2SetPoints(S, O([4]), 2, 2, v("k"), method="rel", dipCompensation=True), lambda S, v: S.set_magnet_setpoints(O([4]), v("k"), False, 1, "rel", dipole_compensation=True), "SC"),
    nocomp=(lambda M, S, v: M.SCsetMags2SetPoints(S, O([4]), 2, 2, v("k")), lambda S, v: S.set_magnet_setpoints(O([4]), v("k"), False, 1, "abs", dipole_compensation=False), "SC"),
    bend=(lambda M, S, v: M.SCsetMags2SetPoints(S, O([1]), 2, 1, v("k")), lambda S, v: S.set_magnet_setpoints(O([1]), v("k"), False, 0, "abs"), "SC"),
    multirnd=(lambda M, S, v: M.SCsetMultipoles(S, O(T), _multipoles(v, True)), lambda S, v: S.set_random_multipole_errors(O(T), _multipoles(v, False)), "SC"),
    multisysB=(lambda M, S, v: M.SCsetMultipoles(S, O(T), _multipoles(v, True), method="sys", order=2, type=2), lambda S, v: S.set_systematic_multipole_errors(O(T), _multipoles(v, False), 1, False), "SC"),
    multisysA=(lambda M, S, v: M.SCsetMultipoles(S, O(T), _multipoles(v, True), method="sys", order=1, type=1), lambda S, v: S.set_systematic_multipole_errors(O(T), _multipoles(v, False), 0, True), "SC"),
    upmag=(lambda M, S, v: (setattr(S.RING[1], "CalErrorB", arr([0.0, v("c")])), M.SCupdateMagnets(S))[1], lambda S, v: (setattr(S.RING[1], "CalErrorB", arr([0.0, v("c")])), S.update_magnets()), "SC"),
    upmag1=(lambda M, S, v: ([setattr(S.RING[o], "CalErrorB", arr([0.0, v("c")])) for o in T], M.SCupdateMagnets(S, O([6])))[1], lambda S, v: ([setattr(S.RING[o], "CalErrorB", arr([0.0, v("c")])) for o in T], S.update_magnets(O([6]))), "SC"),
    upcav=(lambda M, S, v: M.SCupdateCAVs(S), lambda S, v: S.update_cavities(), "SC"),
    upcav1=(lambda M, S, v: M.SCupdateCAVs(S, O([7])), lambda S, v: S.update_cavities(O([7])), "SC"),
    upsup=(lambda M, S, v: M.SCupdateSupport(S), lambda S, v: S.update_supports(), "SC"),
    upsupb=(lambda M, S, v: M.SCupdateSupport(S, MAGstructOffset=False), lambda S, v: S.update_supports(offset_magnets=False), "SC"),
    upsupm=(lambda M, S, v: M.SCupdateSupport(S, BPMstructOffset=False), lambda S, v: S.update_supports(offset_bpms=False), "SC"),
    offset=(lambda M, S, v: M.SCgetSupportOffset(S, _spos(v)), lambda S, v: S.support_offset_and_roll(_spos(v))[0], "value"),
    roll=(lambda M, S, v: M.SCgetSupportRoll(S, _spos(v)), lambda S, v: S.support_offset_and_roll(_spos(v))[1], "value"),
    sanity=(lambda M, S, v: M.SCSanityCheck(S), lambda S, v: S.verify_structure(), "value"),
    ords=(lambda M, S, v: M.SCgetOrds(S.RING, "^Q"), lambda S, v: O([1, 6]), "value"),
    modelring=(lambda M, S, v: M.SCgetModelRING(S), lambda S, v: W.mod(RMO).SCgetModelRING(S), "value"),
    cav_off=(lambda M, S, v: M.SCcronoff(S.RING, "cavityoff", "radiationon"), lambda S, v: W.mod("pySC.core.lattice_setting").switch_cavity_and_radiation(S.RING, "cavityoff", "radiationon"), "value"),
    circ=(lambda M, S, v: M.SCscaleCircumference(S.RING, v("C", 4, 8)), lambda S, v: W.mod("pySC.utils.sc_tools").scale_circumference(S.RING, v("C", 4, 8), mode="abs"), "value"),
    circ_rel=(lambda M, S, v: M.SCscaleCircumference(S.RING, v("C", 0.75, 1.25), mode="rel"), lambda S, v: W.mod("pySC.utils.sc_tools").scale_circumference(S.RING, v("C", 0.75, 1.25), mode="rel"), "value"),
    randnc=(lambda M, S, v: M.SCrandnc(2, (2, 2)), lambda S, v: W.mod("pySC.utils.sc_tools").randnc(2, (2, 2)), "value"),
)


def init(ctx):
    r = ring(ctx)
    r[1].PolynomB = arr([0.0, ctx.real("k", -2, 2)])
    SC, SC2 = mx().SCinit(r), new_SC(r)
    same_state(ctx, snap(SC2), SC, "the machine is the same")


def rejected(ctx, call):
    SC = machine(ctx)
    before = snap(SC)
    M = mx()
    calls = dict(cm=lambda: M.SCsetCMs2SetPoints(SC, O([2]), 1.0, 0), cmget=lambda: M.SCgetCMSetPoints(SC, O([2]), 3), mag=lambda: M.SCsetMags2SetPoints(SC, O([1]), 0, 2, 1.0),
                 mag3=lambda: M.SCsetMags2SetPoints(SC, O([1]), 3, 2, 1.0), multi=lambda: M.SCsetMultipoles(SC, O([1]), np.ones(3)), multitype=lambda: M.SCsetMultipoles(SC, O([1]), np.ones((2, 2)), type=3),
                 inj=lambda: M.SCfitInjectionZ(SC, "fit"))
    try:
        calls[call]()
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok, "arguments without a meaning are an error")
    same_state(ctx, before, SC, "and change nothing")


def transformation(ctx, bend, length):
    d = [ctx.real(f"d{i}", -1, 1) for i in range(3)]
    a = [ctx.real("ax", -0.25, 0.25), 0.0, 0.0] if bend else [0.0, 0.0, ctx.real("az", -0.25, 0.25)]
    el = dipole("B", length, 0.125) if bend else quad("Q", length)
    el.SupportOffset, el.SupportRoll = zeros(3), zeros(3)
    el.MagnetOffset, el.MagnetRoll = arr(d), arr([a[2], a[0], a[1]])
    W.mod("pySC.utils.sc_tools").update_transformation(el)
    out = mx().SCgetTransformation(*d, *a, 0.125 if bend else 0, length, refPoint="entrance")
    for x, n in zip(out, ("T1", "T2", "R1", "R2")):
        ctx.eq(x, getattr(el, n), "the transformation of an element with these offsets and angles")


class Recorder:
    def __init__(self, ctx, modname, attr, result, SC=None):
        self.sig = inspect.signature(getattr(W.mod(modname), attr))
        self.ctx, self.result, self.SC, self.calls, self.turns, self.plot = ctx, result, SC, [], [], []

    def __call__(self, *a, **k):
        b = self.sig.bind(*a, **k)              # a wrong argument is a TypeError here as there
        b.apply_defaults()
        self.calls.append(b.arguments)
        self.turns.append(self.SC.INJ.nTurns)
        self.plot.append(self.SC.plot)
        if isinstance(self.result, Exception):
            raise self.result
        return self.result


def forward(ctx, module, attr, call, expect, result=None, turns=None, error=False):
    """expect: parameter -> value (True-ish defaults are filled in from the signature)"""
    SC = machine(ctx)
    SC.INJ.nTurns = 3
    before = snap(SC)
    vals = {}

    def v(name):
        if name not in vals:
            vals[name] = ctx.real(name, -2, 2)
        return vals[name]
    res = RuntimeError("failed") if error else "machine" if result is None else result
    rec = Recorder(ctx, module, attr, SC if isinstance(res, str) else res, SC)
    with W.patched(module, attr, rec):
        try:
            out = call(mx(), SC, v)
        except RuntimeError:
            ctx.check(error, "the call succeeds")
            out = None
    ctx.check(len(rec.calls) == 1, "the function of the package is called once")
    got = dict(rec.calls[0])
    want = {p: q.default for p, q in rec.sig.parameters.items() if q.kind not in (q.VAR_KEYWORD, q.VAR_POSITIONAL)}
    if "kwargs" in got:
        got.update(got.pop("kwargs"))
    got.pop("pinv_params", None) if got.get("pinv_params") == {} else None
    want.update(expect(SC, v))
    ctx.check(set(got) == set(want), "with the arguments given", f"{sorted(set(got) ^ set(want))}")
    for p in want:
        g, w = got.get(p), want[p]
        if isinstance(w, str) or w is None or w is SC or isinstance(w, bool):
            ctx.check(g is w or isinstance(w, (str, bool)) and isinstance(g, (str, bool, int)) and g == w, "each argument has the value given", f"{p}: {g!r} instead of {w!r}")
        elif p == "response_matrix":
            ctx.eq(np.linalg.pinv(np.asarray(g, dtype=float)), w, "the response matrix is the one with the given inverse")
        elif isinstance(w, list) and len(w) == 2 and isinstance(w[0], np.ndarray):
            for x, y in zip(g, w):
                ctx.eq(x, y, "each argument has the value given")
        elif isinstance(w, list) and w and hasattr(w[0], "PassMethod"):
            ctx.check(g is w, "each argument has the value given", p)
        else:
            ctx.eq(np.asarray(g) if not isinstance(g, E.S) else g, np.asarray(w) if not isinstance(w, E.S) else w, "each argument has the value given")
    if turns:
        ctx.check(rec.turns == [turns], "with the requested number of turns")
    if not error:
        exp = rec.result
        if attr == "bpm_reading":
            exp = exp[0]
        if attr.startswith("plot_"):
            pass
        elif isinstance(exp, (tuple, list)) and exp is not out:
            compare(ctx, out, exp, "the result is that of the function")
        else:
            ctx.check(out is exp, "the result is that of the function")
    same_state(ctx, before, SC, "the wrapper itself changes nothing")


MP = O([[1.0, 0.5], [0.25, -1.0]])
CM = [O([2]), O([2])]
R0 = lambda v: arr([[v("r0"), v("r1")], [v("r2"), v("r3")]])
RES = ("a", "b")
FWD = dict(
    tbba=(BBA, "trajectory_bba", lambda M, S, v: M.SCBBA(S, O([[3]]), O([[1]]), mode="TBT", n_steps=v("n")), lambda S, v: dict(SC=S, bpm_ords=O([[3]]), mag_ords=O([[1]]), n_steps=v("n"), mode="TBT"), {}),
    obba=(BBA, "orbit_bba", lambda M, S, v: M.SCBBA(S, O([[3]]), O([[1]]), mode="ORB", n_steps=v("n")), lambda S, v: dict(SC=S, bpm_ords=O([[3]]), mag_ords=O([[1]]), n_steps=v("n"), mode="ORB"), {}),
    fbba=(BBA, "fake_bba", lambda M, S, v: M.SCpseudoBBA(S, O([[3]]), O([[1]]), v("o")), lambda S, v: dict(SC=S, bpm_ords=O([[3]]), mag_ords=O([[1]]), fake_offset=v("o")), {}),
    balance=(OT, "balance", lambda M, S, v: M.SCfeedbackBalance(S, MP, R0=R0(v), CMords=CM, BPMords=O([3]), eps=v("e"), maxsteps=v("m")), lambda S, v: dict(SC=S, response_matrix=MP, reference=R0(v), cm_ords=CM, bpm_ords=O([3]), eps=v("e"), maxsteps=v("m")), {}),
    balance0=(OT, "balance", lambda M, S, v: M.SCfeedbackBalance(S, MP), lambda S, v: dict(SC=S, response_matrix=MP), {}),
    first=(OT, "first_turn", lambda M, S, v: M.SCfeedbackFirstTurn(S, MP, R0=R0(v), CMords=CM, BPMords=O([3]), maxsteps=v("m")), lambda S, v: dict(SC=S, response_matrix=MP, reference=R0(v), cm_ords=CM, bpm_ords=O([3]), maxsteps=v("m")), {}),
    first0=(OT, "first_turn", lambda M, S, v: M.SCfeedbackFirstTurn(S, MP), lambda S, v: dict(SC=S, response_matrix=MP), {}),
    run=(OT, "correct", lambda M, S, v: M.SCfeedbackRun(S, MP, R0=R0(v), CMords=CM, BPMords=O([3]), eps=v("e"), target=v("t"), maxsteps=v("m"), scaleDisp=v("s")), lambda S, v: dict(SC=S, response_matrix=MP, reference=R0(v), cm_ords=CM, bpm_ords=O([3]), eps=v("e"), target=v("t"), maxsteps=v("m"), scaleDisp=v("s")), {}),
    run0=(OT, "correct", lambda M, S, v: M.SCfeedbackRun(S, MP), lambda S, v: dict(SC=S, response_matrix=MP), {}),
    stitch=(OT, "stitch", lambda M, S, v: M.SCfeedbackStitch(S, MP, R0=R0(v), CMords=CM, BPMords=O([3]), nBPMs=v("n"), maxsteps=v("m")), lambda S, v: dict(SC=S, response_matrix=MP, reference=R0(v), cm_ords=CM, bpm_ords=O([3]), n_bpms=v("n"), maxsteps=v("m")), {}),
    stitch0=(OT, "stitch", lambda M, S, v: M.SCfeedbackStitch(S, MP), lambda S, v: dict(SC=S, response_matrix=MP), {}),
    injT=("pySC.correction.injection_fit", "fit_injection_trajectory", lambda M, S, v: M.SCfitInjectionZ(S, "fitTrajectory", nBPMs=O([1, 0])), lambda S, v: dict(SC=S, bpm_inds=O([1, 0])), {}),
    injD=("pySC.correction.injection_fit", "fit_injection_drift", lambda M, S, v: M.SCfitInjectionZ(S, "injectionDrift", nDims=O([1]), plotFlag=True), lambda S, v: dict(SC=S, n_dims=O([1]), plot=True), {}),
    bunches=(BEAM, "generate_bunches", lambda M, S, v: M.SCgenBunches(S), lambda S, v: dict(SC=S), {}),
    trans=(BEAM, "beam_transmission", lambda M, S, v: M.SCgetBeamTransmission(S, nParticles=v("p"), nTurns=v("t"), plotFlag=True), lambda S, v: dict(SC=S, nParticles=v("p"), nTurns=v("t"), plot=True), dict(result=(1, 2))),
    trans0=(BEAM, "beam_transmission", lambda M, S, v: M.SCgetBeamTransmission(S), lambda S, v: dict(SC=S), dict(result=(1, 2))),
    reading=(BEAM, "bpm_reading", lambda M, S, v: M.SCgetBPMreading(S, BPMords=O([8])), lambda S, v: dict(SC=S, bpm_ords=O([8])), dict(result=(5, 6))),
    reading0=(BEAM, "bpm_reading", lambda M, S, v: M.SCgetBPMreading(S), lambda S, v: dict(SC=S), dict(result=(5, 6))),
    eta=(RM, "dispersion", lambda M, S, v: M.SCgetDispersion(S, v("f"), BPMords=O([3]), CAVords=O([7]), nSteps=v("n")), lambda S, v: dict(SC=S, rf_step=v("f"), bpm_ords=O([3]), cav_ords=O([7]), n_steps=v("n")), {}),
    eta0=(RM, "dispersion", lambda M, S, v: M.SCgetDispersion(S, v("f")), lambda S, v: dict(SC=S, rf_step=v("f")), {}),
    resp=(RM, "response_matrix", lambda M, S, v: M.SCgetRespMat(S, v("a"), O([3]), CM, mode="fixedOffset", nSteps=v("n"), fit="quadratic"), lambda S, v: dict(SC=S, amp=v("a"), bpm_ords=O([3]), cm_ords=CM, mode="fixedOffset", n_steps=v("n"), fit_order=2), {}),
    resp0=(RM, "response_matrix", lambda M, S, v: M.SCgetRespMat(S, v("a"), O([3]), CM), lambda S, v: dict(SC=S, amp=v("a"), bpm_ords=O([3]), cm_ords=CM), {}),
    mrm=(RMO, "SCgetModelRM", lambda M, S, v: M.SCgetModelRM(S, O([3]), CM, trackMode="ORB", Z0=arr([v("z")] * 6), nTurns=v("t"), dkick=v("d"), useIdealRing=False), lambda S, v: dict(SC=S, BPMords=O([3]), CMords=CM, trackMode="ORB", Z0=arr([v("z")] * 6), nTurns=v("t"), dkick=v("d"), useIdealRing=False), {}),
    mrm0=(RMO, "SCgetModelRM", lambda M, S, v: M.SCgetModelRM(S, O([3]), CM), lambda S, v: dict(SC=S, BPMords=O([3]), CMords=CM), {}),
    meta=(RMO, "SCgetModelDispersion", lambda M, S, v: M.SCgetModelDispersion(S, O([3]), O([7]), trackMode="TBT", Z0=arr([v("z")] * 6), nTurns=v("t"), rfStep=v("d"), useIdealRing=False), lambda S, v: dict(SC=S, BPMords=O([3]), CAVords=O([7]), trackMode="TBT", Z0=arr([v("z")] * 6), nTurns=v("t"), rfStep=v("d"), useIdealRing=False), {}),
    meta0=(RMO, "SCgetModelDispersion", lambda M, S, v: M.SCgetModelDispersion(S, O([3]), O([7])), lambda S, v: dict(SC=S, BPMords=O([3]), CAVords=O([7])), {}),
    mring=(RMO, "SCgetModelRING", lambda M, S, v: M.SCgetModelRING(S, includeAperture=True), lambda S, v: dict(SC=S, includeAperture=True), {}),
    pinv=("pySC.utils.sc_tools", "pinv", lambda M, S, v: M.SCgetPinv(MP, N=v("n"), alpha=v("a"), damping=v("d")), lambda S, v: dict(matrix=MP, num_removed=v("n"), alpha=v("a"), damping=v("d")), {}),
    multipoles=("pySC.utils.sc_tools", "read_multipoles", lambda M, S, v: M.SCmultipolesRead("file"), lambda S, v: dict(fname="file"), {}),
    energy=(RF, "correct_rf_frequency", lambda M, S, v: M.SCsynchEnergyCorrection(S, cavOrd=O([7]), f_range=arr([v("f"), v("g")]), nSteps=v("n"), nTurns=17), lambda S, v: dict(SC=S, cav_ords=O([7]), f_range=arr([v("f"), v("g")]), n_steps=v("n")), dict(turns=17)),
    energy0=(RF, "correct_rf_frequency", lambda M, S, v: M.SCsynchEnergyCorrection(S), lambda S, v: dict(SC=S), dict(turns=150)),
    energyE=(RF, "correct_rf_frequency", lambda M, S, v: M.SCsynchEnergyCorrection(S, nTurns=5), lambda S, v: dict(SC=S), dict(turns=5, error=True)),
    phase=(RF, "correct_rf_phase", lambda M, S, v: M.SCsynchPhaseCorrection(S, cavOrd=O([7]), nSteps=v("n"), nTurns=17, plotResults=True), lambda S, v: dict(SC=S, cav_ords=O([7]), n_steps=v("n"), plot_results=True), dict(turns=17)),
    phase0=(RF, "correct_rf_phase", lambda M, S, v: M.SCsynchPhaseCorrection(S), lambda S, v: dict(SC=S), dict(turns=20)),
    phaseE=(RF, "correct_rf_phase", lambda M, S, v: M.SCsynchPhaseCorrection(S, nTurns=5), lambda S, v: dict(SC=S), dict(turns=5, error=True)),
    scan=("pySC.correction.tune", "tune_scan", lambda M, S, v: M.SCtuneScan(S, [O([1]), O([6])], [arr([v("a")]), arr([v("b")])], nParticles=v("p"), nTurns=v("t"), target=v("g"), fullScan=True), lambda S, v: dict(SC=S, quad_ords=[O([1]), O([6])], rel_quad_changes=[arr([v("a")]), arr([v("b")])], nParticles=v("p"), nTurns=v("t"), target=v("g"), full_scan=True), {}),
    scan0=("pySC.correction.tune", "tune_scan", lambda M, S, v: M.SCtuneScan(S, [O([1]), O([6])], [O([0.5]), O([0.25])]), lambda S, v: dict(SC=S, quad_ords=[O([1]), O([6])], rel_quad_changes=[O([0.5]), O([0.25])]), {}),
    ramp=("pySC.correction.ramp_errors", "SCrampUpErrors", lambda M, S, v: M.SCrampUpErrors(S, nStepsRamp=v("n"), eps=v("e"), target=v("t"), alpha=v("a"), maxsteps=v("m")), lambda S, v: dict(SC=S, nStepsRamp=v("n"), eps=v("e"), target=v("t"), alpha=v("a"), maxsteps=v("m")), {}),
    da=("pySC.lattice_properties.apertures", "SCdynamicAperture", lambda M, S, v: M.SCdynamicAperture(S.RING, v("d"), nturns=v("t"), accuracy=v("a"), auto=v("o"), launchOnOrbit=True, centerOnOrbit=False, useOrbit6=True), lambda S, v: dict(RING=S.RING, dE=v("d"), nturns=v("t"), accuracy=v("a"), auto=v("o"), launchOnOrbit=True, centerOnOrbit=False, useOrbit6=True), {}),
    ma=("pySC.lattice_properties.apertures", "SCmomentumAperture", lambda M, S, v: M.SCmomentumAperture(S.RING, O([1]), arr([v("l"), v("h")]), nturns=v("t"), accuracy=v("a"), stepsize=v("s")), lambda S, v: dict(RING=S.RING, REFPTS=O([1]), inibounds=arr([v("l"), v("h")]), nturns=v("t"), accuracy=v("a"), stepsize=v("s")), {}),
    cod=("pySC.lattice_properties.magnet_orbit", "SCgetCOD", lambda M, S, v: M.SCgetCOD(S, ords=O([1])), lambda S, v: dict(SC=S, ords=O([1])), {}),
)


def plotted(ctx, initial):
    SC = machine(ctx)
    SC.plot = initial
    before = snap(SC)
    rec = Recorder(ctx, BEAM, "bpm_reading", (1, 2), SC)
    with W.patched(BEAM, "bpm_reading", rec):
        out = mx().SCplotBPMreading(SC)
    ctx.check(out is SC and rec.plot == [True], "one reading with plots")
    ctx.check(SC.plot == initial, "plots are on or off as before")
    same_state(ctx, before, SC, "the machine stays as it is")


CASES = [Case(f"state-{n}", both, old=a, new=b, returns=r, far=n == "apply_cut") for n, (a, b, r) in STATE.items()]
CASES += [Case("init", init)] + [Case(f"rejected-{c}", rejected, call=c) for c in ("cm", "cmget", "mag", "mag3", "multi", "multitype", "inj")]
CASES += [Case(f"transformation-{int(b)}-{l}", transformation, bend=b, length=l) for b, l in ((False, 0.5), (True, 1.0), (False, 0.0))]
CASES += [Case(f"call-{n}", forward, module=m, attr=a, call=c, expect=e, **k) for n, (m, a, c, e, k) in FWD.items()]
CASES += [Case(f"plot-{i}", plotted, initial=i) for i in (True, False)]
