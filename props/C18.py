"""Orbit/trajectory correction and two-turn balancing: what is done at every step, and when it is called a success."""
from props.feedlib import *
from props.C17 import ref_of, options, used, step, same_settings, first_half, two_turn, ALLOW, nan

BOUNDS = dict(machine="3 BPMs, 3 horizontal and 4 vertical correctors (one combined with a quadrupole); subsets and one or two turns",
              readings="arbitrary positions in every reading; loss of the beam at any BPM", matrices="arbitrary pseudo-inverse", steps="1 to 3; constant orbits up to 8")
ASSUMPTIONS = ["corrector limits are not reached (clipping is C03)", "the BPM reading and the pseudo-inverse are arbitrary (C06, C07, C16)"]
RFA = [(10, "Frequency"), (10, "FrequencySetPoint")]


def correcting(ctx, reference="none", opts="default", sub=False, nturns=1, steps=1, disp=False, lost=False, target=None, sign=1):
    SC = machine(nturns)
    kw, want = options(ctx, opts)
    bp, hc, vc = (BORD, HORD, VORD)
    if sub:
        bp, hc, vc = (3, 8), (4, 7), (1, 9)
        kw.update(cm_ords=[np.array(hc), np.array(vc)], bpm_ords=np.array(bp))
    n = len(bp) * nturns
    L = Loop(ctx, SC, lambda k: n if k == 0 or not lost else ctx.choose(f"T{k}", n + 1), bp, hc, vc, rf=disp)
    sd = sign * ctx.real("scaleDisp", 0.5, 4) if disp else 0
    if disp:
        kw["scaleDisp"] = sd
    if target is not None:
        kw["target"] = target
    ref, r = ref_of(ctx, reference, 2 * n)
    before, keep = snap(SC), None if ref is None else ref.copy()
    f0 = SC.RING[10].FrequencySetPoint
    out = L.run("correct", maxsteps=steps, **({} if ref is None else dict(reference=ref)), **kw)
    same_settings(ctx, L, L.start, L.set[0], "the first reading is taken before any change")
    for k in range(len(L.reads) - 1):
        step(ctx, L, k, r, hc, vc, "every step: minus pseudo-inverse times the deviation from the reference")
        if disp:
            d = L.dphi(list(L.reads[k][0]) + list(L.reads[k][1]), r)[-1]
            ctx.eq(L.rf[k + 1] - L.rf[k], -sd * d, "the radio frequency follows the dispersive part, scaled")
        if L.trans[k + 1] < n:
            ctx.check(isinstance(out, RuntimeError) and len(L.reads) == k + 2, "losing the beam is an error")
            break
    else:
        if steps == 1:
            ctx.check(out is SC, "one step and no loss: the machine is returned")
        ctx.check(len(L.reads) == steps + 1 or out is SC, "ends early only when converged")
    ctx.check(out is SC or isinstance(out, RuntimeError), "the corrected machine or an error")
    used(ctx, L, want)
    same_settings(ctx, L, L.now(), L.set[-1], "no change after the last reading")
    ctx.eq(SC.RING[10].FrequencySetPoint, L.rf[-1], "no change after the last reading")
    same_state(ctx, before, SC, "correction changes corrector settings only", ALLOW + (RFA if disp else []))
    if ref is not None:
        ctx.eq(ref, keep, "the reference is left alone")


def constant(ctx, what, equal, nturns):
    """the orbit no longer changes: success after as many readings as are compared, not before"""
    SC = machine(nturns)
    n = 3 * nturns
    a = ctx.real("a", 0.5, 2)
    b = a if equal else ctx.real("b", 0.5, 2)
    L = Loop(ctx, SC, lambda k: n, values=lambda k, d, i: (b if d else a) * (1 if i % 2 else -1))
    out = L.run(what, maxsteps=8)
    ctx.check(out is SC, "a constant orbit is a success")
    ctx.check(len(L.reads) == 5, "success is declared after five readings")


def growing(ctx, what, nturns):
    """the orbit keeps growing: failure after the given number of steps"""
    SC = machine(nturns)
    n = 3 * nturns
    a = ctx.real("a", 0.5, 2)
    L = Loop(ctx, SC, lambda k: n, values=lambda k, d, i: a * (k + 1) * (1 if i % 2 else -1))
    out = L.run(what, maxsteps=6)
    ctx.check(isinstance(out, RuntimeError), "an orbit that keeps changing is an error")
    ctx.check(len(L.reads) == 7, "all steps are used")


def balancing(ctx, reference="none", opts="default", sub=False, steps=1, lost=False):
    SC = machine(2)
    kw, want = options(ctx, opts)
    bp, hc, vc = (BORD, HORD, VORD)
    if sub:
        bp, hc, vc = (3, 8), (4, 7), (1, 9)
        kw.update(cm_ords=[np.array(hc), np.array(vc)], bpm_ords=np.array(bp))
    n = len(bp)
    L = Loop(ctx, SC, lambda k: 2 * n if k == 0 or not lost else ctx.choose(f"T{k}", 2 * n + 1), bp, hc, vc)
    ref, r = ref_of(ctx, reference, 4 * n)
    before, keep = snap(SC), None if ref is None else ref.copy()
    out = L.run("balance", maxsteps=steps, **({} if ref is None else dict(reference=ref)), **kw)
    ctx.check(isinstance(out, RuntimeError), "no success before the orbit is stable")
    same_settings(ctx, L, L.start, L.set[0], "the first reading is taken before any change")
    for k in range(len(L.reads) - 1):
        step(ctx, L, k, first_half(r), hc, vc, "minus pseudo-inverse times the deviation of first turn and change to the second", two_turn(L, k, n))
        if L.trans[k + 1] < 2 * n:
            ctx.check(len(L.reads) == k + 2, "losing the beam is an error")
            break
    else:
        ctx.check(len(L.reads) == steps + 1, "the given number of steps is done")
    used(ctx, L, want)
    same_settings(ctx, L, L.now(), L.set[-1], "no change after the last reading")
    same_state(ctx, before, SC, "balancing changes corrector settings only", ALLOW)
    if ref is not None:
        ctx.eq(ref, keep, "the reference is left alone")


def balance_reject(ctx, nturns):
    SC = machine(nturns)
    L = Loop(ctx, SC, lambda k: ctx.choose("T", 3 * nturns))
    before = snap(SC)
    out = L.run("balance", maxsteps=3)
    ctx.check(isinstance(out, (ValueError, RuntimeError)), "balancing needs two complete turns")
    same_state(ctx, before, SC, "nothing is changed")


CASES = []
for rf in ("none", "given"):
    CASES.append(Case(f"correct-{rf}", correcting, reference=rf))
    CASES.append(Case(f"correct-subset-{rf}", correcting, reference=rf, sub=True))
    CASES.append(Case(f"correct-2turns-{rf}", correcting, reference=rf, nturns=2))
    CASES.append(Case(f"correct-dispersion-{rf}", correcting, reference=rf, disp=True, opts="given"))
    CASES.append(Case(f"correct-dispersion-subset-{rf}", correcting, reference=rf, disp=True, sub=True))
    CASES.append(Case(f"correct-lost-{rf}", correcting, reference=rf, lost=True))
    CASES.append(Case(f"balance-{rf}", balancing, reference=rf))
    CASES.append(Case(f"balance-lost-{rf}", balancing, reference=rf, lost=True))
    CASES.append(Case(f"balance-subset-{rf}", balancing, reference=rf, sub=True, opts="given"))
CASES.append(Case("correct-lost-2steps", correcting, reference="given", lost=True, steps=2))
CASES.append(Case("correct-2steps", correcting, reference="given", steps=2, disp=True))
CASES.append(Case("correct-dispersion-negative", correcting, reference="given", disp=True, opts="given", sign=-1))
CASES.append(Case("correct-target", correcting, reference="given", target=1.0))
CASES.append(Case("balance-2steps", balancing, reference="given", steps=2))
for e in (True, False):
    CASES.append(Case(f"correct-constant-{'same' if e else 'different'}", constant, what="correct", equal=e, nturns=1))
    CASES.append(Case(f"balance-constant-{'same' if e else 'different'}", constant, what="balance", equal=e, nturns=2))
CASES.append(Case("correct-growing", growing, what="correct", nturns=1))
CASES.append(Case("balance-growing", growing, what="balance", nturns=2))
CASES += [Case(f"balance-reject-{n}turns", balance_reject, nturns=n) for n in (1, 2, 3)]
