"""First-turn threading and second-turn stitching: what is done at every step, and when it is called a success."""
from props.feedlib import *

BOUNDS = dict(machine="3 BPMs, 3 horizontal and 4 vertical correctors (one combined with a quadrupole); subsets and one or two turns",
              readings="arbitrary positions in every reading, any number of BPMs reached", matrices="arbitrary pseudo-inverse",
              steps="all loss patterns over 1 to 2 steps, selected histories up to 23 readings (thorough: 28)")
ASSUMPTIONS = ["the beam is lost in both planes and from some BPM on", "corrector limits are not reached (clipping is C03)", "the BPM reading and the pseudo-inverse are arbitrary (C06, C07, C16)"]
ALLOW = [(o, a) for o in VORD for a in ("SetPointA", "SetPointB", "PolynomA", "PolynomB", "KickAngle")]


def ref_of(ctx, kind, n):
    if kind == "none":
        return None, [0.0] * n
    r = ctx.reals("ref", n, -1, 1)
    return r, [r[i] for i in range(n)]


def options(ctx, kind):
    if kind == "default":
        return {}, (0, 0, 1)
    a, d = ctx.real("alpha", 0.5, 2), ctx.real("damping", 0.5, 2)
    return dict(num_removed=2, alpha=a, damping=d), (2, a, d)


def used(ctx, L, want):
    ctx.check(L.params is not None, "the response matrix is inverted")
    for g, w in zip(L.params, want):
        ctx.eq(g, w, "the options of the pseudo-inverse are passed on")


def nan0(x):
    return [0.0 if isinstance(v, float) and v != v else v for v in x]


def same_settings(ctx, L, a, b, label):
    for x, y in zip(a[0] + a[1], b[0] + b[1]):
        ctx.eq(x, y, label)


def step(ctx, L, k, ref, hcm, vcm, label, measurement=None):
    """between readings k and k+1: the correctors hcm/vcm move by minus the pseudo-inverse times the deviation, the others stay"""
    if measurement is None:
        measurement = nan0(L.reads[k][0]) + nan0(L.reads[k][1])
    want = L.dphi(measurement, ref)
    h, v = L.change(k)
    for i, c in enumerate(L.hcm):
        ctx.eq(h[i], -want[i] if c in hcm else 0.0, label if c in hcm else "correctors the beam did not reach stay")
    for i, c in enumerate(L.vcm):
        ctx.eq(v[i], -want[len(L.hcm) + i] if c in vcm else 0.0, label if c in vcm else "correctors the beam did not reach stay")


def threading(ctx, reference="none", opts="default", sub=False, nturns=1, steps=1, first=None):
    """all loss patterns: any number of BPMs reached in every reading"""
    SC = machine(nturns)
    kw, want = options(ctx, opts)
    bp, hc, vc = (BORD, HORD, VORD)
    if sub:
        bp, hc, vc = (3, 8), (4, 7), (1, 9)
        kw.update(cm_ords=[np.array(hc), np.array(vc)], bpm_ords=np.array(bp))
    n = len(bp) * nturns
    L = Loop(ctx, SC, lambda k: first if k == 0 and first is not None else ctx.choose(f"T{k}", n + 1), bp, hc, vc)
    ref, r = ref_of(ctx, reference, 2 * n)
    before, keep = snap(SC), None if ref is None else ref.copy()
    out = L.run("first_turn", maxsteps=steps, **({} if ref is None else dict(reference=ref)), **kw)
    ctx.check(isinstance(out, RuntimeError), "no success before the transmission was reproduced")
    done = 0
    for k in range(len(L.reads)):
        T = L.trans[k]
        last = L.bpms[min(T, len(L.bpms)) - 1] if T else None
        h, v = (upstream(L.hcm, last), upstream(L.vcm, last)) if T else ([], [])
        if T > len(L.bpms):
            h, v = L.hcm, L.vcm
        if k == steps:
            break
        if T == 0 or not h or not v:
            ctx.check(len(L.reads) == k + 1, "no beam or no corrector upstream: threading stops")
            same_settings(ctx, L, L.now(), L.set[k], "no beam or no corrector upstream: no change")
            break
        ctx.check(len(L.reads) > k + 1, "threading goes on while there is beam")
        if len(L.reads) > k + 1:
            step(ctx, L, k, r, h, v, "correctors upstream of the last BPM reached: minus pseudo-inverse times deviation")
            done += 1
    same_settings(ctx, L, L.start, L.set[0], "the first reading is taken before any change")
    if done:
        used(ctx, L, want)
    same_settings(ctx, L, L.now(), L.set[-1], "no change after the last reading")
    same_state(ctx, before, SC, "threading changes corrector settings only", ALLOW)
    if ref is not None:
        ctx.eq(ref, keep, "the reference is left alone")


def success(ctx, hist, ok):
    """the history of transmissions is `hist`: success exactly when full and equal in the last five readings"""
    SC = machine(1)
    L = Loop(ctx, SC, lambda k: hist[k] if k < len(hist) else hist[-1])
    out = L.run("first_turn", maxsteps=len(hist) - 1)
    if ok is None:
        ctx.check(isinstance(out, RuntimeError), "failure is reported when the steps are used up")
        ctx.check(len(L.reads) == len(hist), "all steps are used")
    else:
        ctx.check(out is SC, "the corrected machine is returned")
        ctx.check(len(L.reads) == ok, "success as soon as full transmission is reproduced, not before")


def wiggle(ctx, T, at):
    """stuck at T BPMs for 20 readings: the last corrector(s) upstream are wiggled; from trial `at` on one more BPM is reached (None: never)"""
    SC = machine(1)
    for o in VORD:
        SC.RING[o].SetPointA[0] = ctx.real(f"a{o}")
        SC.RING[o].SetPointB[0] = ctx.real(f"b{o}")
    SC.update_magnets()
    W0 = 19                 # index of the 20th reading
    first = None if at is None else W0 + 2 + at
    L = Loop(ctx, SC, lambda k: T if first is None or k < first else T + 1,
             values=lambda k, d, i: 0.0 if first is None or k < first else ctx.real(f"r{k}.{d}.{i}", -2, 2))
    out = L.run("first_turn", maxsteps=W0 + 3)
    last = L.bpms[T - 1]
    up = upstream(L.hcm, last), upstream(L.vcm, last)
    ctx.check(isinstance(out, RuntimeError), "no success without full transmission")
    for k in range(W0):     # no deviation, no change
        same_settings(ctx, L, L.set[k], L.set[k + 1], "no deviation, no change")
    ctx.check(len(L.reads) > W0 + 2, "the correctors are wiggled when the transmission does not improve")
    stop = len(L.reads) - 1 if first is None else first + 5
    r0, r1 = 500e-6 * (1 - 1e-9), 1000e-6 * (1 + 1e-9)
    base = L.set[W0]        # settings at the start of the round (32 trials with as many correctors)
    for k in range(W0 + 1, stop + 1):
        nc = (k - W0 - 2) // 32 + 1 if k > W0 + 1 else 1
        if first is not None and k > first:     # until the transmission is reproduced
            for d, cms in ((0, L.hcm), (1, L.vcm)):
                for q, c in enumerate(cms):
                    if c > L.bpms[T]:
                        ctx.eq(L.set[k][d][q], base[d][q], "only correctors upstream of the last BPM reached are wiggled")
            continue
        if k <= W0 + 1:     # the reading before the first trial
            same_settings(ctx, L, L.set[k], L.set[W0], "wiggling starts from the present settings")
            continue
        if (k - W0 - 2) % 32 == 0:
            base = L.set[k - 1]
        new, moved = L.set[k], []
        for d, cms in ((0, L.hcm), (1, L.vcm)):
            act = up[d][-nc:]
            m = [new[d][q] - base[d][q] for q, c in enumerate(cms) if c in act]
            for q, c in enumerate(cms):
                if c not in act:
                    ctx.eq(new[d][q], base[d][q], "only the last correctors upstream of the last BPM reached are wiggled")
            for x in m[1:]:
                ctx.eq(x, m[0], "wiggled correctors move alike")
            moved.append(m[0])
        rr = moved[0] * moved[0] + moved[1] * moved[1]
        ctx.check((rr >= r0 * r0) & (rr <= r1 * r1), "the kicks lie between the two radii")
    if first is None:
        same_settings(ctx, L, L.now(), L.set[-1], "no change after the last reading")
        ctx.check(len(L.reads) < W0 + 2 + 400, "wiggling without effect is an error")
        return
    ctx.check(len(L.reads) > stop + 1, "threading goes on once more BPMs are reached reproducibly")
    if len(L.reads) > stop + 1:
        last = L.bpms[T]
        step(ctx, L, stop + 1, [0.0] * 6, upstream(L.hcm, last), upstream(L.vcm, last), "correctors upstream of the last BPM reached: minus pseudo-inverse times deviation")


def two_turn(L, k, nb):
    """deviation entering a two-turn step: first-turn readings and the change to the second turn at the first nb BPMs"""
    n = len(L.bpms)
    out = []
    for d in (0, 1):
        r = L.reads[k][d]
        out += list(r[:n])
        for i in range(n):
            a, b = r[n + i], r[i]
            out.append(0.0 if i >= nb or nan(a) or nan(b) else a - b)
    return out


def nan(x):
    return isinstance(x, (float, np.floating)) and x != x


def first_half(r):
    """the reference of the change between turns is zero"""
    n = len(r) // 4
    return list(r[:n]) + [0.0] * n + list(r[2 * n:3 * n]) + [0.0] * n


def stitching(ctx, reference="none", opts="default", sub=False, nb=2, steps=1, low=None):
    SC = machine(2)
    kw, want = options(ctx, opts)
    bp, hc, vc = (BORD, HORD, VORD)
    if sub:
        bp, hc, vc = (3, 8), (4, 7), (1, 9)
        kw.update(cm_ords=[np.array(hc), np.array(vc)], bpm_ords=np.array(bp))
    n = len(bp)
    L = Loop(ctx, SC, lambda k: n + nb + ctx.choose(f"T{k}", n - nb + 1) if k == 0 else ctx.choose(f"T{k}", 2 * n + 1), bp, hc, vc)
    ref, r = ref_of(ctx, reference, 4 * n)
    before, keep = snap(SC), None if ref is None else ref.copy()
    out = L.run("stitch", n_bpms=nb, maxsteps=steps, **({} if ref is None else dict(reference=ref)), **kw)
    ctx.check(isinstance(out, RuntimeError), "no success before the transmission was reproduced")
    same_settings(ctx, L, L.start, L.set[0], "the first reading is taken before any change")
    for k in range(len(L.reads) - 1):
        step(ctx, L, k, first_half(r), hc, vc, "minus pseudo-inverse times the deviation of first turn and change to the second", two_turn(L, k, nb))
        if L.trans[k + 1] < L.trans[k]:
            ctx.check(len(L.reads) == k + 2, "stitching stops when a step loses transmission")
            break
    else:
        ctx.check(len(L.reads) == steps + 1, "the given number of steps is done")
    used(ctx, L, want)
    same_settings(ctx, L, L.now(), L.set[-1], "no change after the last reading")
    same_state(ctx, before, SC, "stitching changes corrector settings only", ALLOW)
    if ref is not None:
        ctx.eq(ref, keep, "the reference is left alone")


def stitch_reject(ctx, nturns):
    """not two turns, or the first turn is incomplete: nothing is changed"""
    SC = machine(nturns)
    L = Loop(ctx, SC, lambda k: ctx.choose("T", 3))
    before = snap(SC)
    out = L.run("stitch", n_bpms=2, maxsteps=3)
    ctx.check(isinstance(out, ValueError if nturns != 2 else RuntimeError), "stitching needs two turns and a complete first turn")
    same_state(ctx, before, SC, "nothing is changed")


def stitch_success(ctx, hist, ok):
    SC = machine(2)
    L = Loop(ctx, SC, lambda k: hist[k] if k < len(hist) else hist[-1])
    out = L.run("stitch", n_bpms=2, maxsteps=len(hist) - 1)
    ctx.check(out is SC if ok else isinstance(out, RuntimeError), "success exactly when full transmission is reproduced")
    if ok:
        ctx.check(len(L.reads) == ok, "success as soon as full transmission is reproduced, not before")


def stitch_wiggle(ctx, at):
    """fewer second-turn BPMs than needed: the last correctors of the ring are wiggled until there are enough"""
    SC = machine(2)
    first = 2 + at
    L = Loop(ctx, SC, lambda k: 3 if k < first else 5)
    L.run("stitch", n_bpms=2, maxsteps=1)
    r0, r1 = 500e-6 * (1 - 1e-9), 1000e-6 * (1 + 1e-9)
    for k in range(2, first + 1):
        h, v = [[y - x for x, y in zip(L.set[1][d], L.set[k][d])] for d in (0, 1)]
        for x in h[:2] + v[:2] + v[3:]:
            ctx.eq(x, 0.0, "only the last corrector upstream of the last BPM is wiggled")
        rr = h[2] * h[2] + v[2] * v[2]
        ctx.check((rr >= r0 * r0) & (rr <= r1 * r1), "the kicks lie between the two radii")
    n = len(L.reads)
    ctx.check(n >= first + 5, "wiggling ends when the transmission is reproduced")
    step(ctx, L, n - 2, [0.0] * 12, L.hcm, L.vcm, "minus pseudo-inverse times the deviation of first turn and change to the second", two_turn(L, n - 2, 2))


CASES = []
for rf in ("none", "given"):
    CASES.append(Case(f"thread-1step-{rf}", threading, reference=rf))
    CASES.append(Case(f"thread-1step-subset-{rf}", threading, reference=rf, sub=True))
    CASES.append(Case(f"thread-1step-2turns-{rf}", threading, reference=rf, nturns=2))
CASES.append(Case("thread-2steps", threading, reference="given", opts="given", steps=2))
CASES.append(Case("success-at-once", success, hist=(3,) * 8, ok=5))
CASES.append(Case("success-late", success, hist=(1, 3, 3, 3, 2, 3, 3, 3, 3, 3, 3), ok=10))
CASES.append(Case("stuck-no-success", success, hist=(1, 2, 2, 2, 2, 2, 2), ok=None))
CASES.append(Case("too-few", success, hist=(2, 3, 3, 3, 3), ok=None))
for T in (1, 2):
    for at in (0, 1, 31, 32, 40, 100):
        CASES.append(Case(f"wiggle-T{T}-at{at}", wiggle, T=T, at=at, quick=at < 100))
    CASES.append(Case(f"wiggle-T{T}-fail", wiggle, T=T, at=None, quick=T == 2, weight=3))
for rf in ("none", "given"):
    CASES.append(Case(f"stitch-1step-{rf}", stitching, reference=rf))
    CASES.append(Case(f"stitch-subset-{rf}", stitching, reference=rf, sub=True, nb=1))
CASES.append(Case("stitch-all-bpms", stitching, reference="given", nb=3))
CASES.append(Case("stitch-2steps", stitching, reference="given", opts="given", steps=2))
CASES.append(Case("stitch-3steps", stitching, reference="given", opts="given", steps=3, quick=False))
CASES += [Case(f"stitch-reject-{n}turns", stitch_reject, nturns=n) for n in (1, 2, 3)]
for h, ok in (((6,) * 7, 5), ((5, 5, 6, 6, 6, 6, 6, 6), 7), ((5, 5, 6, 6, 6), None), ((5,) * 7, None)):
    CASES.append(Case("stitch-success-" + "".join(map(str, h)), stitch_success, hist=h, ok=ok))
CASES += [Case(f"stitch-wiggle-{a}", stitch_wiggle, at=a) for a in (0, 5, 30)]
