"""Poor BPM alignment results: recognised, not applied, and replaced by offsets of the size of the good ones."""
from props.common import *

BOUNDS = dict(machine="3 BPMs next to 3 magnets, 1 or 2 planes, any subset measured", errors="all error patterns of up to 4 measurements, arbitrary for the criterion")
ASSUMPTIONS = ["random numbers are arbitrary values; those beyond the cut-off are redrawn, the second draw being inside"]
BP, MG = (2, 4, 6), (1, 3, 5)


def machine(ctx, planes=(0, 1)):
    SC = new_SC(lattice([drift(), quad("Q1"), monitor("B1"), sext("S1"), monitor("B2"), quad("Q2", k=-1.0), monitor("B3")]))
    SC.register_bpms(np.array(BP))
    SC.register_magnets(np.array(MG))
    for o in BP:
        SC.RING[o].Offset = ctx.reals(f"b{o}", 2, -2e-3, 2e-3)
        SC.RING[o].SupportOffset = arr(list(ctx.reals(f"sb{o}", 2, -1e-3, 1e-3)) + [0.0])
    for o in MG:
        SC.RING[o].MagnetOffset = arr(list(ctx.reals(f"m{o}", 2, -1e-3, 1e-3)) + [0.0])
        SC.RING[o].SupportOffset = arr(list(ctx.reals(f"s{o}", 2, -1e-3, 1e-3)) + [0.0])
    return SC


def bba():
    return W.mod("pySC.correction.bba")


def ords(planes, n, rev=False):
    b, m = list(BP[:n]), list(MG[:n])
    if rev:
        b, m = b[::-1], m[::-1]
    rows = [(b, m) if d == 0 else (b[::-1], m[::-1]) for d in range(planes)]
    return np.array([r[0] for r in rows]), np.array([r[1] for r in rows])


def relative(SC, d, o, m):
    """position of the BPM's zero with respect to the magnetic centre"""
    return SC.RING[o].Offset[d] + SC.RING[o].SupportOffset[d] - SC.RING[m].MagnetOffset[d] - SC.RING[m].SupportOffset[d]


def criterion(ctx, shape, nan=()):
    """an alignment is poor when it failed, is beyond 1.5 mm or not 2.5 times its uncertainty"""
    n = int(np.prod(shape))
    off = [NAN if i in nan else ctx.real(f"o{i}", -4e-3, 4e-3) for i in range(n)]
    err = [NAN if i in nan else ctx.real(f"e{i}", 0, 4e-3) for i in range(n)]
    out = bba().is_bba_errored(arr(off).reshape(shape), arr(err).reshape(shape))
    ctx.check(np.shape(out) == tuple(shape), "one flag per measurement")
    for i, f in enumerate(np.asarray(out).reshape(-1)):
        if i in nan:
            ctx.check(bool(f), "a failed measurement is poor")
            continue
        a = sabs(off[i])
        if bool(f):
            ctx.check(ctx_or(a > 1.5e-3, a < 2.5 * err[i]), "only poor measurements are flagged")
        else:
            ctx.check(a <= 1.5e-3, "offsets beyond 1.5 mm are poor")
            ctx.check(a >= 2.5 * err[i], "offsets not 2.5 times their uncertainty are poor")


def ctx_or(a, b):
    return bool(a) or bool(b)


def application(ctx, planes, n, nan=()):
    SC = machine(ctx)
    bo, _ = ords(planes, n)
    off = np.full(bo.shape, NAN, dtype=object if W.MODE == "sym" else float)
    err = off.copy()
    for d in range(planes):
        for j in range(n):
            if (d, j) not in nan:
                off[d, j], err[d, j] = ctx.real(f"o{d}.{j}", -3e-3, 3e-3), ctx.real(f"e{d}.{j}", 0, 2e-3)
    before = snap(SC)
    ret = bba().apply_bpm_offsets(SC, bo, arr(off), arr(err))
    ctx.check(ret is SC, "the machine is returned")
    for d in range(planes):
        for j in range(n):
            old, new = before["RING"][bo[d, j]]["Offset"][d], SC.RING[bo[d, j]].Offset[d]
            if (d, j) not in nan and bool(sabs(off[d, j]) <= 1.5e-3) and bool(sabs(off[d, j]) >= 2.5 * err[d, j]):
                ctx.eq(new, old + off[d, j], "good offsets are added to the BPM offset of that plane")
            else:
                ctx.eq(new, old, "poor offsets are not applied")
    untouched(ctx, SC, before, {(o, d) for d in range(planes) for o in bo[d]})


def untouched(ctx, SC, before, changed):
    for o in BP:
        for d in (0, 1):
            if (o, d) not in changed:
                ctx.eq(SC.RING[o].Offset[d], before["RING"][o]["Offset"][d], "other BPM offsets stay")
    same_state(ctx, before, SC, "nothing but BPM offsets is changed", [(o, "Offset") for o in BP])


def fake(ctx, planes, n, bad=None, given=False, over=0):
    """bad: list of (plane, index) flagged; None: no flags handed over"""
    SC = machine(ctx)
    bo, mo = ords(planes, n)
    before = snap(SC)
    kw = {}
    flags = np.ones(bo.shape, dtype=bool)
    if bad is not None:
        flags = np.zeros(bo.shape, dtype=bool)
        for b in bad:
            flags[b] = True
        kw["errors"] = flags.copy()
    if given:
        kw["fake_offset"] = ctx.reals("f", planes, 0, 1e-3)
    rel = [[relative(SC, d, bo[d, j], mo[d, j]) for j in range(n)] for d in range(planes)]
    draws = CutDraws(ctx, n_free=over, inside=2.0)
    with W.random(ctx, draws):
        ret = bba().fake_bba(SC, bo, mo, **kw)
    ctx.check(ret is SC, "the machine is returned")
    pairs, changed = [], set()
    for d in range(planes):
        good = [rel[d][j] for j in range(n) if not flags[d, j]]
        for j in range(n):
            o, m = bo[d, j], mo[d, j]
            if not flags[d, j]:
                continue
            if not given and not good:
                ctx.eq(SC.RING[o].Offset[d], before["RING"][o]["Offset"][d], "without a good measurement in the plane nothing is reassigned")
                continue
            if given:
                size = kw["fake_offset"][d]
            else:
                s = 0.0
                for g in good:
                    s = s + g * g
                size = vsqrt(s / len(good))
            new = relative(SC, d, o, m)
            ctx.check(sabs(new) <= 2.0 * size + 1e-9, "at most two of them from the magnetic centre")
            pairs.append((new, size))
            changed.add((o, d))
    drawn(ctx, pairs, draws.flat, "a random number of its own times the given size or the rms of the good ones")
    if bad is not None:
        ctx.check(bool(np.all(kw["errors"] == flags)), "the flags are left alone")
    untouched(ctx, SC, before, changed)


def reject(ctx):
    SC = machine(ctx)
    before = snap(SC)
    bo, mo = ords(2, 2)
    try:
        bba().fake_bba(SC, bo, mo)
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok, "either flags or a size is needed")
    same_state(ctx, before, SC, "nothing is changed")


CASES = [Case("criterion", criterion, shape=(1, 2)), Case("criterion-2x2", criterion, shape=(2, 2), nan=(1,)), Case("criterion-1d", criterion, shape=(3,), nan=(0,)),
         Case("apply-1", application, planes=1, n=2), Case("apply-2", application, planes=2, n=1), Case("apply-nan", application, planes=2, n=2, nan=((0, 1), (1, 0))),
         Case("apply-all-nan", application, planes=1, n=3, nan=((0, 0), (0, 1), (0, 2))), Case("reject", reject)]
for p, n in ((1, 2), (2, 2), (2, 3)):
    cells = [(d, j) for d in range(p) for j in range(n)]
    for bits in range(2 ** len(cells)):
        bad = [c for i, c in enumerate(cells) if bits >> i & 1]
        q = len(cells) <= 4 or bits in (1, 6, 8, 33, 21, 42, 63)
        CASES.append(Case(f"fake-{p}x{n}-{bits}", fake, planes=p, n=n, bad=bad, quick=q))
CASES += [Case("size-given", fake, planes=2, n=2, given=True), Case("size-and-flags", fake, planes=2, n=2, given=True, bad=[(0, 1), (1, 1)]),
          Case("size-one-plane", fake, planes=1, n=3, given=True, bad=[(0, 1)]), Case("redraw", fake, planes=1, n=2, given=True, over=1, bad=[(0, 0), (0, 1)]),
          Case("redraw-2", fake, planes=2, n=2, over=2, bad=[(0, 0), (1, 0)])]
