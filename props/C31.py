"""Chromaticity fit: the sextupole families move together from where they are, and end at the best point found."""
from props.common import *

BOUNDS = dict(machine="two or three families of 1 to 3 sextupoles, combined magnets among them, arbitrary set points and calibration errors", fit="arbitrary quadratic dependence of the chromaticity on the fields, up to 2 trial points, arbitrary result of the minimiser")
ASSUMPTIONS = ["the minimiser may evaluate any points and return any point (its quality is scipy's)", "the chromaticity depends only on the sextupole fields"]
ALL = (1, 3, 5, 6, 8)


def machine(ctx):
    SC = new_SC(lattice([drift(), sext("SF"), drift(), sext("SD", h=-2.0), quad("Q"), sext("SF", h=2.5), sext("SX"), corrector("C"), sext("SD", h=-2.0)]))
    SC.register_magnets(np.array([1, 3, 5, 6, 8]))
    SC.register_magnets(np.array([4]))
    for o in ALL:
        SC.RING[o].CalErrorB = arr([0.0, 0.0, ctx.real(f"cal{o}", -0.1, 0.1)])
        SC.RING[o].SetPointB = arr([0.0, 0.0, ctx.real(f"set{o}", -3, 3)])
    SC.update_magnets()
    return SC


def fit(ctx, fams, target, kind="list", trials=1, steps=None, returned=None):
    """target: None - the ideal one; kind: how the ordinates are given; returned: the minimiser returns the k-th trial point, else any point"""
    SC = machine(ctx)
    before = snap(SC)
    n = len(fams)
    moved = [(o, a) for f in fams for o in f for a in ("SetPointB", "PolynomB", "PolynomA")]

    def chrom(ring, *a, **k):
        if any(a is b for a, b in zip(ring, SC.IDEALRING)):
            return arr([1.25, -0.5, 0.0])
        same_ring(ctx, before["RING"], ring, "nothing but the families is moved", moved)
        b = [ring[o].PolynomB[2] for o in ALL]
        return arr([sum((0.25 + 0.125 * i) * x for i, x in enumerate(b)), sum((0.5 - 0.25 * i) * x for i, x in enumerate(b)), 7.0])
    goal = [1.25, -0.5] if target is None else [ctx.real(f"goal{i}", -2, 2) for i in range(2)]
    points = [[ctx.real(f"x{t}{i}", -4, 4) for i in range(n)] for t in range(trials)]
    best = points[returned] if returned is not None else [ctx.real(f"best{i}", -4, 4) for i in range(n)]
    calls = []

    def state(x, label):
        for f, d in zip(fams, x):
            for o in f:
                new = before["RING"][o]["SetPointB"][2] + d
                ctx.eq(SC.RING[o].SetPointB[2], new, label)
                ctx.eq(SC.RING[o].PolynomB[2], new * (1 + before["RING"][o]["CalErrorB"][2]), label)

    def minimiser(fun, x0, args=(), *a, **k):
        ctx.eq(arr(x0), arr([2.0] * n if steps is None else steps), "the first step is the requested one")
        ctx.check(k.get("xtol") == (1e-4 if steps is None else 0.5) and k.get("ftol") == (1e-3 if steps is None else 0.25), "the tolerances are the requested ones")
        f, q = [], []
        for x in points:
            f.append(fun(arr(x), *args))
            state(x, "a trial moves each family by its change from the set points before the fit")
            c = chrom(SC.RING)
            q.append((c[0] - goal[0]) * (c[0] - goal[0]) + (c[1] - goal[1]) * (c[1] - goal[1]))
        if trials == 2:
            ctx.assume(abs(q[0] - q[1]) > 0.0009765625)
            ctx.check((f[0] < f[1]) == (q[0] < q[1]), "the chromaticity closest to the target is the best")
        calls.append(1)
        return arr(best)
    import at
    real = at.Lattice.get_chrom
    conv = dict(list=lambda f: list(f), array=lambda f: np.array(f), table=lambda f: np.array(f))[kind]
    ords = np.array(fams) if kind == "table" else [conv(f) for f in fams]
    kw = {} if target is None else dict(target_chroma=arr(goal))
    if steps is not None:
        kw.update(init_step_size=np.array(steps), xtol=0.5, ftol=0.25)
    at.Lattice.get_chrom = chrom
    try:
        with W.stub(fmin=minimiser):
            out = W.mod("pySC.correction.chroma").fit_chroma(SC, ords, **kw)
    finally:
        at.Lattice.get_chrom = real
    ctx.check(out is SC and len(calls) == 1, "one fit on the given machine")
    state(best, "the families end at the result of the fit")
    same_state(ctx, before, SC, "nothing but the families changes", moved)


def nan_target(ctx, target):
    SC = machine(ctx)
    before = snap(SC)
    import at
    real = at.Lattice.get_chrom
    at.Lattice.get_chrom = lambda ring, *a, **k: arr([1.0, 1.0, 0.0])
    try:
        out = W.mod("pySC.correction.chroma").fit_chroma(SC, [[1, 5], [3]], target_chroma=arr(target))
    finally:
        at.Lattice.get_chrom = real
    ctx.check(out is SC, "the machine is returned")
    same_state(ctx, before, SC, "without a target nothing changes")


TWO, THREE, ONE = ((1, 5), (3, 8)), ((1, 5, 6), (3,), (8,)), ((6,), (3,))
CASES = [Case(f"fit-{i}-{t}-{k}", fit, fams=f, target=t, kind=k, steps=[1.0] * len(f) if len(f) == 3 else None) for i, f in enumerate((TWO, THREE, ONE)) for t in (None, 1) for k in ("list", "array")]
CASES += [Case("fit-table", fit, fams=TWO, target=1, kind="table"), Case("fit-steps", fit, fams=TWO, target=1, steps=[0.5, -1.0])]
CASES += [Case(f"merit-{i}-{t}", fit, fams=f, target=t, trials=2) for i, f in enumerate((TWO, ONE)) for t in (None, 1)]
CASES += [Case(f"last-{r}", fit, fams=TWO, target=1, trials=2, returned=r) for r in (0, 1)]
CASES += [Case(f"nan-{i}", nan_target, target=t) for i, t in enumerate(([NAN, 1.0], [1.0, NAN], [NAN, NAN]))]
for c in CASES:
    c.limit_s = 40
