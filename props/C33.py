"""Tune: taken from the optics with or without its integer part; the fit moves the quadrupole families together and ends at the solution."""
from props.common import *

BOUNDS = dict(machine="two families of 1 to 3 quadrupoles, combined ones among them, arbitrary set points and calibration errors",
              fit="tunes linear in the fields, or arbitrary at each trial point, up to 2 trial points, arbitrary result of the minimiser")
ASSUMPTIONS = ["the minimiser may evaluate any points and return any point (its quality is scipy's)", "the tunes depend only on the quadrupole fields"]
ALL = (1, 3, 5, 6, 8)
INT = (2.0, 3.0)


def machine(ctx, bending=False):
    x = dipole("QX", 1.0, 0.125, 0.5) if bending else quad("QX")
    SC = new_SC(lattice([drift(), quad("QF"), drift(), quad("QD", k=-2.0), sext("S"), quad("QF", k=1.5, n=3), x, corrector("C"), quad("QD", k=-1.0)]))
    SC.register_magnets(np.array([1, 3, 5, 6, 8]))
    if bending:
        SC.register_magnets(np.array([6]), CF=1, HCM=1e6)
    SC.register_magnets(np.array([4]))
    for o in ALL:
        n = len(SC.RING[o].PolynomB)
        SC.RING[o].CalErrorB = arr([0.0, ctx.real(f"cal{o}", -0.1, 0.1)] + [0.0] * (n - 2))
        SC.RING[o].SetPointB = arr([0.0, ctx.real(f"set{o}", -3, 3)] + [0.0] * (n - 2))
    SC.update_magnets()
    return SC


class Rec:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __getitem__(self, key):
        return getattr(self, key)


class Recs(list):
    """optics at several places, by place or by quantity"""

    def __getattr__(self, key):
        if key.startswith("_"):
            raise AttributeError(key)
        return arr([list(getattr(r, key)) for r in self])

    def __getitem__(self, key):
        return getattr(self, key) if isinstance(key, str) else list.__getitem__(self, key)


class Optics:
    """stands for the optics calculation: tunes are a fixed linear function of the fields found in the ring handed over"""

    def __init__(self, ctx, SC, before, dims=2):
        self.ctx, self.SC, self.before, self.dims = ctx, SC, before, dims
        self.moved = ()
        self.now = None  # tunes at the present trial point, where they are arbitrary

    def frac(self, ring):
        if ring[0].FamName == "IDEAL":
            return [0.25, 0.375]
        same_ring(self.ctx, self.before["RING"], ring, "nothing but the families is moved", self.moved)
        if self.now is not None:
            return self.now
        b = [ring[o].PolynomB[1] for o in ALL]
        return [sum((0.25 + 0.125 * i) * x for i, x in enumerate(b)), sum((0.5 - 0.25 * i) * x for i, x in enumerate(b))]

    def get_optics(self, ring, refpts=None, *a, **k):
        q = self.frac(ring)
        more = [0.015625] * (self.dims - 2)
        n = 0
        if refpts is not None:
            r = np.atleast_1d(np.asarray(list(refpts) if isinstance(refpts, range) else refpts))
            n = int(np.count_nonzero(r)) if r.dtype == bool else len(r)
            last = bool(r[-1]) if r.dtype == bool else int(r[-1]) == len(ring)
        recs = []
        for i in range(n):
            end = last and i == n - 1
            f = 1.0 if end else 0.5 * i / n
            recs.append(Rec(mu=arr([(x + g) * f * 2 * np.pi for x, g in zip(q, INT)] + more), beta=arr([1.0, 1.0])))
        return Rec(mu=arr([0.0] * self.dims)), Rec(tune=arr(q + more)), Recs(recs)

    def get_tune(self, ring, *a, get_integer=False, **k):
        q = self.frac(ring)
        return arr([x + (g if get_integer else 0.0) for x, g in zip(q, INT)] + [0.015625] * (self.dims - 2))

    def __enter__(self):
        import at
        self.real = at.Lattice.get_tune
        o = self
        at.Lattice.get_tune = lambda ring, *a, **k: o.get_tune(ring, *a, **k)
        self.st = W.stub(get_optics=self.get_optics)
        self.st.__enter__()
        return self

    def __exit__(self, *a):
        import at
        at.Lattice.get_tune = self.real
        return self.st.__exit__(*a)


def mod():
    return W.mod("pySC.correction.tune")


def value(ctx, integer, ideal, dims=2):
    SC = machine(ctx)
    SC.IDEALRING[0].FamName = "IDEAL"
    before = snap(SC)
    opt = Optics(ctx, SC, before, dims)
    want = [0.25, 0.375] if ideal else opt.frac(SC.RING)
    with opt:
        got = mod().tune(SC, fit_integer=integer, ideal=ideal)
    ctx.eq(got, arr([w + (g if integer else 0.0) for w, g in zip(want, INT)]), "the transverse tunes, with the integer part on request", tol=1e-6)
    same_state(ctx, before, SC, "a tune changes nothing")


def fit(ctx, fams, target, integer=None, kind="list", trials=1, steps=False, returned=None, dims=2, bending=False, free=False):
    SC = machine(ctx, bending)
    twin = copy.deepcopy(SC)
    SC.IDEALRING[0].FamName = "IDEAL"
    before = snap(SC)
    opt = Optics(ctx, SC, before, dims)
    opt.moved = moved = [(o, a) for f in fams for o in f for a in ("SetPointB", "PolynomB", "PolynomA")]
    whole = integer is None or integer
    goal = [x + (g if whole else 0.0) for x, g in zip((0.25, 0.375), INT)] if target is None else [ctx.real(f"goal{i}", -2, 2) for i in range(2)]
    points = [[ctx.real(f"x{t}{i}", -4, 4) for i in range(2)] for t in range(trials)]
    best = points[returned] if returned is not None else [ctx.real(f"best{i}", -4, 4) for i in range(2)]
    calls = []

    def state(x, label):
        for f, d in zip(fams, x):
            for o in f:
                new = before["RING"][o]["SetPointB"][1] + d
                ctx.eq(SC.RING[o].SetPointB[1], new, label)
                ctx.eq(SC.RING[o].PolynomB[1], new * (1 + before["RING"][o]["CalErrorB"][1]), label)

    def minimiser(fun, x0, args=(), *a, **k):
        ctx.check(np.shape(x0) == (2,), "one change per family")
        ctx.eq(x0, arr(start), "the fit starts with the requested step")
        ctx.check(k.get("xtol") == (0.5 if steps else 1e-4) and k.get("ftol") == (0.25 if steps else 1e-3), "the tolerances are the requested ones")
        f, q = [], []
        for t, x in enumerate(points):
            if free:
                opt.now = [ctx.real(f"nu{t}{i}", 0, 1) for i in range(2)]
            f.append(fun(arr(x), *args))
            state(x, "a trial moves each family by its change from the set points before the fit")
            c = [v + (g if whole else 0.0) for v, g in zip(opt.frac(SC.RING), INT)]
            q.append((c[0] - goal[0]) * (c[0] - goal[0]) + (c[1] - goal[1]) * (c[1] - goal[1]))
        if trials == 2:
            ctx.assume(abs(q[0] - q[1]) > 0.0009765625)
            opt.now = None
            ctx.check((f[0] < f[1]) == (q[0] < q[1]), "the tune closest to the target is the best")
        calls.append(1)
        return arr(best)
    kw = {} if target is None else dict(target_tune=arr(goal))
    start = ctx.reals("start", 2, -1, 1) if steps else [0.01, 0.01]
    if integer is not None:
        kw["fit_integer"] = integer
    if steps:
        kw.update(xtol=0.5, ftol=0.25, init_step_size=arr(start))
    keep = [list(f) for f in fams]
    ords = np.array(fams) if kind == "table" else [np.array(f) if kind == "array" else list(f) for f in fams]
    with opt, W.stub(fmin=minimiser):
        out = mod().fit_tune(SC, ords, **kw)
    ctx.check(out is SC and len(calls) == 1, "one fit on the given machine")
    ctx.check([list(o) for o in ords] == keep, "arguments are left unmodified")
    state(best, "the families end at the result of the fit")
    same_state(ctx, before, SC, "nothing but the families changes", moved)
    for f, d in zip(fams, best):
        for o in f:
            twin.set_magnet_setpoints(np.array([o]), before["RING"][o]["SetPointB"][1] + d, False, 1, dipole_compensation=True)
    same_ring(ctx, snap_ring(twin.RING), SC.RING, "set as magnet set points are, bending kept in combined magnets")


TWO, UNEVEN, ONE = ((1, 5), (3, 8)), ((1, 5, 6), (3,)), ((6,), (3,))
CASES = [Case(f"tune-{i}-{d}-{n}", value, integer=i, ideal=d, dims=n) for i in (True, False) for d in (True, False) for n in (2, 3)]
CASES += [Case(f"fit-{i}-{t}-{w}-{k}", fit, fams=f, target=t, integer=w, kind=k) for i, f in enumerate((TWO, UNEVEN, ONE)) for t in (None, 1) for w, k in ((None, "list"), (True, "array"), (False, "list"))]
CASES += [Case("fit-table", fit, fams=TWO, target=1, kind="table"), Case("fit-steps", fit, fams=TWO, target=1, steps=True), Case("fit-6d", fit, fams=TWO, target=None, dims=3)]
CASES += [Case(f"merit-{i}-{t}-{w}", fit, fams=f, target=t, integer=w, trials=2, free=True) for i, f in enumerate((TWO, ONE)) for t in (None, 1) for w in (True, False)]
CASES += [Case(f"last-{r}", fit, fams=TWO, target=1, trials=2, returned=r, free=True) for r in (0, 1)]
CASES += [Case(f"bending-{i}-{t}", fit, fams=f, target=1, trials=t, bending=True, free=t == 2) for i, f in enumerate((UNEVEN, ONE)) for t in (1, 2)]
for c in CASES:
    c.limit_s = 40
