"""Helpers shared by the harnesses (both the symbolic run and the concrete replay)."""
import copy
import math

import numpy as np

from sx import engine as E
from sx import world as W
from sx.runner import Case

NAN = float("nan")


def SCmod():
    return W.mod("pySC.core.simulated_commissioning")


def new_SC(ring):
    return SCmod().SimulatedCommissioning(ring)


def lattice(elems, energy=1e9):
    import at
    return at.Lattice(elems, energy=energy, periodicity=1)


def drift(name="D", L=1.0):
    import at
    return at.Drift(name, L)


def quad(name="Q", L=0.5, k=1.25, n=2):
    import at
    b = [0.0, k] + [0.0] * (n - 2)
    return at.Quadrupole(name, L, k, PolynomB=b, PolynomA=[0.0] * n)


def sext(name="S", L=0.25, h=3.0):
    import at
    return at.Sextupole(name, L, h)


def dipole(name="B", L=1.0, angle=0.125, k=0.0):
    import at
    return at.Dipole(name, L, angle, k)


def monitor(name="BPM"):
    import at
    return at.Monitor(name)


def marker(name="M"):
    import at
    return at.Marker(name)


def corrector(name="C", L=0.0):
    import at
    c = at.Corrector(name, L, [0.0, 0.0])
    c.PolynomA, c.PolynomB = np.zeros(1), np.zeros(1)
    if W.MODE == "sym":
        from sx import snp
        c.PolynomA, c.PolynomB = snp.mkarr(np.zeros(1)), snp.mkarr(np.zeros(1))
    return c


def cavity(name="CAV", V=1e6, f=5e8, lag=0.0):
    import at
    return at.RFCavity(name, 0.0, V, f, 1, 1e9, TimeLag=lag, PassMethod="RFCavityPass")


def arr(x):
    """float array in the current mode"""
    if W.MODE == "sym":
        from sx import snp
        return snp.mkarr(x)
    return np.array(x, dtype=float)


def zeros(*shape):
    return arr(np.zeros(shape))


def oarr(ctx, x):
    """object/float array of nested python lists of scalars"""
    return arr(x)


# ------------------------------------------------------------------------------------- state snapshots

def _copyval(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: _copyval(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(_copyval(x) for x in v)
    return v


def snap_element(el):
    return {k: _copyval(v) for k, v in vars(el).items()}


def snap_ring(ring):
    return [snap_element(el) for el in ring]


def snap(SC):
    return dict(RING=snap_ring(SC.RING), IDEAL=snap_ring(SC.IDEALRING),
                INJ={k: _copyval(v) for k, v in vars(SC.INJ).items()},
                SIG=_copyval(dict(SC.SIG)), ORD=_copyval(dict(SC.ORD)))


def eq_val(ctx, a, b, label):
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            ctx.check(False, label, f"{a!r} vs {b!r}")
            return
        for k in a:
            eq_val(ctx, a[k], b[k], label)
        return
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and any(isinstance(x, (dict, np.ndarray)) for x in a):
        if len(a) != len(b):
            ctx.check(False, label, "length")
            return
        for x, y in zip(a, b):
            eq_val(ctx, x, y, label)
        return
    if a is b:
        return
    num = (np.ndarray, E.S, float, int, np.integer, np.floating, list, tuple)
    if isinstance(a, num) and isinstance(b, num):
        if not (isinstance(a, np.ndarray) and a.dtype.kind in "SUO" and W.MODE == "conc"):
            ctx.eq(a, b, label)
            return
    try:
        ctx.check(bool(a == b), label, f"{a!r} vs {b!r}")
    except ValueError:
        ctx.check(False, label, f"{a!r} vs {b!r}")


def same_ring(ctx, before, ring, label, allow=()):
    """every attribute of every element equals the snapshot, except the allowed (index, attribute) pairs / (index, None)"""
    after = snap_ring(ring)
    if len(after) != len(before):
        ctx.check(False, label, "number of elements changed")
        return
    allow = set(allow)
    for i, (b, a) in enumerate(zip(before, after)):
        if (i, None) in allow:
            continue
        for k in set(a) | set(b):
            if (i, k) in allow:
                continue
            if k not in a or k not in b:
                ctx.check(False, label, f"attribute {k} of element {i} appeared/disappeared")
                continue
            eq_val(ctx, b[k], a[k], label)
    ctx.reach(label)


def same_state(ctx, before, SC, label, allow=(), parts=("RING", "IDEAL", "INJ", "SIG", "ORD")):
    if "RING" in parts:
        same_ring(ctx, before["RING"], SC.RING, label, allow)
    if "IDEAL" in parts:
        same_ring(ctx, before["IDEAL"], SC.IDEALRING, label)
    now = snap(SC)
    for p in ("INJ", "SIG", "ORD"):
        if p in parts:
            for k in set(before[p]) | set(now[p]):
                if k == "postFun":
                    continue
                if k not in before[p] or k not in now[p]:
                    ctx.check(False, label, f"{p}.{k}")
                else:
                    eq_val(ctx, before[p][k], now[p][k], label)
    ctx.reach(label)


def symmag(ctx, el, tag, lo=-2, hi=2, nA=None, nB=None):
    """arbitrary setpoints and calibration errors of a registered magnet"""
    nA = nA or len(el.SetPointA)
    nB = nB or len(el.SetPointB)
    el.SetPointA = ctx.reals(f"{tag}.spA", nA, lo, hi)
    el.SetPointB = ctx.reals(f"{tag}.spB", nB, lo, hi)
    el.CalErrorA = ctx.reals(f"{tag}.calA", nA, -0.5, 0.5)
    el.CalErrorB = ctx.reals(f"{tag}.calB", nB, -0.5, 0.5)


def vmax(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = E.s_max(r, x) if W.MODE == "sym" else max(r, x)
    return r


def vmin(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = E.s_min(r, x) if W.MODE == "sym" else min(r, x)
    return r


def sabs(x):
    return abs(x)


def clipsym(x, lim):
    """x clipped to [-lim, lim]"""
    return vmax(vmin(x, lim), -lim)


def vcos(x):
    return E.s_cos(x) if W.MODE == "sym" else math.cos(x)


def vsin(x):
    return E.s_sin(x) if W.MODE == "sym" else math.sin(x)


def vsqrt(x):
    return E.s_sqrt(x) if W.MODE == "sym" else math.sqrt(x)


class Draws:
    """np.random stub: hands out fresh variables  name[k]  in the order they are drawn; remembers every call"""

    def __init__(self, ctx, name="z", lo=-6, hi=6, inside=None):
        self.ctx, self.name, self.n, self.calls, self.lo, self.hi = ctx, name, 0, [], lo, hi
        self.inside = inside

    def __call__(self, kind, shape):
        size = int(np.prod(shape)) if shape != () else 1
        lo, hi = (self.lo, self.hi) if self.inside is None else (-self.inside, self.inside)
        vals = [self.ctx.real(f"{self.name}{self.n + i}", lo, hi) for i in range(size)]
        self.n += size
        self.calls.append((shape, vals))
        if shape == ():
            return vals[0]
        return arr(vals).reshape(shape)

    @property
    def flat(self):
        return [v for _, vs in self.calls for v in vs]


class Tracker:
    """stub for at.lattice_track / at.find_orbit6: an arbitrary beam, one fresh set of positions per call.

    pos[(call, particle, element, turn)] = (x, y) ; lost particles are NaN in every coordinate, as the tracking code reports them"""

    def __init__(self, ctx, n_particles=1, n_turns=1, lost=(), name="t", lo=-2, hi=2, fixed=False):
        self.ctx, self.np, self.nt, self.lost, self.name, self.lo, self.hi = ctx, n_particles, n_turns, set(lost), name, lo, hi
        self.calls, self.pos, self.fixed = 0, {}, fixed
        self.seen = []

    def at(self, call, p, ref, t):
        """lost: set of (call, particle, element, turn) that may be lost -- the choice is a fork"""
        if self.fixed:
            call = 0
        k = (call, p, int(ref), t)
        if k not in self.pos:
            tag = f"{self.name}{call}.{p}.{int(ref)}.{t}"
            gone = (k in self.lost or "all" in self.lost) and self.ctx.flag(f"lost{tag}")
            self.pos[k] = (NAN, NAN) if gone else (self.ctx.real(f"x{tag}", self.lo, self.hi), self.ctx.real(f"y{tag}", self.lo, self.hi))
        return self.pos[k]

    @staticmethod
    def _refs(lattice, refpts):
        if refpts is None:
            return [len(lattice)]
        r = np.atleast_1d(np.asarray(refpts))
        return list(np.nonzero(r)[0]) if r.dtype == bool else [int(i) for i in r]

    def track(self, lattice=None, r_in=None, nturns=1, refpts=None, **kw):
        refs = self._refs(lattice, refpts)
        npart = int(np.prod(np.shape(r_in)[1:])) if r_in is not None else self.np
        self.seen.append(dict(lattice=lattice, r_in=r_in, nturns=nturns, refs=refs, npart=npart))
        out = np.full((6, npart, len(refs), int(nturns)), 0.0, dtype=object if W.MODE == "sym" else float)
        for p in range(npart):
            for j, r in enumerate(refs):
                for t in range(int(nturns)):
                    x, y = self.at(self.calls, p, r, t)
                    out[0, p, j, t], out[2, p, j, t] = x, y
                    if x != x if isinstance(x, float) else False:
                        out[:, p, j, t] = NAN
        self.calls += 1
        return (arr(out) if W.MODE == "sym" else out), {}, {}

    def orbit6(self, ring=None, refpts=None, **kw):
        refs = self._refs(ring, refpts)
        self.seen.append(dict(lattice=ring, refs=refs))
        out = np.full((len(refs), 6), 0.0, dtype=object if W.MODE == "sym" else float)
        for j, r in enumerate(refs):
            x, y = self.at(self.calls, 0, r, 0)
            out[j, 0], out[j, 2] = x, y
            if x != x if isinstance(x, float) else False:
                out[j, :] = NAN
        self.calls += 1
        o = arr(out) if W.MODE == "sym" else out
        return o[0] * 1.0, o

    def stub(self):
        return W.stub(lattice_track=self.track, find_orbit6=self.orbit6)


def _numeric(t, seen):
    """value of a term at an arbitrary fixed point (None: not evaluated); terms that differ there are not identical"""
    import z3
    import hashlib
    k = t.get_id()
    if k in seen:
        return seen[k][1]
    r = None
    if z3.is_rational_value(t) or z3.is_int_value(t):
        r = float(t.as_fraction()) if z3.is_rational_value(t) else float(t.as_long())
    elif z3.is_arith(t):
        kind, args = t.decl().kind(), [_numeric(c, seen) for c in t.children()]
        if kind == z3.Z3_OP_UNINTERPRETED and not args:
            r = int(hashlib.md5(t.decl().name().encode()).hexdigest()[:8], 16) / 2 ** 32 + 0.25
        elif None in args:
            r = None
        elif kind == z3.Z3_OP_ADD:
            r = sum(args)
        elif kind == z3.Z3_OP_SUB:
            r = args[0] - sum(args[1:])
        elif kind == z3.Z3_OP_UMINUS:
            r = -args[0]
        elif kind == z3.Z3_OP_MUL:
            r = 1.0
            for a in args:
                r *= a
        elif kind == z3.Z3_OP_DIV and args[1] != 0:
            r = args[0] / args[1]
    seen[k] = (t, r)
    return r


_SEEN = {}


def same_term(a, b):
    """value equality for matching purposes: symbolically identical / numerically equal"""
    if W.MODE == "sym":
        import z3
        from sx import poly
        ta, tb = E.term(a), E.term(b)
        if len(_SEEN) > 200000:
            _SEEN.clear()
        na, nb = _numeric(ta, _SEEN), _numeric(tb, _SEEN)
        if na is not None and nb is not None and abs(na - nb) > 1e-7 * (1 + abs(na) + abs(nb)):
            return False
        d = z3.simplify(ta - tb, som=True)
        if z3.is_rational_value(d):
            return d.numerator_as_long() == 0
        return poly.has_quotient(d) and poly.is_zero(d, E.CUR.squares)
    return abs(a - b) <= 1e-9 * (1 + abs(b))


def drawn(ctx, pairs, draws, label):
    """every (value, sigma) pair is sigma times a random number of its own among `draws`"""
    cand = [[j for j, z in enumerate(draws) if same_term(v, s * z)] for v, s in pairs]
    if W.MODE == "sym":   # values equal only under the path condition
        import z3
        for c, (v, s) in zip(cand, pairs):
            if not c:
                c += [j for j, z in enumerate(draws) if ctx.sat(E.term(v) - E.term(s * z) != 0) == z3.unsat]
    owner = {}

    def place(i, seen):
        for j in cand[i]:
            if j not in seen:
                seen.add(j)
                if j not in owner or place(owner[j], seen):
                    owner[j] = i
                    return True
        return False
    ok = all(place(i, set()) for i in range(len(pairs)))
    ctx.check(ok, label, f"candidates {cand}")


class CutDraws(Draws):
    """the first n_free numbers may lie beyond any cut-off (they must then be redrawn), all later ones lie inside `inside`"""

    def __init__(self, ctx, name="z", n_free=0, inside=1.0, wide=6, nonzero=False):
        super().__init__(ctx, name)
        self.nonzero = nonzero
        self.n_free, self.ins, self.wide = n_free, inside, wide

    def __call__(self, kind, shape):
        size = int(np.prod(shape)) if shape != () else 1
        vals = []
        for i in range(size):
            b = self.wide if self.n + i < self.n_free else self.ins
            vals.append(self.ctx.real(f"{self.name}{self.n + i}", -b, b, nonzero=self.nonzero))
        self.n += size
        self.calls.append((shape, vals))
        if shape == ():
            return vals[0]
        return arr(vals).reshape(shape)
