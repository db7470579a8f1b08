"""Support structures: every magnet and BPM gets the offset and roll of the structures it stands on."""
from props.common import *

BOUNDS = dict(elements="rings of <= 14 elements, <= 5 support structures of 3 types, nested <= 3 deep, one may wrap around the injection point",
              lengths="arbitrary in [0.25,2], markers of zero length", offsets_and_rolls="arbitrary in [-2,2] / [-1,1]")
ASSUMPTIONS = ["structures of one type do not overlap; nested structures of different types have distinct end points unless they coincide at both",
               "sin/cos are uninterpreted up to sin^2+cos^2=1", "arbitrary positions are asked for away from the ends of structures"]
TYPES = ("Section", "Plinth", "Girder")


def ring(ctx, plan):
    """plan: string, one letter per element: m marker, d drift, q quadrupole, b BPM (zero length)"""
    el = []
    for i, k in enumerate(plan):
        e = {"m": marker, "d": drift, "q": quad, "b": monitor}[k](f"{k}{i}")
        el.append(e)
    SC = new_SC(lattice(el))
    for i, k in enumerate(plan):
        if k in "dq":
            L = ctx.real(f"L{i}", 0.25, 2)
            SC.RING[i].Length = L
            SC.IDEALRING[i].Length = L
    q, b = [i for i, k in enumerate(plan) if k == "q"], [i for i, k in enumerate(plan) if k == "b"]
    if q:
        SC.register_magnets(np.array(q))
    if b:
        SC.register_bpms(np.array(b))
    return SC, q, b


def spos(SC):
    s = [0.0]
    for e in SC.RING:
        s.append(s[-1] + getattr(e, "Length", 0.0))
    return s


def inside(j, a, b):
    return a <= j <= b if a <= b else (j >= a or j <= b)


def oracle(SC, supports):
    """supports: type -> list of (start, end); returns off[j] (3), roll[j] (3) for all ordinates"""
    s = spos(SC)
    n = len(s)
    C = s[-1]
    off = [[0.0] * 3 for _ in range(n)]
    for t in TYPES:
        new = [list(o) for o in off]
        for a, b in supports.get(t, ()):
            oa = [x + y for x, y in zip(off[a], getattr(SC.RING[a], t + "Offset"))]
            ob = [x + y for x, y in zip(off[b], getattr(SC.RING[b], t + "Offset"))]
            L = s[b] - s[a] if a <= b else s[b] + C - s[a]
            for j in range(n):
                if inside(j, a, b):
                    d = s[j] - s[a] if (a <= b or j >= a) else s[j] + C - s[a]
                    new[j] = [p + (q - p) * d / L for p, q in zip(oa, ob)]
        off = new
    roll = [[0.0] * 3 for _ in range(n)]
    for t in TYPES:
        for a, b in supports.get(t, ()):
            L = s[b] - s[a] if a <= b else s[b] + C - s[a]
            for j in range(n):
                if inside(j, a, b):
                    roll[j] = [roll[j][0] + getattr(SC.RING[a], t + "Roll")[0],
                               (off[b][1] - off[a][1]) / L, (off[b][0] - off[a][0]) / L]
    return off, roll


class transformation:
    """the element transformation itself is C14's subject: symbolically, an arbitrary one is written to the element"""

    def __init__(self, ctx, tag=""):
        self.ctx, self.n, self.p, self.tag = ctx, 0, None, tag

    def stub(self, element):
        for k, shape in (("T1", 6), ("T2", 6), ("R1", (6, 6)), ("R2", (6, 6))):
            setattr(element, k, self.ctx.reals(f"tr{self.tag}{self.n}{k}", shape, -1, 1) if self.n == 0 or k[0] == "T" else arr(np.eye(6)))
        self.n += 1
        return element

    def __enter__(self):
        if W.MODE == "sym" and hasattr(W.mod("pySC.utils.sc_tools"), "update_transformation"):
            self.p = W.patched("pySC.utils.sc_tools", "update_transformation", self.stub)
            self.p.__enter__()

    def __exit__(self, *a):
        if self.p:
            self.p.__exit__()


def slaves(ctx):
    """slave magnets are displaced with their master"""
    SC, q, b = ring(ctx, "mqdqdqmb")
    SC.register_supports(np.array([[0], [6]]), "Girder", Offset=arr([0.1, 0.1, 0.1]))
    for j in (0, 6):
        SC.RING[j].GirderOffset = ctx.reals(f"o{j}", 3, -1, 1)
    SC2, _, _ = SC, 0, 0
    SC2.ORD.Magnet = np.array([], dtype=int)
    SC2.register_magnets(np.array([3]), MasterOf=np.array([[1], [5]]))
    SC2.RING[3].MagnetOffset = ctx.reals("mo", 3, -1, 1)
    with transformation(ctx):
        SC2.update_supports()
    for c in (1, 5):
        for k in ("T1", "T2", "R1", "R2"):
            ctx.eq(getattr(SC2.RING[c], k), getattr(SC2.RING[3], k), "slave magnets move with their master")


def prepare(ctx, plan, supports, rolls=True):
    SC, q, b = ring(ctx, plan)
    for t, prs in supports.items():
        SC.register_supports(np.array(prs).T, t)
        for a, e in prs:
            for j in (a, e):
                setattr(SC.RING[j], t + "Offset", ctx.reals(f"{t}{j}.o", 3, -2, 2))
            setattr(SC.RING[a], t + "Roll", ctx.reals(f"{t}{a}.r", 3, -1, 1) if rolls else zeros(3))
    return SC, q, b


def place(ctx, plan, supports, which="both", rolls=True):
    SC, q, b = prepare(ctx, plan, supports, rolls)
    before = snap(SC)
    with transformation(ctx):
        if which == "both":
            SC.update_supports()
        elif which == "bpms":
            SC.update_supports(True, False)
        else:
            SC.update_supports(offset_bpms=False, offset_magnets=True)
    off, roll = oracle(SC, supports)
    allow = []
    if which in ("both", "magnets"):
        for i in q:
            ctx.eq(SC.RING[i].SupportOffset, arr(off[i]), "magnet support offset")
            ctx.eq(SC.RING[i].SupportRoll, arr(roll[i]), "magnet support roll, pitch and yaw")
            allow += [(i, k) for k in ("SupportOffset", "SupportRoll", "T1", "T2", "R1", "R2")]
            for k in ("R1", "R2"):
                before["RING"][i].setdefault(k, 0)
    if which in ("both", "bpms"):
        for i in b:
            ctx.eq(SC.RING[i].SupportOffset, arr(off[i][:2]), "BPM support offset")
            ctx.eq(SC.RING[i].SupportRoll, roll[i][0], "BPM support roll")
            allow += [(i, "SupportOffset"), (i, "SupportRoll")]
    same_state(ctx, before, SC, "nothing else moves", allow)


def anywhere(ctx, plan, supports, seg):
    """the offset at an arbitrary position strictly between two elements of a structure"""
    SC, q, b = prepare(ctx, plan, supports)
    s = spos(SC)
    lo, hi = seg
    x = ctx.real("x", 0, 1)
    ctx.assume(x > 0)
    ctx.assume(x < 1)
    pos = s[lo] + x * (s[hi] - s[lo])
    off, roll = oracle(SC, supports)
    o, r = SC.support_offset_and_roll(arr([pos]))
    ctx.check(o.shape == (3, 1) and r.shape == (3, 1), "one column per position")
    want = [p + (q_ - p) * x for p, q_ in zip(off[lo], off[hi])]
    ctx.eq(o[:, 0], arr(want), "offset at any position inside a structure lies on the line")
    ctx.eq(r[:, 0], arr(roll[lo]), "roll at any position inside a structure")


def whole(ctx, plan, supports):
    """evaluated at all element positions at once, in element order"""
    SC, q, b = prepare(ctx, plan, supports)
    before = snap(SC)
    off, roll = oracle(SC, supports)
    o, r = SC.support_offset_and_roll(arr(spos(SC)))
    ctx.eq(o, arr(off).T, "offsets of all elements")
    ctx.eq(r, arr(roll).T, "rolls of all elements")
    same_state(ctx, before, SC, "evaluating the supports changes nothing")


def none(ctx):
    SC, q, b = ring(ctx, "dqbd")
    SC.RING[1].SupportOffset = ctx.reals("o", 3)
    SC.RING[2].SupportRoll = ctx.real("r")
    SC.update_supports()
    ctx.eq(SC.RING[1].SupportOffset, zeros(3), "without supports nothing is displaced")
    ctx.eq(SC.RING[2].SupportOffset, zeros(2), "without supports nothing is displaced")
    ctx.eq(SC.RING[1].SupportRoll, zeros(3), "without supports nothing is displaced")
    ctx.eq(SC.RING[2].SupportRoll, 0.0, "without supports nothing is displaced")


G1 = ("dmqbdqmdqb", dict(Girder=[(1, 6)]))
G2 = ("mqbdmmqbdmdq", dict(Girder=[(0, 4), (5, 9)]))
NEST = ("mdmqbdqmbdmdq", dict(Section=[(0, 10)], Girder=[(2, 7)]))
NEST3 = ("mdmmqbdmdbmdmq", dict(Section=[(0, 12)], Plinth=[(2, 10)], Girder=[(3, 7)]))
SAME = ("mqbdqmdb", dict(Plinth=[(0, 5)], Girder=[(0, 5)]))
WRAP = ("qbdmdqdmbq", dict(Girder=[(7, 3)]))
WRAP2 = ("bqmdqbmdmqd", dict(Section=[(8, 2)], Girder=[(3, 6)]))
WRAPN = ("dqmbdmqdmbmd", dict(Section=[(8, 5)], Girder=[(10, 2)]))
INQ = ("dqbqdq", dict(Girder=[(1, 3)]))   # structures may start and end at magnets
CASES = [Case("none", none), Case("slaves", slaves)]
for n, (p, s) in dict(girder=G1, two=G2, nested=NEST, nested3=NEST3, coincide=SAME, wrap=WRAP, wrap_section=WRAP2, wrap_nested=WRAPN, on_magnets=INQ).items():
    CASES.append(Case(f"place-{n}", place, plan=p, supports=s))
    CASES.append(Case(f"whole-{n}", whole, plan=p, supports=s))
CASES += [
    Case("bpms-only", place, plan=NEST[0], supports=NEST[1], which="bpms"),
    Case("magnets-only", place, plan=WRAP[0], supports=WRAP[1], which="magnets"),
    Case("anywhere-girder", anywhere, plan=G1[0], supports=G1[1], seg=(2, 3)),
    Case("anywhere-two", anywhere, plan=G2[0], supports=G2[1], seg=(8, 9)),
    Case("anywhere-nested", anywhere, plan=NEST[0], supports=NEST[1], seg=(6, 7)),
    Case("anywhere-section", anywhere, plan=NEST3[0], supports=NEST3[1], seg=(9, 10)),
    Case("anywhere-wrap", anywhere, plan=WRAP[0], supports=WRAP[1], seg=(2, 3)),
    Case("anywhere-wrap-end", anywhere, plan=WRAP[0], supports=WRAP[1], seg=(9, 10)),
]
