"""Errors of support structures: drawn at the ends from their own uncertainties, tilted about the centre, passed on to the elements."""
from props.common import *
from props.C12 import ring, spos, oracle, transformation, TYPES

BOUNDS = dict(structures="<= 3 structures of <= 3 types, one may wrap around the injection point", lengths="arbitrary in [0.25,2]",
              uncertainties="arbitrary in [1/16,2] per coordinate, one set for both ends or one per end, with or without explicit cut-off", draws="arbitrary; <= 2 beyond the cut-off")
ASSUMPTIONS = ["structures have a length", "structures of one type share no end point", "drawn angles are not exactly zero"]


def uncertainty(ctx, name, kind):
    """kind: '1' one set, '2' one set per end, 'z' roll about the beam axis only; returns (registered value, [start, end or None])"""
    if kind == "2":
        a, b = ctx.reals(name + "a", 3, 0.0625, 2), ctx.reals(name + "b", 3, 0.0625, 2)
        return arr([list(a), list(b)]), [a, b]
    if kind == "z":
        a = arr([ctx.real(name, 0.0625, 1), 0.0, 0.0])
        return a, [a, None]
    a = ctx.reals(name, 3, 0.0625, 2)
    return a, [a, None]


def flat(v, s):
    return list(zip(list(v), list(s)))


def structures(ctx, plan, supports, spec, cuts=(), nsigma=None, free=0, twice=False, bare=()):
    """spec: type -> dict(Offset=kind, Roll=kind); cuts: (type, field) -> explicit cut-off; bare: types registered without uncertainties"""
    cuts = dict(cuts)
    SC, q, b = ring(ctx, plan)
    reg = {}
    for t, prs in supports.items():
        kw, reg[t] = {}, {}
        for f, kind in spec.get(t, {}).items():
            val, reg[t][f] = uncertainty(ctx, t + f, kind)
            kw[f] = val if (t, f) not in cuts else [val, cuts[t, f]]
        SC.register_supports(np.array(prs).T, t, **kw)
    before = snap(SC)
    d = None
    inside = min([1.0] + list(cuts.values()) + ([nsigma] if nsigma else []))
    for rep in range(2 if twice else 1):
        d = CutDraws(ctx, f"z{rep}.", n_free=free, inside=inside, nonzero=len(plan) > 10 or free > 0)
        with W.random(ctx, d), transformation(ctx, f"{rep}."):
            SC.apply_errors() if nsigma is None else SC.apply_errors(nsigma)
    s = spos(SC)
    pairs, allow = [], []
    for t, prs in supports.items():
        for a, e in prs:
            A, B = SC.RING[a], SC.RING[e]
            o0, o1, r = getattr(A, t + "Offset"), getattr(B, t + "Offset"), getattr(A, t + "Roll")
            allow += [(i, t + k) for i in (a, e) for k in ("Offset", "Roll")]
            L = s[e] - s[a] if a <= e else s[e] + s[-1] - s[a]
            so, sr = reg[t].get("Offset"), reg[t].get("Roll")
            co, cr = [cuts.get((t, f), 2 if nsigma is None else nsigma) for f in ("Offset", "Roll")]
            tilt = sr is not None and spec[t]["Roll"] != "z"
            mid = [(x + y) / 2 for x, y in zip(o0, o1)]
            if so is None:
                ctx.eq(arr(mid), zeros(3), "no offset without uncertainty")
                so0 = None
            elif so[1] is None:
                pairs += flat(mid, so[0])
                for v, u in flat(mid, so[0]):
                    ctx.check(abs(v) <= co * u + 1e-9, "offsets within the cut-off")
                ctx.eq(o0[2], o1[2], "no stretching")
                if not tilt:
                    ctx.eq(o0, o1, "both ends are displaced alike")
            else:
                for v, u in flat(o0, so[0]) + flat(o1, so[1]):
                    ctx.check(abs(v) <= co * u + 1e-9, "offsets of each end within their own cut-off")
                pairs += flat(o0, so[0]) + flat(o1, so[1])
            if sr is None:
                ctx.eq(r[0], 0.0, "no roll without uncertainty")
            else:
                k = 1 if spec[t]["Roll"] == "z" else 3
                pairs += flat(list(r)[:k], list(sr[0])[:k])
                for v, u in flat(list(r)[:k], list(sr[0])[:k]):
                    ctx.check(abs(v) <= cr * u + 1e-9, "angles within the cut-off")
            ctx.eq(r[1] * L, o1[1] - o0[1], "the pitch is the vertical slope between the ends")
            ctx.eq(r[2] * L, o1[0] - o0[0], "the yaw is the horizontal slope between the ends")
    drawn(ctx, pairs, d.flat, "every error is its own uncertainty times a random number of its own")
    off, roll = oracle(SC, supports)
    for i in q:
        ctx.eq(SC.RING[i].SupportOffset, arr(off[i]), "magnets follow their support")
        ctx.eq(SC.RING[i].SupportRoll, arr(roll[i]), "magnets roll with their support")
        allow += [(i, k) for k in ("SupportOffset", "SupportRoll", "T1", "T2", "R1", "R2")] + [
            (i, k) for k in ("PolynomA", "PolynomB", "MaxOrder")]
        for k in ("R1", "R2"):
            before["RING"][i].setdefault(k, 0)
        ctx.eq(SC.RING[i].PolynomB, before["RING"][i]["PolynomB"], "fields stay")
    for i in b:
        ctx.eq(SC.RING[i].SupportOffset, arr(off[i][:2]), "BPMs follow their support")
        ctx.eq(SC.RING[i].SupportRoll, roll[i][0], "BPMs roll with their support")
        allow += [(i, "SupportOffset"), (i, "SupportRoll")]
    same_state(ctx, before, SC, "nothing else gets an error", allow, parts=("RING", "IDEAL", "SIG", "ORD"))


def overdetermined(ctx, t, axis, L):
    """explicit pitch/yaw together with individual end offsets is contradictory"""
    SC, q, b = ring(ctx, "mqdbm")
    sr = [0.0, 0.0, 0.0]
    sr[axis] = ctx.real("sr", 0.0625, 1)
    so, _ = uncertainty(ctx, "o", "2")
    SC.register_supports(np.array([[0], [4]]), t, Offset=so, Roll=arr(sr))
    d = CutDraws(ctx, "z", inside=1.0)
    with W.random(ctx, d), transformation(ctx):
        try:
            SC.apply_errors()
        except Exception as ex:  # noqa
            if isinstance(ex, (AttributeError, TypeError, KeyError, IndexError)) or not isinstance(ex, Exception):
                raise
            ctx.reach("rejected")
            return
    r = getattr(SC.RING[0], t + "Roll")
    nz = [z for z in d.flat]
    ctx.check(_any_zero(nz), "contradictory tilt uncertainties are rejected")


def _any_zero(nz):
    if W.MODE == "conc":
        return any(z == 0 for z in nz)
    import z3
    return E.mkb(z3.Or(*[E.term(z) == 0 for z in nz]))


PL = "dmqbdqmdqb"
ONE = dict(Girder=[(1, 6)])
CASES = []
for t in TYPES:
    CASES += [Case(f"{t}-offset", structures, plan=PL, supports={t: [(1, 6)]}, spec={t: dict(Offset="1")}),
              Case(f"{t}-ends", structures, plan=PL, supports={t: [(1, 6)]}, spec={t: dict(Offset="2")}),
              Case(f"{t}-tilt", structures, plan=PL, supports={t: [(1, 6)]}, spec={t: dict(Offset="1", Roll="1")})]
    for ax in (1, 2):
        CASES.append(Case(f"{t}-overdetermined-{ax}", overdetermined, t=t, axis=ax, L=1))
G = "Girder"
CASES += [
    Case("roll-only", structures, plan=PL, supports=ONE, spec={G: dict(Roll="1")}),
    Case("ends-and-roll", structures, plan=PL, supports=ONE, spec={G: dict(Offset="2", Roll="z")}),
    Case("offset-and-roll", structures, plan=PL, supports=ONE, spec={G: dict(Offset="1", Roll="z")}),
    Case("two-girders", structures, plan="mqbdmmqbdmdq", supports={G: [(0, 4), (5, 9)]}, spec={G: dict(Offset="1", Roll="1")}),
    Case("two-girders-ends", structures, plan="mqbdmmqbdmdq", supports={G: [(0, 4), (5, 9)]}, spec={G: dict(Offset="2")}),
    Case("nested", structures, plan="mdmqbdqmbdmdq", supports=dict(Section=[(0, 10)], Girder=[(2, 7)]),
         spec=dict(Section=dict(Offset="2"), Girder=dict(Offset="1", Roll="1"))),
    Case("nested3", structures, plan="mdmmqbdmdbmdmq", supports=dict(Section=[(0, 12)], Plinth=[(2, 10)], Girder=[(3, 7)]),
         spec=dict(Section=dict(Offset="1", Roll="z"), Plinth=dict(Offset="2"), Girder=dict(Offset="1", Roll="1"))),
    Case("coincide", structures, plan="mqbdqmdb", supports=dict(Plinth=[(0, 5)], Girder=[(0, 5)]),
         spec=dict(Plinth=dict(Offset="2"), Girder=dict(Offset="1", Roll="1"))),
    Case("bare-section", structures, plan="mdmqbdqmbdmdq", supports=dict(Section=[(0, 10)], Girder=[(2, 7)]), spec=dict(Girder=dict(Offset="2"))),
    Case("wrap", structures, plan="qbdmdqdmbq", supports={G: [(7, 3)]}, spec={G: dict(Offset="1", Roll="1")}),
    Case("wrap-ends", structures, plan="qbdmdqdmbq", supports={G: [(7, 3)]}, spec={G: dict(Offset="2", Roll="z")}),
    Case("wrap-section", structures, plan="bqmdqbmdmqd", supports=dict(Section=[(8, 2)], Girder=[(3, 6)]),
         spec=dict(Section=dict(Offset="2"), Girder=dict(Offset="1", Roll="1"))),
    Case("cut", structures, plan=PL, supports=ONE, spec={G: dict(Offset="1")}, free=2),
    Case("cut-nsigma", structures, plan=PL, supports=ONE, spec={G: dict(Offset="1")}, free=2, nsigma=1.25),
    Case("cut-explicit", structures, plan=PL, supports=ONE, spec={G: dict(Offset="2", Roll="z")}, free=1, cuts={(G, "Offset"): 1.5, (G, "Roll"): 3}),
    Case("cut-explicit-one", structures, plan=PL, supports=ONE, spec={G: dict(Offset="1", Roll="1")}, free=2, cuts={(G, "Roll"): 1.5}, nsigma=3),
    Case("twice", structures, plan=PL, supports=ONE, spec={G: dict(Offset="1", Roll="1")}, twice=True),
    Case("twice-ends", structures, plan=PL, supports=ONE, spec={G: dict(Offset="2")}, twice=True),
    Case("twice-nested", structures, plan="mdmqbdqmbdmdq", supports=dict(Section=[(0, 10)], Girder=[(2, 7)]),
         spec=dict(Section=dict(Offset="2"), Girder=dict(Offset="1", Roll="1")), twice=True),
]
