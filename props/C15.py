"""Circumference scaling: the drifts take up the whole change, in proportion to their lengths."""
from props.common import *

BOUNDS = dict(ring="3 to 7 elements, 1 to 3 drifts among quadrupoles, dipoles, monitors and cavities", lengths="arbitrary in [0.25,2]", target="0.9 to 1.5 times the circumference")
ASSUMPTIONS = ["the ring has at least one drift", "the requested length leaves the drifts a positive length"]
KIND = dict(d=drift, q=quad, b=dipole, m=monitor, c=cavity)


def scale(ctx, plan, mode, how):
    SC = new_SC(lattice([KIND[k](f"{k}{i}") for i, k in enumerate(plan)]))
    for i, k in enumerate(plan):
        if k in "dqb":
            SC.RING[i].Length = ctx.real(f"L{i}", 0.25, 2)
    ring = SC.RING
    old = [getattr(e, "Length", 0.0) for e in ring]
    C = sum(old[1:], old[0])
    D = [i for i, k in enumerate(plan) if k == "d"]
    Dtot = sum([old[i] for i in D[1:]], old[D[0]])
    f = ctx.real("f", 0.875, 1.5)
    target = f * C
    before = snap(SC)
    fn = W.mod("pySC.utils.sc_tools").scale_circumference
    arg = f if mode == "rel" else target
    out = {"kw": lambda: fn(ring, arg, mode=mode), "pos": lambda: fn(ring, arg, mode), "default": lambda: fn(ring, arg)}[how]()
    new = [getattr(e, "Length", 0.0) for e in out]
    ctx.check(len(new) == len(old), "all elements stay")
    ctx.eq(sum(new[1:], new[0]), target, "the circumference is the requested one")
    for i in D:
        ctx.eq(new[i] * Dtot, old[i] * (Dtot + target - C), "every drift changes in proportion to its length")
    SC.RING = out
    same_state(ctx, before, SC, "nothing but the drifts changes", [(i, "Length") for i in D])


def none(ctx, plan, mode):
    """scaling to the present circumference changes nothing"""
    SC = new_SC(lattice([KIND[k](f"{k}{i}") for i, k in enumerate(plan)]))
    for i, k in enumerate(plan):
        if k in "dqb":
            SC.RING[i].Length = ctx.real(f"L{i}", 0.25, 2)
    before = snap(SC)
    C = sum([getattr(e, "Length", 0.0) for e in SC.RING], 0.0)
    SC.RING = W.mod("pySC.utils.sc_tools").scale_circumference(SC.RING, 1.0 if mode == "rel" else C, mode)
    same_state(ctx, before, SC, "no change requested, none made")


CASES = []
for p in ("dqd", "qdbmdq", "cdqmbdd", "d", "ddd", "qbmd"):
    for m in ("abs", "rel"):
        CASES.append(Case(f"{p}-{m}", scale, plan=p, mode=m, how="kw" if m == "abs" else "pos"))
        CASES.append(Case(f"{p}-{m}-same", none, plan=p, mode=m))
    CASES.append(Case(f"{p}-default", scale, plan=p, mode="abs", how="default"))
