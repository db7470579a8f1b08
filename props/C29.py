"""Switching of cavities and radiation."""
from props.common import *

BOUNDS = dict(machine="3 magnets of arbitrary pass method, 2 cavities of arbitrary pass method, other elements", histories="any single command, every pair, up to 3 commands in sequence")
ASSUMPTIONS = ["pass methods are chosen from a list of 9 for magnets and 3 for cavities"]
PAIRS = {"BndMPoleSymplectic4Pass": "BndMPoleSymplectic4RadPass", "BndMPoleSymplectic4E2Pass": "BndMPoleSymplectic4E2RadPass", "StrMPoleSymplectic4Pass": "StrMPoleSymplectic4RadPass"}
OTHER = ["DriftPass", "CorrectorPass", "IdentityPass"]
METHODS = list(PAIRS) + list(PAIRS.values()) + OTHER
CAVS = ["RFCavityPass", "IdentityPass", "CavityPass"]
BACK = {v: k for k, v in PAIRS.items()}
CAV = (3, 5)


def ls():
    return W.mod("pySC.core.lattice_setting")


def ring(ctx, free=(1, 2, 6), cavs=CAV):
    r = lattice([drift(), quad("Q"), dipole("BD"), cavity("R1"), monitor("B"), cavity("R2", f=1e9), sext("S"), corrector("C"), marker("M")])
    r[1].PolynomB = ctx.reals("pb", 2, -2, 2)
    r[3].Frequency, r[3].Voltage = ctx.real("f", 1, 2), ctx.real("v", 1, 2)
    for o in free:
        r[o].PassMethod = METHODS[ctx.choose(f"m{o}", len(METHODS))]
    for o in cavs:
        r[o].PassMethod = CAVS[ctx.choose(f"c{o}", len(CAVS))]
    return r


def wanted(before, cmds):
    """expected pass methods"""
    out = [e["PassMethod"] for e in before]
    for i, m in enumerate(out):
        if "radiationoff" in cmds:
            out[i] = BACK.get(m, m)
        elif "radiationon" in cmds:
            out[i] = PAIRS.get(m, m)
        if "Frequency" in before[i]:
            if "cavityoff" in cmds:
                out[i] = "IdentityPass"
            elif "cavityon" in cmds:
                out[i] = "RFCavityPass"
    return out


def compare(ctx, r, before, exp):
    for i, e in enumerate(r):
        ctx.check(e.PassMethod == exp[i], "radiation switches the magnets that radiate, cavity commands the cavities", f"element {i}: {e.PassMethod} instead of {exp[i]}")
    same_ring(ctx, before, r, "only pass methods are changed", [(i, "PassMethod") for i in range(len(r))])


def switch(ctx, cmds, free, cavs=()):
    r = ring(ctx, free, cavs)
    before = snap_ring(r)
    out = ls().switch_cavity_and_radiation(r, *cmds)
    ctx.check(out is r, "the ring is returned")
    compare(ctx, r, before, wanted(before, cmds))
    again = snap_ring(r)
    ls().switch_cavity_and_radiation(r, *cmds)
    same_ring(ctx, again, r, "repeated commands change nothing")


def sequence(ctx, cmds):
    r = ring(ctx, (2,), (3,))
    before = snap_ring(r)
    exp = [dict(e) for e in before]
    for c in cmds:
        ls().switch_cavity_and_radiation(r, c)
        for e, m in zip(exp, wanted(exp, (c,))):
            e["PassMethod"] = m
    compare(ctx, r, before, [e["PassMethod"] for e in exp])


def unknown(ctx, cmds):
    r = ring(ctx, (1, 2), (3,))
    before = snap_ring(r)
    try:
        ls().switch_cavity_and_radiation(r, *cmds)
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok, "unknown commands are an error")
    same_ring(ctx, before, r, "they change nothing")


def rf(ctx, ords, state):
    r = ring(ctx, (1,), CAV)
    before = snap_ring(r)
    out = ls().switch_rf(r, ords, state)
    ctx.check(out is r, "the ring is returned")
    hit = [int(o) for o in np.ravel(np.array(ords, dtype=int))]
    exp = [("RFCavityPass" if state else "IdentityPass") if i in hit and "Frequency" in e else e["PassMethod"] for i, e in enumerate(before)]
    compare(ctx, r, before, exp)


CMDS = ("radiationoff", "radiationon", "cavityoff", "cavityon")
CASES = [Case(f"one-{c}", switch, cmds=(c,), free=(1, 2) if c[0] == "r" else (6,), cavs=() if c[0] == "r" else CAV) for c in CMDS]
CASES += [Case(f"two-{a}-{b}-{o}", switch, cmds=(a, b) if o else (b, a), free=(6,), cavs=(5,)) for a in CMDS[:2] for b in CMDS[2:] for o in (0, 1)]
CASES += [Case(f"priority-{k}", switch, cmds=c, free=(6,), cavs=(5,)) for k, c in enumerate((CMDS[:2], CMDS[1::-1], CMDS[2:], CMDS[:1:-1], CMDS))]
CASES += [Case("none", switch, cmds=(), free=(2,), cavs=(3,))]
CASES += [Case(f"seq-{'-'.join(c)}", sequence, cmds=c) for c in (("radiationon", "radiationoff"), ("radiationoff", "radiationon"), ("cavityoff", "cavityon"), ("radiationon", "cavityoff", "radiationoff"), ("cavityon", "radiationon", "cavityoff"))]
CASES += [Case(f"unknown-{i}", unknown, cmds=c) for i, c in enumerate((("radiation",), ("cavityoff", "bpmon"), ("RadiationOn",), ("cavityon", "")))]
CASES += [Case(f"rf-{i}-{s}", rf, ords=o, state=s) for i, o in enumerate((3, [3, 5], np.array([5]), [[3], [1]], np.arange(9))) for s in (False, True)]
