"""Misalignment of an element: the entrance and exit transformations are the change between displaced and design frames."""
from props.common import *

BOUNDS = dict(offsets="arbitrary in [-1,1] (all three, magnet and support part)", angles="arbitrary in [-0.2,0.2] (all three, magnet and support part)",
              element="length arbitrary in [0.25,2], bending angle zero or arbitrary in +-[1/32,0.5]")
ASSUMPTIONS = ["the transformation is linear in the particle coordinates: first order about the design axis",
               "sin and cos are arbitrary functions with sin^2+cos^2=1 and the right range on the given interval"]


def dot(a, b):
    r = 0.0
    for x, y in zip(a, b):
        r = r + x * y
    return r


def mat(rows):
    return [list(r) for r in rows]


def mm(A, B):
    return [[dot(A[i], [B[k][j] for k in range(3)]) for j in range(3)] for i in range(3)]


def mv(A, v):
    return [dot(r, v) for r in A]


def tr(A):
    return [[A[j][i] for j in range(3)] for i in range(3)]


def elementary(ax, ay, az):
    """turn about z, then y, then x"""
    cx, sx, cy, sy, cz, sz = (vcos(ax), vsin(ax), vcos(ay), vsin(ay), vcos(az), vsin(az))
    X = mat([[1.0, 0.0, 0.0], [0.0, cx, -sx], [0.0, sx, cx]])
    Y = mat([[cy, 0.0, sy], [0.0, 1.0, 0.0], [-sy, 0.0, cy]])
    Z = mat([[cz, -sz, 0.0], [sz, cz, 0.0], [0.0, 0.0, 1.0]])
    return mm(X, mm(Y, Z))


def transfer(F, G):
    """ray coordinates (x, px, y, py, delta, path) in frame F (origin, axes in columns) to frame G, to first order in the ray:
    constant part and Jacobian, by intersecting the ray with the plane z=0 of G"""
    o = [g - f for g, f in zip(G[0], F[0])]
    gx, gy, gz = [[G[1][i][k] for i in range(3)] for k in range(3)]
    fx, fy, fz = [[F[1][i][k] for i in range(3)] for k in range(3)]
    ld = dot(o, gz)
    n = dot(fz, gz)
    t0 = ld / n
    const = [t0 * dot(fz, gx) - dot(o, gx), dot(fz, gx), t0 * dot(fz, gy) - dot(o, gy), dot(fz, gy), 0.0, t0]
    J = [[0.0] * 6 for _ in range(6)]
    # t = (ld - x fx.gz - y fy.gz) / (px fx.gz + py fy.gz + (1+delta) n);  position = x fx + y fy + t (px fx + py fy + (1+delta) fz)
    for col, f in ((0, fx), (2, fy)):
        dt = -dot(f, gz) / n
        J[0][col] = dot(f, gx) + dt * dot(fz, gx)
        J[2][col] = dot(f, gy) + dt * dot(fz, gy)
        J[5][col] = dt
    for col, f in ((1, fx), (3, fy)):
        dt = -ld * dot(f, gz) / (n * n)
        J[0][col] = t0 * dot(f, gx) + dt * dot(fz, gx)
        J[2][col] = t0 * dot(f, gy) + dt * dot(fz, gy)
        J[1][col], J[3][col] = dot(f, gx), dot(f, gy)
        J[5][col] = dt
    J[1][4], J[3][4] = dot(fz, gx), dot(fz, gy)
    J[4][4] = J[5][5] = 1.0
    return const, J


I3 = mat(np.eye(3))


def element(ctx, bend, off, ang, split):
    L = ctx.real("L", 0.25, 2)
    SC = new_SC(lattice([drift(), dipole("B") if bend else quad("Q")]))
    SC.register_magnets(np.array([1]))
    e = SC.RING[1]
    e.Length = L
    th = 0.0
    if bend:
        th = ctx.real("theta", 1 / 32, 0.5) if bend > 0 else ctx.real("theta", -0.5, -1 / 32)
        e.BendingAngle = th

    def part(name, idx, lim):
        return arr([ctx.real(f"{name}{k}", -lim, lim) if k in idx else 0.0 for k in range(3)])
    e.MagnetOffset, e.SupportOffset = part("mo", off, 0.5), part("so", off, 0.5) if split else zeros(3)
    e.MagnetRoll, e.SupportRoll = part("mr", ang, 0.1), part("sr", ang, 0.1) if split else zeros(3)
    return SC, e, L, th


def law(ctx, bend, off, ang, split=False, twice=False):
    """off: displaced directions (x,y,z = 0,1,2); ang: non-zero angles (roll, pitch, yaw = 0,1,2)"""
    SC, e, L, th = element(ctx, bend, off, ang, split)
    before = snap(SC)
    f = W.mod("pySC.utils.sc_tools").update_transformation
    out = f(e)
    if twice:
        out = f(out)
    ctx.check(out is e, "the element itself is returned")
    o = [a + b for a, b in zip(e.MagnetOffset, e.SupportOffset)]
    a = [p + q for p, q in zip(e.MagnetRoll, e.SupportRoll)]
    R = elementary(a[1], a[2], a[0])
    if bend:
        B = elementary(0.0, -th, 0.0)
        exit_ = [L * (vcos(th) - 1) / th, 0.0, L * vsin(th) / th]
    else:
        B, exit_ = I3, [0.0, 0.0, L]
    c, J = transfer(([0.0] * 3, I3), (o, R))
    ctx.eq(e.R1, arr(J), "entrance matrix: design frame to element frame")
    ctx.eq(np.dot(e.R1, e.T1), arr(c), "entrance shift: design frame to element frame")
    disp = [x + y for x, y in zip(o, mv(R, exit_))]
    c, J = transfer((disp, mm(R, B)), (exit_, B))
    ctx.eq(e.R2, arr(J), "exit matrix: element frame back to the design frame")
    ctx.eq(e.T2, arr(c), "exit shift: element frame back to the design frame")
    if not ang and not off:
        for k in ("R1", "R2"):
            ctx.eq(getattr(e, k), arr(np.eye(6)), "an aligned element is not transformed")
        for k in ("T1", "T2"):
            ctx.eq(getattr(e, k), zeros(6), "an aligned element is not transformed")
    for k in ("R1", "R2"):
        before["RING"][1].setdefault(k, 0)
    same_state(ctx, before, SC, "nothing else changes", [(1, k) for k in ("T1", "T2", "R1", "R2")])


def roundtrip(ctx, off, ang, split=False):
    """a field-free straight element is transparent however it is displaced and rolled"""
    SC, e, L, th = element(ctx, 0, off, ang, split)
    W.mod("pySC.utils.sc_tools").update_transformation(e)
    D = arr(np.eye(6))
    D[0, 1] = D[2, 3] = L
    ctx.eq(np.dot(e.R2, np.dot(D, e.R1)), D, "a displaced drift is a drift")
    ctx.eq(np.dot(e.R2, np.dot(D, np.dot(e.R1, e.T1))) + e.T2, zeros(6), "a displaced drift does not kick")


def bare(ctx, drop):
    """elements without length or bending angle count as thin and straight"""
    SC, e, L, th = element(ctx, 0, (0, 1, 2), (0, 1), False)
    if drop == "Length":
        class X:
            pass
        x = X()
        for k in ("MagnetOffset", "SupportOffset", "MagnetRoll", "SupportRoll"):
            setattr(x, k, getattr(e, k))
        e, L = x, 0.0
    W.mod("pySC.utils.sc_tools").update_transformation(e)
    R = elementary(e.MagnetRoll[1], e.MagnetRoll[2], e.MagnetRoll[0])
    o, exit_ = list(e.MagnetOffset), [0.0, 0.0, L]
    c, J = transfer(([x + y for x, y in zip(o, mv(R, exit_))], R), (exit_, I3))
    ctx.eq(e.R2, arr(J), "exit matrix")
    ctx.eq(e.T2, arr(c), "exit shift")


ALL = (0, 1, 2)
CASES = [
    Case("aligned", law, bend=0, off=(), ang=()), Case("aligned-bend", law, bend=1, off=(), ang=()),
    Case("offset", law, bend=0, off=ALL, ang=(), split=True), Case("offset-bend", law, bend=1, off=ALL, ang=(), split=True),
    Case("offset-bend-negative", law, bend=-1, off=ALL, ang=()),
    Case("twice", law, bend=0, off=ALL, ang=(0,), twice=True),
    Case("roundtrip-offset", roundtrip, off=ALL, ang=(), split=True), Case("roundtrip-roll", roundtrip, off=ALL, ang=(0,)),
    Case("bare-angle", bare, drop=""), Case("bare-length", bare, drop="Length"),
]
for n, a in (("roll", (0,)), ("pitch", (1,)), ("yaw", (2,))):
    CASES += [Case(f"{n}", law, bend=0, off=ALL, ang=a, split=True), Case(f"{n}-bend", law, bend=1, off=ALL, ang=a)]
for n, a in (("roll-pitch", (0, 1)), ("roll-yaw", (0, 2)), ("pitch-yaw", (1, 2)), ("all", ALL)):
    CASES += [Case(f"{n}", law, bend=0, off=ALL, ang=a), Case(f"{n}-bend", law, bend=1, off=ALL, ang=a)]
CASES += [Case("all-negative-bend", law, bend=-1, off=ALL, ang=ALL, quick=False), Case("all-split", law, bend=0, off=ALL, ang=ALL, split=True, quick=False)]
