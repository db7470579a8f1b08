"""Injected bunches: mean, covariance, jitter, post-processing."""
from props.common import *

BOUNDS = dict(particles="1 to 3 (thorough: up to 7), by number or by setting", draws="all, by unit vectors and arbitrary values in [-2, 2]", covariance="block matrices with one arbitrary 2x2/3x3-rotated block, eigenvalues in [0.01,4]")
ASSUMPTIONS = ["numpy.linalg.eig / eigh / svd obey their contract (A = L diag(V) L^T for the covariance handed over)",
               "the covariance is symmetric positive definite"]


class BunchDraws:
    """random numbers in the order they are drawn: all zero, a unit vector, or arbitrary"""

    def __init__(self, ctx, value):
        self.ctx, self.value, self.n = ctx, value, 0

    def __call__(self, kind, shape):
        size = int(np.prod(shape)) if shape != () else 1
        v = [self.value(self.n + k) for k in range(size)]
        self.n += size
        return arr(v).reshape(shape) if shape != () else v[0]


def _SC(ctx):
    SC = new_SC(lattice([drift(), quad()]))
    SC.INJ.Z0 = ctx.reals("Z0", 6, -2, 2)
    SC.INJ.Z0ideal = ctx.reals("Zi", 6, -2, 2)
    SC.INJ.randomInjectionZ = ctx.reals("rZ", 6, 0, 1)
    return SC


def single(ctx, explicit, post):
    SC = _SC(ctx)
    SC.INJ.beamSize = ctx.reals("S", (6, 6), -1, 1)
    SC.INJ.nParticles = 3 if explicit else 1
    if post:
        SC.INJ.postFun = lambda z: 2 * z + 1
    law(ctx, SC, 1, (1,) if explicit else (), None, 2 if post else 1, 1 if post else 0)


def law(ctx, SC, n, args, sig, scale=1, shift=0):
    """the bunch is an affine function of the random numbers, Z = c + sum_k d_k z_k; its mean is c and its covariance sum_k d_k d_k^T"""
    before = snap(SC)

    def run(value):
        d = BunchDraws(ctx, value)
        with W.random(ctx, d):
            Z = W.mod("pySC.core.beam").generate_bunches(SC, *args)
        ctx.check(Z.shape == (6, n), "one column per particle")
        return Z, d.n
    Z0, nd = run(lambda k: 0.0)
    for i in range(6):
        for p in range(n):
            ctx.eq(Z0[i, p], scale * SC.INJ.Z0[i] + shift, "the bunch is centred at the injection point")
    D = []
    for u in range(nd):
        Z, m = run(lambda k: 1.0 if k == u else 0.0)
        ctx.check(m == nd, "the number of random numbers does not depend on them")
        D.append(Z - Z0)
    z = [ctx.real(f"z{k}", -2, 2) for k in range(nd)]
    Z, m = run(lambda k: z[k])
    for i in range(6):
        for p in range(n):
            ctx.eq(Z[i, p] - Z0[i, p], sum((D[u][i, p] * z[u] for u in range(nd)), 0.0), "every random number acts on its own and in proportion")
    rz = SC.INJ.randomInjectionZ
    for i in range(6):
        for j in range(i + 1):
            for p in range(n):
                for q in range(p + 1):
                    cov = sum((D[u][i, p] * D[u][j, q] for u in range(nd)), 0.0)
                    want = (rz[i] * rz[i] if i == j else 0.0) + (sig[i, j] if n > 1 and p == q else 0.0)
                    ctx.eq(cov, want * (scale * scale), ("a particle is spread by the jitter and by the configured beam size" if n > 1 else "a single particle sits on the jittered position")
                           if p == q else "the jitter is common to all particles, the spread is individual", tol=1e-6)
    same_state(ctx, before, SC, "generating a bunch changes nothing")


def spread(ctx, n, blocks, explicit=False, post=False):
    """columns of M (unit draws) satisfy M M^T = beamSize"""
    SC = _SC(ctx)
    V = [ctx.real(f"V{i}", 0.01, 4) for i in range(6)]
    L = [[1.0 if i == j else 0.0 for j in range(6)] for i in range(6)]
    for k, (i, j) in enumerate(blocks):
        th = ctx.real(f"th{k}", -3, 3)
        c, s = vcos(th), vsin(th)
        for r in range(6):
            a, b = L[r][i], L[r][j]
            L[r][i], L[r][j] = a * c + b * s, b * c - a * s
    Lm, Vm = arr(L), arr(V)
    sig = np.dot(Lm * Vm, Lm.T)
    SC.INJ.beamSize = sig
    if W.MODE == "sym":
        ctx.eig_stub = lambda a: _contract(ctx, a, sig, Vm, Lm)
        ctx.svd_stub = lambda a, full: (_contract(ctx, a, sig, Lm, Vm, flip=True) + (Lm.T,))
    SC.INJ.nParticles = n if not explicit else 2
    if post:
        SC.INJ.postFun = lambda z: 3 * z
    law(ctx, SC, n, (n,) if explicit else (), sig, 3 if post else 1)


def _contract(ctx, a, sig, x, y, flip=False):
    from sx import snp
    p, q = snp.plain(a), snp.plain(sig)
    for i in np.ndindex(6, 6):
        d = E.s_sub(p[i], q[i])
        if E._sym(d) or d != 0:
            ctx.eq(p[i], q[i], "the configured covariance is the one decomposed")
    return (x, y)


CASES = [
    Case("single", single, explicit=False, post=False), Case("single-explicit", single, explicit=True, post=False),
    Case("single-post", single, explicit=False, post=True),
    Case("diag", spread, n=2, blocks=()), Case("diag-post", spread, n=3, blocks=(), post=True), Case("diag-explicit", spread, n=3, blocks=(), explicit=True),
    Case("diag-6", spread, quick=False, n=6, blocks=()), Case("diag-7", spread, quick=False, n=7, blocks=(), explicit=True),
    Case("block-01", spread, n=2, blocks=((0, 1),)), Case("block-23", spread, n=2, blocks=((2, 3),), explicit=True),
    Case("block-05", spread, n=2, blocks=((0, 5),)), Case("block-01-45", spread, n=2, blocks=((0, 1), (4, 5))),
    Case("block-three", spread, quick=False, n=3, blocks=((0, 1),)),
    Case("block-02-24-deep", spread, quick=False, n=2, blocks=((0, 2), (2, 4)), limit_s=900),
]
