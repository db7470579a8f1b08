"""Pseudo-inverse of a response matrix: singular values removed, regularised and damped as requested."""
from props.common import *

BOUNDS = dict(matrix="2x2, 3x2, 2x3, 3x3; arbitrary singular vectors (rotations by arbitrary angles), arbitrary singular values in [0,4] in descending order, zeros included",
              options="0 to all singular values removed, arbitrary regularisation and damping")
ASSUMPTIONS = ["the singular value decomposition of numpy is correct (contract: M = U diag(s) V^T, orthonormal, descending)", "at most all singular values are removed"]


def rot(ctx, n, tag):
    """orthonormal n x n matrix"""
    if n == 1:
        return np.eye(1).tolist()
    if n == 2:
        a = ctx.real(tag, -1.5, 1.5)
        c, s = vcos(a), vsin(a)
        return [[c, -s], [s, c]]
    from props.C14 import elementary
    return elementary(*[ctx.real(f"{tag}{k}", -1.5, 1.5) for k in range(3)])


def decomposition(ctx, m, n, zeros_=0):
    k = min(m, n)
    U, V = rot(ctx, m, "u"), rot(ctx, n, "v")
    U = [[U[i][j] for j in range(k)] for i in range(m)]
    V = [[V[i][j] for j in range(k)] for i in range(n)]
    s = [ctx.real(f"s{i}", 0.0625, 4) for i in range(k - zeros_)] + [0.0] * zeros_
    for a, b in zip(s, s[1:k - zeros_]):
        ctx.assume(a >= b)
    M = [[sum([U[i][q] * s[q] * V[j][q] for q in range(1, k)], U[i][0] * s[0] * V[j][0]) for j in range(n)] for i in range(m)]
    return U, s, V, M


class svd:
    """numpy's decomposition by contract (in the replay too: the rank is then exact)"""

    def __init__(self, ctx, U, s, V, M):
        self.ctx, self.M, self.parts = ctx, M, (arr(U), arr(s), arr(V).T)

    def fn(self, a, full_matrices=True, *args, **k):
        self.ctx.eq(a, arr(self.M), "the given matrix is decomposed")
        u, s, vt = self.parts
        if full_matrices and u.shape[0] != vt.shape[1]:
            raise E.Inconclusive("full decomposition")
        return u.copy(), s.copy(), vt.copy()

    def __enter__(self):
        if W.MODE == "sym":
            self.ctx.svd_stub = self.fn
        else:
            self.old, np.linalg.svd = np.linalg.svd, self.fn

    def __exit__(self, *a):
        if W.MODE == "sym":
            self.ctx.svd_stub = None
        else:
            np.linalg.svd = self.old


def law(ctx, m, n, removed=0, alpha=False, damping=False, zeros_=0, pos=False):
    U, s, V, M = decomposition(ctx, m, n, zeros_)
    a = ctx.real("alpha", -2, 2, nonzero=True) if alpha else 0
    d = ctx.real("damping", 0, 2) if damping else 1
    A = arr(M)
    keep = A.copy()
    f = W.mod("pySC.utils.sc_tools").pinv
    with svd(ctx, U, s, V, M):
        if pos:
            out = f(A, removed, a, d)
        else:
            kw = {}
            if removed:
                kw["num_removed"] = removed
            if alpha:
                kw["alpha"] = a
            if damping:
                kw["damping"] = d
            out = f(A, **kw)
    ctx.eq(A, keep, "the matrix is left alone")
    k = min(m, n)
    used = range(min(k - removed, k - zeros_))
    want = zeros(n, m)
    for q in used:
        w = d * s[q] / (s[q] * s[q] + a * a) if alpha else d / s[q]
        for i in range(n):
            for j in range(m):
                want[i, j] = want[i, j] + V[i][q] * w * U[j][q]
    ctx.eq(out, want, "the largest singular values are inverted, regularised and damped; the others do not contribute")


def inverse(ctx, m, n):
    """with full rank and no options it inverts the matrix"""
    U, s, V, M = decomposition(ctx, m, n)
    with svd(ctx, U, s, V, M):
        out = W.mod("pySC.utils.sc_tools").pinv(arr(M))
    if m >= n:
        ctx.eq(np.dot(out, arr(M)), arr(np.eye(n)), "inverse of a matrix of full rank")
    else:
        ctx.eq(np.dot(arr(M), out), arr(np.eye(m)), "inverse of a matrix of full rank")


CASES = []
for m, n in ((2, 2), (3, 2), (2, 3), (3, 3)):
    t = f"{m}x{n}"
    CASES.append(Case(f"inverse-{t}", inverse, m=m, n=n))
    k = min(m, n)
    for r in range(k + 1):
        CASES.append(Case(f"removed{r}-{t}", law, m=m, n=n, removed=r))
        CASES.append(Case(f"options-removed{r}-{t}", law, m=m, n=n, removed=r, alpha=True, damping=True, pos=True))
    CASES += [Case(f"alpha-{t}", law, m=m, n=n, alpha=True), Case(f"damping-{t}", law, m=m, n=n, damping=True)]
    for z in range(1, k + 1):
        CASES.append(Case(f"rank{k - z}-{t}", law, m=m, n=n, zeros_=z))
        CASES.append(Case(f"rank{k - z}-removed1-{t}", law, m=m, n=n, zeros_=z, removed=1))
        CASES.append(Case(f"rank{k - z}-options-{t}", law, m=m, n=n, zeros_=z, alpha=True, damping=True))
