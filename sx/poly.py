"""Rational-function normal form of z3 real terms: decides identities between quotients of polynomials that the
general solver finds hard.  COS(t)^2 is rewritten to 1 - SIN(t)^2 and r^2 of a square root to its argument.
Sound for proving `t == 0` wherever t is defined; never used to conclude the opposite."""
import time
from fractions import Fraction

import z3


class TooBig(Exception):
    pass


class Normal:
    def __init__(self, square_of=None, limit=40000, seconds=20.0):
        self.square_of = square_of or {}      # atom name -> z3 term of its square
        self.atoms, self.by_id = [], {}
        self.memo = {}
        self.factors, self.findex = [], {}
        self.limit, self.stop = limit, time.time() + seconds
        self.rewrite = {}                     # atom -> polynomial of its square

    # -- polynomials: dict monomial -> Fraction, monomial = tuple of (atom, exponent) sorted
    def _atom(self, t):
        i = t.get_id()
        if i not in self.by_id:
            self.by_id[i] = len(self.atoms)
            self.atoms.append(t)
            a = self.by_id[i]
            if z3.is_app(t) and t.decl().name() == "COS":
                s = self._atom(SIN(t.arg(0)))
                self.rewrite[a] = {(): Fraction(1), ((s, 2),): Fraction(-1)}
            elif z3.is_const(t) and t.decl().name() in self.square_of:
                n, d = self.norm(self.square_of[t.decl().name()])
                if not d:
                    self.rewrite[a] = n
        return self.by_id[i]

    def _check(self, p):
        if len(p) > self.limit or time.time() > self.stop:
            raise TooBig
        return p

    def padd(self, p, q, k=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return self._check(r)

    def pmul(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self._mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
            self._check(r)
        return self._reduce(r)

    @staticmethod
    def _mmul(a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for x, e in b:
            d[x] = d.get(x, 0) + e
        return tuple(sorted(d.items()))

    def _reduce(self, p):
        if not self.rewrite:
            return p
        while True:
            hit = None
            for m in p:
                hit = next(((m, a, e) for a, e in m if e > 1 and a in self.rewrite), None)
                if hit:
                    break
            if not hit:
                return p
            out, extra = {}, {}
            for m, c in p.items():
                h = next(((a, e) for a, e in m if e > 1 and a in self.rewrite), None)
                if h is None:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                    continue
                a, e = h
                rest = tuple((x, y) if x != a else (x, y - 2) for x, y in m if x != a or y > 2)
                for m2, c2 in self.rewrite[a].items():
                    mm = self._mmul(rest, m2)
                    v = out.get(mm, 0) + c * c2
                    if v:
                        out[mm] = v
                    else:
                        out.pop(mm, None)
            p = self._check(out)

    # -- rational functions: (numerator, {factor index: exponent})
    def _factor(self, p):
        """intern p as a denominator factor; returns (index or None, constant)"""
        if len(p) == 1 and () in p:
            return None, p[()]
        lead = min(p)
        c = p[lead]
        key = tuple(sorted((m, v / c) for m, v in p.items()))
        if key not in self.findex:
            self.findex[key] = len(self.factors)
            self.factors.append({m: v / c for m, v in p.items()})
        return self.findex[key], c

    def _lift(self, n, d, target):
        for f, e in target.items():
            for _ in range(e - d.get(f, 0)):
                n = self.pmul(n, self.factors[f])
        return n

    def radd(self, x, y, k=1):
        (n1, d1), (n2, d2) = x, y
        d = dict(d1)
        for f, e in d2.items():
            d[f] = max(d.get(f, 0), e)
        n = self.padd(self._lift(n1, d1, d), self._lift(n2, d2, d), k)
        return self._cancel(n, d)

    def rmul(self, x, y):
        d = dict(x[1])
        for f, e in y[1].items():
            d[f] = d.get(f, 0) + e
        return self._cancel(self.pmul(x[0], y[0]), d)

    def _cancel(self, n, d):
        """cancel monomial factors and exact multiples only"""
        if not n:
            return n, {}
        for f in list(d):
            F = self.factors[f]
            while d.get(f):
                if len(F) == 1:
                    (m, c), = F.items()
                    q = {}
                    for mm, cc in n.items():
                        dd = dict(mm)
                        ok = all(dd.get(a, 0) >= e for a, e in m)
                        if not ok:
                            q = None
                            break
                        for a, e in m:
                            dd[a] -= e
                        q[tuple(sorted((a, e) for a, e in dd.items() if e))] = cc / c
                elif len(F) == len(n):
                    lead = min(n)
                    r = n[lead] / F[lead] if lead in F else None
                    q = {(): r} if r is not None and all(m in F and F[m] * r == c for m, c in n.items()) else None
                else:
                    q = None
                if q is None:
                    break
                n = q
                d[f] -= 1
            if not d.get(f):
                d.pop(f, None)
        return n, d

    def rinv(self, x):
        n, d = x
        if not n:
            raise TooBig
        num = {(): Fraction(1)}
        for f, e in d.items():
            for _ in range(e):
                num = self.pmul(num, self.factors[f])
        f, c = self._factor(n)
        num = {m: v / c for m, v in num.items()}
        return self._cancel(num, {} if f is None else {f: 1})

    def norm(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is None:
            r = (t, self._norm(t))
            self.memo[i] = r
        return r[1]

    def _norm(self, t):
        if time.time() > self.stop:
            raise TooBig
        if z3.is_rational_value(t):
            c = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return ({(): c} if c else {}), {}
        k, ch = t.decl().kind(), t.children()
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.radd(r, self.norm(c), 1 if k == z3.Z3_OP_ADD else -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            n, d = self.norm(ch[0])
            return {m: -c for m, c in n.items()}, d
        if k == z3.Z3_OP_MUL:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.rmul(r, self.norm(c))
            return r
        if k == z3.Z3_OP_DIV:
            return self.rmul(self.norm(ch[0]), self.rinv(self.norm(ch[1])))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() <= 12:
            b, r = self.norm(ch[0]), ({(): Fraction(1)}, {})
            for _ in range(ch[1].numerator_as_long()):
                r = self.rmul(r, b)
            return r
        return {((self._atom(t), 1),): Fraction(1)}, {}


SIN = z3.Function("SIN", z3.RealSort(), z3.RealSort())


def is_zero(t, square_of=None, limit=40000, seconds=20.0):
    """True: t == 0 identically;  None: not decided"""
    try:
        n, _ = Normal(square_of, limit, seconds).norm(t)
    except TooBig:
        return None
    return True if not n else None


def has_quotient(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_DIV or x.decl().name() in ("COS", "SIN") or x.decl().name().startswith("_sqrt"):
            return True
        todo += x.children()
    return False


def _term(N, p):
    ts = []
    for m, c in p.items():
        f = [z3.RealVal(str(c))] if c != 1 or not m else []
        for a, e in m:
            f += [N.atoms[a]] * e
        ts.append(z3.Product(*f) if len(f) > 1 else f[0])
    return z3.Sum(*ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)


def signed(t, square_of=None, limit=400, seconds=3.0):
    """a polynomial term with the sign of t (wherever t is defined), or None"""
    N = Normal(square_of, limit, seconds)
    try:
        n, d = N.norm(t)
        for f, e in d.items():
            if e % 2:
                n = N.pmul(n, N.factors[f])
    except TooBig:
        return None
    return _term(N, n)


_CMP = {z3.Z3_OP_LE: lambda a: a <= 0, z3.Z3_OP_LT: lambda a: a < 0, z3.Z3_OP_GE: lambda a: a >= 0, z3.Z3_OP_GT: lambda a: a > 0, z3.Z3_OP_EQ: lambda a: a == 0}


def has_div(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_DIV:
            return True
        todo += x.children()
    return False


def unquotient(f, square_of=None):
    """comparisons of quotients rewritten to comparisons of polynomials (equivalent where the quotients are defined)"""
    k = f.decl().kind()
    ch = f.children()
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
        r = [unquotient(c, square_of) for c in ch]
        return z3.And(*r) if k == z3.Z3_OP_AND else z3.Or(*r) if k == z3.Z3_OP_OR else z3.Not(r[0])
    if k in _CMP and ch[0].sort() == z3.RealSort() and has_div(f):
        p = signed(ch[0] - ch[1], square_of)
        if p is not None:
            return _CMP[k](p)
    return f
