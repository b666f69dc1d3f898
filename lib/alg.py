"""Exact algebra for the numeric properties: rational functions over input atoms and opaque
function terms, with the identities sqrt(t)^2 = t and sin(t)^2 = 1 - cos(t)^2.  Equality is decided
by a normal form (expand, apply the identities, reduce by the equalities assumed on the path)."""
from fractions import Fraction as Fr

ONE = ()


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m, c in a.items():
        for n, k in b.items():
            x = mmul(m, n)
            v = r.get(x, 0) + c * k
            if v:
                r[x] = v
            else:
                r.pop(x, None)
    return r


def pconst(p):
    if not p:
        return Fr(0)
    if len(p) == 1 and ONE in p:
        return p[ONE]
    return None


def key(p):
    return tuple(sorted(p.items()))


class Alg:
    """the atoms of one analysis: name -> (kind, args)"""

    def __init__(self):
        self.kind = {}
        self.by = {}

    def atom(self, name):
        self.kind.setdefault(name, ("in", ()))
        return Rat({((name, 1),): Fr(1)}, {ONE: Fr(1)}, self)

    def const(self, c):
        c = Fr(c)
        return Rat({ONE: c} if c else {}, {ONE: Fr(1)}, self)

    def term(self, kind, args):
        """an opaque function term; equal arguments give the same term"""
        for nm, ar in self.by.get(kind, []):
            if len(ar) == len(args) and all(a.eq(b) if isinstance(a, Rat) else a == b for a, b in zip(ar, args)):
                return Rat({((nm, 1),): Fr(1)}, {ONE: Fr(1)}, self)
        nm = "%s#%d" % (kind, len(self.by.get(kind, [])))
        self.by.setdefault(kind, []).append((nm, args))
        self.kind[nm] = (kind, args)
        return Rat({((nm, 1),): Fr(1)}, {ONE: Fr(1)}, self)

    def sqrt(self, x):
        c = x.cval()
        if c is not None and c >= 0:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return self.const(Fr(n, d))
        for k in (0, 1):
            if x.eq(self.const(k)):
                return self.const(k)
        return self.term("sqrt", (x,))

    def identities(self, p):
        """p rewritten (up to a non-zero factor) so that no sqrt or sin occurs twice in a monomial"""
        while True:
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2 and self.kind.get(a, ("in",))[0] in ("sqrt", "sin"):
                        hit = a
                        break
                if hit:
                    break
            if not hit:
                return p
            kind, args = self.kind[hit]
            if kind == "sqrt":
                num, den = args[0].n, args[0].d
            else:
                c = self.term("cos", args)
                num, den = padd({ONE: Fr(1)}, pmul(c.n, c.n), -1), {ONE: Fr(1)}
            top = max((e for m in p for a, e in m if a == hit), default=0) // 2
            np, dp = [{ONE: Fr(1)}], [{ONE: Fr(1)}]
            for _ in range(top):
                np.append(pmul(np[-1], num))
                dp.append(pmul(dp[-1], den))
            r = {}
            for m, c in p.items():
                d = dict(m)
                e = d.pop(hit, 0)
                if e % 2:
                    d[hit] = 1
                t = pmul({tuple(sorted(d.items())): c}, pmul(np[e // 2], dp[top - e // 2]))
                r = padd(r, t)
            p = r


def divides(m, n):
    d = dict(n)
    return all(d.get(a, 0) >= e for a, e in m)


def mdiv(n, m):
    d = dict(n)
    for a, e in m:
        d[a] -= e
        if not d[a]:
            del d[a]
    return tuple(sorted(d.items()))


def mrank(m):
    return (sum(e for _, e in m), m)


class Rat:
    __slots__ = ("n", "d", "A")

    def __init__(self, n, d, A):
        c = pconst(d)
        if c is not None and c != 1:
            n = {m: v / c for m, v in n.items()}
            d = {ONE: Fr(1)}
        self.n, self.d, self.A = n, d, A

    def _c(self, o):
        return o if isinstance(o, Rat) else self.A.const(o)

    def cval(self):
        if pconst(self.d) is not None:
            return pconst(self.n)
        return None

    def __add__(self, o, k=1):
        o = self._c(o)
        if self.d == o.d:
            return Rat(padd(self.n, o.n, k), self.d, self.A)
        return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d), k), pmul(self.d, o.d), self.A)

    __radd__ = __add__

    def __sub__(self, o):
        return self.__add__(o, -1)

    def __rsub__(self, o):
        return self._c(o) - self

    def __neg__(self):
        return Rat({m: -c for m, c in self.n.items()}, self.d, self.A)

    def __mul__(self, o):
        o = self._c(o)
        if self.n == o.d and self.n:
            return Rat(o.n, self.d, self.A)
        if o.n == self.d and o.n:
            return Rat(self.n, o.d, self.A)
        return Rat(pmul(self.n, o.n), pmul(self.d, o.d), self.A)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._c(o)
        if not o.n:
            return self.A.term("div0", (self,))
        return self * Rat(o.d, o.n, self.A)

    def __rtruediv__(self, o):
        return self._c(o) / self

    def diff(self, o):
        o = self._c(o)
        if self.d == o.d:
            p = padd(self.n, o.n, -1)
        else:
            p = padd(pmul(self.n, o.d), pmul(o.n, self.d), -1)
        return self.A.identities(p)

    def eq(self, o, zeros=()):
        p = self.diff(o)
        if not p:
            return True
        if zeros:
            p = reduce(p, zeros, self.A)
        return not p

    def near(self, o, tol=Fr(1, 10**5), zeros=()):
        """equal up to the rounding of the constants in the source"""
        p = self.diff(o)
        if zeros:
            p = reduce(p, zeros, self.A)
        if not p:
            return True
        o = self._c(o)
        top = max([abs(c) for q in (self.n, o.n) for c in q.values()] + [Fr(1)])
        return all(abs(c) <= tol * top for c in p.values())

    def __str__(self):
        s = pstr(self.n, self.A)
        return s if pconst(self.d) is not None else "(%s)/(%s)" % (s, pstr(self.d, self.A))


def reduce(p, zeros, A):
    """p modulo the polynomials known to be zero"""
    for _ in range(40):
        before = p
        for z in zeros:
            lead = max(z, key=mrank)
            if not lead:
                continue
            while True:
                hit = [m for m in p if divides(lead, m)]
                if not hit:
                    break
                m = max(hit, key=mrank)
                p = padd(p, pmul({mdiv(m, lead): Fr(1)}, z), -p[m] / z[lead])
            p = A.identities(p)
        if p == before:
            break
    return p


def aname(a, A):
    k = A.kind.get(a, ("in",))
    if k[0] == "in":
        return a
    return "%s(%s)" % (k[0], ", ".join(str(x) for x in k[1]))


def pstr(p, A):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items())[:12]:
        t = "*".join(aname(a, A) + ("^%d" % e if e > 1 else "") for a, e in m)
        c = float(c) if c.denominator != 1 else c.numerator
        out.append("%s" % c if not t else t if c == 1 else "-" + t if c == -1 else "%s*%s" % (c, t))
    return " + ".join(out) + (" + ..." if len(p) > 12 else "")
