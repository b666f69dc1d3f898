"""Hash-consed terms, polynomials over them, and a small polyhedra entailment procedure
(Fourier-Motzkin elimination).  Pure Python, no solver."""
from fractions import Fraction
from functools import lru_cache

_terms = {}
_tid = [0]


class Term:
    __slots__ = ("op", "args", "id", "ptr", "nn", "ub")

    def __repr__(self):
        if not self.args:
            return str(self.op)
        return "%s(%s)" % (self.op, ",".join(str(a) for a in self.args))


def term(op, *args, ptr=False, nn=False, ub=None):
    key = (op, args)
    t = _terms.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.id = _tid[0]
        t.ptr = ptr
        t.nn = nn or ptr
        t.ub = ub
        _tid[0] += 1
        _terms[key] = t
    return t


_fresh = [0]


def fresh(hint, ptr=False, nn=False, ub=None):
    _fresh[0] += 1
    return term("%s#%d" % (hint, _fresh[0]), ptr=ptr, nn=nn, ub=ub)


def mark():
    return _tid[0]


class Poly:
    __slots__ = ("t", "_h", "_terms")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._terms = None

    # construction
    @staticmethod
    def const(c):
        if c == 0:
            return ZERO
        return Poly({(): c})

    @staticmethod
    def sym(t):
        return Poly({(t,): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n == 0:
                r.pop(m, None)
            else:
                r[m] = n
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    m = tuple(sorted(m1 + m2, key=_tkey))
                n = r.get(m, 0) + c1 * c2
                if n == 0:
                    r.pop(m, None)
                else:
                    r[m] = n
        return Poly(r)

    __rmul__ = __mul__

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def terms(self):
        if self._terms is None:
            s = set()
            for m in self.t:
                s.update(m)
            self._terms = frozenset(s)
        return self._terms

    def linear_coeff(self, t):
        return self.t.get((t,), 0)

    def div_exact(self, c):
        """self / c if every coefficient is divisible, else None"""
        r = {}
        for m, k in self.t.items():
            if isinstance(k, Fraction):
                return None
            if k % c:
                return None
            r[m] = k // c
        return Poly(r)

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: tuple(a.id for a in x[0])):
            ms = "*".join(str(x) for x in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append("-" + ms)
            else:
                out.append("%s*%s" % (c, ms))
        return " + ".join(out).replace("+ -", "- ")


def _tkey(t):
    return t.id


ZERO = Poly({})
ONE = Poly({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Term):
        return Poly.sym(x)
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    raise TypeError(repr(x))


# ---- deep structure ---------------------------------------------------------------------------

_deep = {}


def deep_terms(x):
    """all terms occurring anywhere (also nested) in a Poly / Term / cond / tuple"""
    if isinstance(x, Term):
        r = _deep.get(x)
        if r is None:
            s = {x}
            for a in x.args:
                s |= deep_terms(a)
            r = frozenset(s)
            _deep[x] = r
        return r
    if isinstance(x, Poly):
        s = set()
        for t in x.terms():
            s |= deep_terms(t)
        return s
    if isinstance(x, tuple):
        s = set()
        for a in x:
            s |= deep_terms(a)
        return s
    return frozenset()


def subst(x, sm):
    """substitute terms by polys, deeply"""
    if not sm:
        return x
    if isinstance(x, Poly):
        hit = False
        for t in x.terms():
            if t in sm or not deep_terms(t).isdisjoint(sm):
                hit = True
                break
        if not hit:
            return x
        r = ZERO
        for m, c in x.t.items():
            p = Poly.const(c)
            for t in m:
                p = p * subst_term(t, sm)
            r = r + p
        return r
    if isinstance(x, tuple):
        return tuple(bare(subst_term(a, sm)) if isinstance(a, Term) else subst(a, sm) for a in x)
    if isinstance(x, Term):
        return subst_term(x, sm)
    return x


def bare(p):
    """a Poly that is just a term, as the term"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1:
            return m[0]
    return p


_simplifiers = {}


def simplifier(op):
    def d(f):
        _simplifiers[op] = f
        return f
    return d


def subst_term(t, sm):
    if t in sm:
        return sm[t]
    if not t.args or deep_terms(t).isdisjoint(sm):
        return P(t)
    args = []
    for a in t.args:
        if isinstance(a, Term):
            a = subst_term(a, sm)
            # keep a bare term where a bare term was
            if len(a.t) == 1:
                (m, c), = a.t.items()
                if c == 1 and len(m) == 1:
                    a = m[0]
        else:
            a = subst(a, sm)
        args.append(a)
    f = _simplifiers.get(t.op)
    if f:
        r = f(*args)
        if r is not None:
            return r
    return P(term(t.op, *args, ptr=t.ptr, nn=t.nn, ub=t.ub))


# ---- polyhedra entailment ---------------------------------------------------------------------

from math import gcd


def _norm_row(row):
    """row: (dict mono->int, const) meaning sum + const >= 0; integer-tighten"""
    d, c = row
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = c // g  # floor: integer tightening
    return d, c


def _implicit(ps):
    """rows for the sign / upper-bound attributes of the monomials in ps"""
    rows = []
    seen = set()
    for p in ps:
        for m in p.t:
            if m and m not in seen:
                seen.add(m)
                if all(t.nn for t in m):
                    rows.append(({m: 1}, 0))
                if len(m) == 1 and m[0].ub is not None:
                    rows.append(({m: -1}, m[0].ub))
    return rows


def _to_row(p):
    d = {}
    c = 0
    den = 1
    for m, k in p.t.items():
        if isinstance(k, Fraction):
            den = den * k.denominator // gcd(den, k.denominator)
    for m, k in p.t.items():
        k = int(k * den)
        if m == ():
            c = k
        else:
            d[m] = k
    return _norm_row((d, c))


LIMIT = 400


def infeasible(rows):
    """True when the conjunction of rows (>= 0) has no integer solution that rational reasoning with
    integer tightening can exclude.  Sound: True is only returned when infeasible."""
    cur = {}

    def add(d, c):
        if not d:
            return c < 0
        key = frozenset(d.items())
        o = cur.get(key)
        if o is None or c < o[1]:
            cur[key] = (d, c)
        # opposite row
        return False

    for d, c in rows:
        d, c = _norm_row((d, c))
        if add(d, c):
            return True
    while True:
        allv = {}
        for d, c in cur.values():
            for v, k in d.items():
                pn = allv.setdefault(v, [0, 0])
                pn[0 if k > 0 else 1] += 1
        if not allv:
            return False
        best = None
        for v, (p, n) in allv.items():
            cost = p * n - p - n
            if best is None or cost < best[0]:
                best = (cost, v)
        v = best[1]
        pos, neg, rest = [], [], {}
        for key, (d, c) in cur.items():
            k = d.get(v, 0)
            if k > 0:
                pos.append((d, c, k))
            elif k < 0:
                neg.append((d, c, -k))
            else:
                rest[key] = (d, c)
        cur = rest
        for d1, c1, k1 in pos:
            for d2, c2, k2 in neg:
                g = gcd(k1, k2)
                a, b = k2 // g, k1 // g
                d = {}
                for m, x in d1.items():
                    if m != v:
                        d[m] = a * x
                for m, x in d2.items():
                    if m != v:
                        n = d.get(m, 0) + b * x
                        if n == 0:
                            d.pop(m, None)
                        else:
                            d[m] = n
                dd, cc = _norm_row((d, a * c1 + b * c2))
                if add(dd, cc):
                    return True
        if len(cur) > LIMIT:
            return False


_ent_cache = {}


def relevant(facts, seed):
    """facts transitively sharing monomials with seed"""
    vars_ = set(m for m in seed.t if m)
    pending = list(facts)
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for f in pending:
            ms = [m for m in f.t if m]
            if not ms:
                if f.cval() < 0:
                    out.append(f)
                continue
            if any(m in vars_ for m in ms):
                out.append(f)
                vars_.update(ms)
                changed = True
            else:
                rest.append(f)
        pending = rest
    return out


def entails(facts, q):
    """facts (tuple of Polys, each >= 0) |= q >= 0 over the integers"""
    if q.is_const():
        if q.cval() >= 0:
            return True
    key = (facts, q)
    r = _ent_cache.get(key)
    if r is None:
        rel = relevant(facts, q)
        rows = [_to_row(f) for f in rel]
        rows.append(_to_row(-q - 1))
        rows += _implicit(rel + [q])
        r = infeasible(rows)
        if len(_ent_cache) > 400000:
            _ent_cache.clear()
        _ent_cache[key] = r
    return r


def contradictory(facts, p=None):
    rel = relevant(facts, p) if p is not None else list(facts)
    rows = [_to_row(f) for f in rel] + _implicit(rel)
    return infeasible(rows)


@simplifier("div")
def _div(a, c):
    a = P(a)
    c = c.cval() if isinstance(c, Poly) else c
    if a.is_const() and a.cval() >= 0:
        return P(a.cval() // c)
    return a.div_exact(c)
