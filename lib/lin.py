"""Case split over the integers: linear facts with equalities solved and inequalities tightened."""
import os
from concurrent.futures import ProcessPoolExecutor
from math import gcd
import multiprocessing
from flow import *


class LinWorld(World):
    """as World, for integer-valued terms; monomials of higher degree count as variables of their own"""

    def __init__(self, alg, pre):
        super().__init__(alg, pre)
        self.subst = {}     # monomial -> {monomial: coefficient}
        self.ge = set()     # frozenset of (monomial, coefficient): sum >= 0
        self.ne = set()
        self.memo = {}

    # ---- polynomials as integer rows
    def row(self, p):
        d = 1
        for c in p.values():
            d = d * c.denominator // gcd(d, c.denominator)
        return self.norm({m: int(c * d) for m, c in p.items() if c})

    def norm(self, r):
        again = True
        while again:
            again = False
            for m in [m for m in r if m in self.subst]:
                c = r.pop(m)
                for k, v in self.subst[m].items():
                    r[k] = r.get(k, 0) + c * v
                again = True
            for m in [m for m in r if not r[m]]:
                del r[m]
        return r

    @staticmethod
    def tight(r):
        g = 0
        for m, c in r.items():
            if m:
                g = gcd(g, c)
        if g > 1:
            r = {m: (c // g if m else c // g) for m, c in r.items()}
        return {m: c for m, c in r.items() if c}

    def rat(self, x):
        return self.row(self.A.identities(dict(x.n)))

    # ---- facts
    def add_ge(self, r):
        r = self.tight(self.norm(dict(r)))
        if not any(m for m in r):
            if r.get(ONE, 0) < 0:
                raise Dead()
            return
        k = frozenset(r.items())
        if k not in self.ge:
            self.ge.add(k)
            self.memo = {}

    def add_eq(self, r):
        r = self.norm(dict(r))
        if not any(m for m in r):
            if r:
                raise Dead()
            return
        piv = [m for m in r if m and abs(r[m]) == 1]
        if not piv:
            self.add_ge(r)
            self.add_ge({m: -c for m, c in r.items()})
            return
        m = max(piv, key=lambda m: (mrank(m), m))
        c = r.pop(m)
        self.subst[m] = {k: -v * c for k, v in r.items()}
        for o in list(self.subst):
            if o != m:
                self.subst[o] = self.norm(dict(self.subst[o]))
        old, self.ge = self.ge, set()
        self.memo = {}
        for k in old:
            self.add_ge(dict(k))
        self.ne = {frozenset(self.norm(dict(k)).items()) for k in self.ne}
        if frozenset() in self.ne:
            raise Dead()

    def assume(self, x, S, tag="f"):
        r = self.rat(x)
        S = set(S)
        neg = {m: -c for m, c in r.items()}
        if S == {0}:
            self.add_eq(r)
        elif S == {0, 1}:
            self.add_ge(r)
        elif S == {1}:
            self.add_ge(self.plus(r, -1))
        elif S == {-1, 0}:
            self.add_ge(neg)
        elif S == {-1}:
            self.add_ge(self.plus(neg, -1))
        elif S == {-1, 1}:
            self.ne.add(frozenset(r.items()))
            self.memo = {}

    @staticmethod
    def plus(r, k):
        r = dict(r)
        r[ONE] = r.get(ONE, 0) + k
        return r

    def proves(self, r):
        """is r >= 0 in every case that satisfies the facts?"""
        r = self.tight(self.norm(dict(r)))
        if not any(m for m in r):
            return r.get(ONE, 0) >= 0
        key = frozenset(r.items())
        if key not in self.memo:
            neg = self.plus({m: -c for m, c in r.items()}, -1)
            self.memo[key] = self.infeasible([neg])
        return self.memo[key]

    def infeasible(self, extra):
        seen = set()
        for r in extra:
            seen |= {m for m in r if m}
        rel, pool = [self.tight(r) for r in extra], [dict(k) for k in self.ge]
        grow = True
        while grow:
            grow = False
            rest = []
            for r in pool:
                if any(m in seen for m in r):
                    rel.append(r)
                    seen |= {m for m in r if m}
                    grow = True
                else:
                    rest.append(r)
            pool = rest
        return self.fm(rel)

    def fm(self, rows, limit=600):
        best = {}

        def put(r):
            r = self.tight(r)
            c = r.pop(ONE, 0)
            if not r:
                return c >= 0
            k = frozenset(r.items())
            if k not in best or c < best[k]:
                best[k] = c
            return True
        for r in rows:
            if not put(dict(r)):
                return True
        while best:
            # contradictory pairs
            cnt = {}
            for k in best:
                for m, c in k:
                    a = cnt.setdefault(m, [0, 0])
                    a[c < 0] += 1
            m = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1], m))
            pos = [(k, c) for k, c in best.items() if any(x == m and v > 0 for x, v in k)]
            neg = [(k, c) for k, c in best.items() if any(x == m and v < 0 for x, v in k)]
            for k, _ in pos + neg:
                del best[k]
            for k, c in pos:
                p = dict(k)
                a = p.pop(m)
                for l, d in neg:
                    q = dict(l)
                    b = -q.pop(m)
                    r = {x: v * b for x, v in p.items()}
                    for x, v in q.items():
                        r[x] = r.get(x, 0) + v * a
                    r[ONE] = c * b + d * a
                    if not put({x: v for x, v in r.items() if v or not x}):
                        return True
            if len(best) > limit:
                return False
        return False

    def signs(self, r):
        """the signs r can have"""
        k = frozenset(r.items())
        if ("s", k) in self.memo:
            return self.memo[("s", k)]
        neg = {m: -c for m, c in r.items()}
        F = set()
        if not self.proves(r):
            F.add(-1)
        if not self.proves(neg):
            F.add(1)
        if k not in self.ne and frozenset(neg.items()) not in self.ne:
            if F == {-1, 1} or not (self.proves(self.plus(r, -1)) or self.proves(self.plus(neg, -1))):
                F.add(0)
        self.memo[("s", k)] = F
        return F

    def sign_in(self, x, S, tag="f"):
        r = self.rat(x)
        if not any(m for m in r):
            c = r.get(ONE, 0)
            return ((c > 0) - (c < 0)) in S
        F = self.signs(r)
        if not F:
            raise Dead()
        if F <= set(S):
            return True
        yes, no = F & set(S), F - set(S)
        if not yes:
            return False
        res = self.choose(2) == 0
        F = yes if res else no
        self.log.append("%s %s 0" % (pstr({m: Fr(c) for m, c in r.items()}, self.A)[:80],
                                     {(-1,): "<", (0,): "==", (1,): ">", (-1, 0): "<=", (0, 1): ">=", (-1, 1): "!="}[tuple(sorted(F))]))
        one = {m: Fr(c) for m, c in r.items()}
        self.assume(Rat(one, {ONE: Fr(1)}, self.A), F)
        return res

    def equal(self, x, y):
        r = self.rat(x - y)
        if not r:
            return True
        return self.proves(r) and self.proves({m: -c for m, c in r.items()})


_job = None


def _part(pre):
    alg, body, limit, world = _job
    todo, n, out = [pre], 0, []
    seen = set()
    while todo:
        w = world(alg, todo.pop())
        w.new = []
        n += 1
        if n > limit:
            raise AnalysisError("more than %d branches" % limit)
        try:
            r = body(w)
            k = repr([m for m, _ in r[0]]) + repr(r[1])
            if k not in seen:
                seen.add(k)
                out.append(r)
        except Dead:
            pass
        todo += w.alts
    return n, out


def pexplore(alg, body, limit=4000, world=World, want=64):
    """as explore, over several processes; body returns a picklable value; gives (branches, values)"""
    global _job
    todo, n, out = [[]], 0, []
    while todo and len(todo) < want:
        w = world(alg, todo.pop(0))
        w.new = []
        n += 1
        try:
            out.append(body(w))
        except Dead:
            pass
        todo += w.alts
    if todo:
        _job = (alg, body, limit, world)
        with ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=multiprocessing.get_context("fork")) as ex:
            for k, o in ex.map(_part, todo):
                n += k
                out += o
    return n, out
