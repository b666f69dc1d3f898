"""Byte strings: content of byte arrays, views into foreign bytes."""
from specs import *


class StrModel(ContModel):
    """bytes are elements of size one; a stored byte is an element named by its value"""
    S = 1

    def __init__(self):
        super().__init__(True)
        self.h(r"^rpp::Libc::memcmp", lambda e, st, I, a: self.cmp(e, st, I, "memcmp", a))
        self.h(r"^rpp::Libc::strncmp", lambda e, st, I, a: self.cmp(e, st, I, "strncmp", a))

    def cmp(self, e, st, I, what, a):
        p, q, n = [st.norm(x) for x in a]
        for x in (p, q):
            b, o = split_addr(x)
            if b is not None:
                self.check_access(st, b, o, n, I, what)
        return [(st, P(term(what, p, q, n)))]

    def on_store(self, eng, st, base, off, size, v, inst):
        super().on_store(eng, st, base, off, size, v, inst)
        if size == 1 and self.tracked(st, base) and isinstance(v, Poly):
            old = []
            for k in self.keys(st, base):
                c = self.clip(st, st.meas[k], off, off + 1)
                if c:
                    old.append((k, c))
            for k, c in old:
                self.addraw(st, k, c, -1)
            self.addraw(st, ("c", P(base), "L", self.byte_tag(st, v, off)), {off: 1, off + 1: -1}, 1)
            return True
        return False

    def byte_tag(self, st, v, off):
        t = bare(st.norm(v))
        if isinstance(t, Term) and t.op == "byte":
            b, o = split_addr(t.args[0])
            return ("o", b, o - off)
        return (("k", st.norm(v)), None, ZERO)

    def on_load(self, eng, st, base, off, size, ty, inst):
        super().on_load(eng, st, base, off, size, ty, inst)
        if size == 1 and self.tracked(st, base):
            for k in self.keys(st, base):
                c = 0
                for q, w in st.meas[k].items():
                    if st.ent(off - q):
                        c += w
                    elif not st.ent(q - off - 1):
                        c = None
                        break
                if c:
                    kind, ob, delta = k[3]
                    if isinstance(kind, tuple):
                        return kind[1]
                    if ob is not None:
                        return P(term("byte", P(ob) + st.norm(off + delta), nn=True, ub=255))
        return None


def byte(p):
    return P(term("byte", p, nn=True, ub=255))


class ViewShape:
    """a pointer and a length into bytes owned elsewhere"""

    def __init__(self, rec, S=1):
        self.S, self.f_data, self.f_len = S, fld(rec, "data_", 0), fld(rec, "length_", 1)

    def fields(self, eng, st, base):
        return (st.norm(eng.load(st, P(base) + self.f_data, 8, "ptr")), st.norm(eng.load(st, P(base) + self.f_len, 8, "i64")))

    def init(self, eng, st, base, model, al="0", pre=None):
        st = st.copy()
        d, l = self.fields(eng, st, base)
        out = []
        for s in st.assume(c_eq(l)):
            for s in s.assume(c_eq(d)):
                out.append(("null", s.copy(), []))
        for s in st.assume(c_ge(d - 1)):
            s = s.assume1(c_ge(l)).copy().assume1(c_ge(P(1 << 60) - l)).copy()
            db = split_addr(d)[0]
            s.ts[("buf", db)] = "ext"
            s.ts[("size", db)] = l * self.S
            segs = [Seg(l, "o", db, 0)]
            for k, dd in expected(self.S, db, segs).items():
                s.meas[k] = dd
            out.append(("bytes", s, segs))
        return out

    def keep(self, model, segs):
        return [x for g in segs for x in ivals(self.S, g.base, g, ZERO)]


class StrShape(VecShape):
    def final(self, eng, st, base, segs, al="0"):
        return [(s, pb, ow, [x for x in iv if x[0][3][0] != "?"]) for s, pb, ow, iv in super().final(eng, st, base, segs, al)]


def inst(st, addr):
    """what earlier loop iterations established about the byte at addr: [states]"""
    sts = [st]
    for key, v in list(st.ts.items()):
        if not (isinstance(key, tuple) and key[0] == "all"):
            continue
        k, (K, alts) = key[1], v
        kk = None
        for fs, ns in alts:
            for f in list(fs) + list(ns):
                for t in deep_terms(f):
                    if t.op == "byte":
                        p = t.args[0] if isinstance(t.args[0], Poly) else P(t.args[0])
                        c = p.t.get((k,), 0)
                        if c in (1, -1):
                            rest = p - P(k) * c
                            x = (addr - rest) * c
                            if not deep_terms(st.norm(x)) & {k} and split_addr(st.norm(x))[0] is None:
                                kk = st.norm(x)
        if kk is None:
            continue
        nxt = []
        for s in sts:
            for s1 in s.assume(c_and(c_ge(kk), c_ge(K - 1 - kk))):
                for fs, ns in alts:
                    w = [s1]
                    for f in fs:
                        w = [y for x in w for y in x.assume(c_ge(subst(f, {k: kk})))]
                    for q in ns:
                        w = [y for x in w for y in x.assume(c_ne(subst(q, {k: kk})))]
                    nxt += w
            for s1 in s.assume(c_not(c_and(c_ge(kk), c_ge(K - 1 - kk)))):
                nxt.append(s1)
        sts = nxt
    return sts


def prove_all(st, lo, hi, addr, goal):
    """goal(state, j) for every lo <= j < hi; addr(j): the byte whose tests matter"""
    j = P(fresh("j", nn=True))
    sts = [x for a in st.assume(c_ge(j - lo)) for x in a.assume(c_ge(hi - 1 - j))]
    for s in sts:
        for x in inst(s, addr(j)):
            if not goal(x, j):
                return False
    return True


def offsets_tested(st, base):
    """indices of base's bytes that this path compared"""
    out = []
    for f in list(st.facts) + list(st.neqs):
        for t in deep_terms(f):
            if t.op == "byte":
                b, o = split_addr(st.norm(t.args[0] if isinstance(t.args[0], Poly) else P(t.args[0])))
                if b is not None and P(b) == base and o not in out:
                    out.append(o)
    return out


def decide_eq(st, rv, l, r):
    """(problem|None) for an equality result on this path; l, r = (data, length)"""
    if rv not in (True, False):
        raise AnalysisError("undetermined result")
    same_len = st.decide(c_eq(l[1] - r[1]))
    n = l[1]
    if rv:
        if same_len is not True:
            return "equal although the lengths may differ"
        if st.eq0(n):
            return None
        for a, b in ((l[0], r[0]), (r[0], l[0])):
            for m in (n, r[1]):
                if st.eq0(P(term("memcmp", st.norm(a), st.norm(b), st.norm(m)))):
                    return None
        if prove_all(st, ZERO, n, lambda j: l[0] + j, lambda x, j: x.eq0(byte(l[0] + j) - byte(r[0] + j))):
            return None
        return "equal although not every byte was compared"
    if same_len is False:
        return None
    for a, b in ((l[0], r[0]), (r[0], l[0])):
        for m in (n, r[1]):
            if st.decide(c_eq(P(term("memcmp", st.norm(a), st.norm(b), st.norm(m))))) is False:
                return None
    for t in offsets_tested(st, l[0]):
        if st.decide(c_eq(byte(l[0] + t) - byte(r[0] + t))) is False and st.ent(n - 1 - t) and st.ent(t):
            return None
    return "different although neither length nor a byte is known to differ"


def decide_lt(st, rv, l, r):
    if rv not in (True, False):
        raise AnalysisError("undetermined result")
    a, b = (l, r) if rv else (r, l)
    eq = lambda hi: prove_all(st, ZERO, hi, lambda j: l[0] + j, lambda x, j: x.eq0(byte(l[0] + j) - byte(r[0] + j)))
    # a prefix of the other
    if st.ent(b[1] - a[1] - 1) or (not rv and st.ent(b[1] - a[1])):
        if st.eq0(a[1]) or eq(a[1]):
            return None
    for t in offsets_tested(st, l[0]) + [ZERO]:
        if st.ent(byte(b[0] + t) - byte(a[0] + t) - 1) and st.ent(t) and st.ent(l[1] - 1 - t) and st.ent(r[1] - 1 - t) and eq(t):
            return None
    return "the result %s is not established by a first difference or a prefix" % rv


def is_one_of(st, v, vals):
    """does v surely equal one of vals on this path?"""
    for x in vals:
        if st.eq0(v - x):
            return True
    s = [st]
    for x in vals:
        s = [y for z in s for y in z.assume(c_ne(v - x))]
    return not s


def decide_suffix(st, d, n, od, on, seps, remove=False):
    if remove:
        if not st.eq0(od - d) and not st.eq0(on):
            return "result does not start at the beginning"
        i = on
    else:
        if st.eq0(n):
            return None if st.eq0(on) else "result of an empty view has length %r" % (on,)
        i = st.norm(od - d)
        if not st.eq0(on - (n - i)):
            return "result of length %r at %r does not reach the end" % (on, i)
    if not (st.ent(i) and st.ent(n - i)):
        return "split position %r outside the view" % (i,)
    if not prove_all(st, i, n, lambda j: d + j, lambda x, j: all(x.decide(c_eq(byte(d + j) - c)) is False for c in seps)):
        return "a separator may remain after position %r" % (i,)
    if st.eq0(i):
        return None
    for s in st.assume(c_ge(i - 1)):
        if not is_one_of(s, byte(d + i - 1), seps):
            return "position %r does not follow a separator" % (i,)
    return None
