"""Sequence containers: symbolic initial states, layout of a sequence in storage, final-state obligations."""
from cont import *
from build import *


def leaves(rec):
    """fields without subfields, in layout order"""
    ks = [k for k in rec if not any(o.startswith(k + ".") for o in rec)]
    return sorted(ks, key=lambda k: rec[k][0])


def fld(rec, name, ordinal):
    """offset of a (private) field, by name or, when it was renamed, by position"""
    for k in rec:
        if k.split(".")[-1] == name and k in leaves(rec):
            return rec[k][0]
    l = leaves(rec)
    if ordinal >= len(l):
        raise BuildError("no field %s (or number %d) among %s" % (name, ordinal, l))
    return rec[l[ordinal]][0]


class Case:
    """one symbolic input case of an operation"""

    def __init__(self, label, st, objs):
        self.label, self.st, self.objs = label, st, objs


def layout_measure(st, S, b, segs, pieces):
    """lay the logical sequence `segs` out over storage pieces [(byte offset, count)]: [(state, measure)]"""
    out = []

    def go(st, segs, pieces, meas):
        segs = list(segs)
        while segs:
            g = segs[0]
            gn = st.norm(g.n)
            z = st.decide(c_eq(gn))
            if z is None:
                for c in (c_eq(gn), c_ge(gn - 1)):
                    for s in st.assume(c):
                        go(s.copy(), segs, pieces, meas)
                return
            if z:
                segs = segs[1:]
                continue
            if not pieces:
                out.append((st, None))
                return
            off, n = pieces[0]
            d = st.decide(c_ge(n - gn))
            if d is None:
                for c in (c_ge(n - gn), c_ge(gn - n - 1)):
                    for s in st.assume(c):
                        go(s.copy(), segs, pieces, meas)
                return
            if d:
                meas = meas + ivals(S, b, Seg(gn, g.kind, g.base, g.pos), off)
                pieces = [(off + gn * S, n - gn)] + pieces[1:]
                segs = segs[1:]
            else:
                meas = meas + ivals(S, b, Seg(n, g.kind, g.base, g.pos), off)
                segs = [Seg(gn - n, g.kind, g.base, g.pos + (n * S if g.base is not None else 0))] + segs[1:]
                pieces = pieces[1:]
        out.append((st, meas))
    go(st, segs, pieces, [])
    return out


def ivals(S, b, g, off):
    """[(content key, first byte, past the last byte)] of one segment at byte offset off"""
    tag = (g.kind, g.base, g.pos - off) if g.base is not None else (g.kind, None, ZERO)
    return [(("c", P(b), "L", tag), P(off), P(off) + g.n * S)]


def to_meas(iv):
    out = {}
    for k, lo, hi in iv:
        d = out.setdefault(k, {})
        d[lo] = d.get(lo, 0) + 1
        d[hi] = d.get(hi, 0) - 1
    return out


class VecShape:
    name = "Vec"
    anon = None

    def __init__(self, rec, S):
        self.rec, self.S = rec, S
        self.f_data, self.f_len, self.f_cap = [fld(rec, n, i) for i, n in enumerate(("data_", "length_", "capacity_"))]

    def fields(self, eng, st, base):
        b = P(base)
        return (st.norm(eng.load(st, b + self.f_data, 8, "ptr")), st.norm(eng.load(st, b + self.f_len, 8, "i64")),
                st.norm(eng.load(st, b + self.f_cap, 8, "i64")))

    def init(self, eng, st, base, model, al="0", pre=None):
        """[(label, state, segs)]"""
        st = st.copy()
        d, l, c = self.fields(eng, st, base)
        out = []
        for q in (l, c - l):
            st = st.assume1(c_ge(q))
        for s in st.assume(c_eq(c)):
            for s in s.assume(c_eq(d)):
                out.append(("unallocated", s.copy(), []))
        for s in st.assume(c_ge(c - 1)):
            for s in s.assume(c_ge(d - 1)):
                s = s.copy()
                db = split_addr(d)[0]
                model.new_buf(s, db, c * self.S, al)
                segs = [Seg(l, self.anon, None, 0) if self.anon else Seg(l, "o", db, 0)]
                for k, dd in expected(self.S, db, segs).items():
                    s.meas[k] = dd
                out.append(("allocated", s, segs))
        return out

    def length(self, eng, st, base):
        return self.fields(eng, st, base)[1]

    def final(self, eng, st, base, segs, al="0"):
        """[(state, problem|None, owner pointer, measure)]"""
        d, l, c = self.fields(eng, st, base)
        n = ZERO
        for g in segs:
            n = n + g.n
        out = []
        if not st.eq0(l - n):
            return [(st, "length is %r, expected %r" % (l, st.norm(n)), d, [])]
        if not st.ent(c - l):
            return [(st, "capacity %r is not at least the length %r" % (c, l), d, [])]
        b, o = split_addr(d)
        if st.eq0(d):
            if not st.eq0(c):
                return [(st, "no storage but capacity %r" % c, d, [])]
            return [(st, None, None, [])]
        if b is None or ("buf", b) not in st.ts:
            return [(st, "storage pointer %r is not an owned buffer" % d, d, [])]
        if not st.eq0(o):
            return [(st, "storage pointer %r is inside a buffer" % d, d, [])]
        if not st.eq0(st.ts[("size", b)] - c * self.S):
            return [(st, "buffer of %r bytes but capacity %r" % (st.norm(st.ts[("size", b)]), c), d, [])]
        if st.ts[("al", b)] != al:
            return [(st, "storage comes from allocator %s, not %s" % (st.ts[("al", b)], al), d, [])]
        for s, m in layout_measure(st, self.S, b, segs, [(ZERO, c)]):
            if m is None:
                out.append((s, "more elements than storage", d, []))
            else:
                out.append((s, None, b, m))
        return out


class QueueShape:
    name = "Queue"

    def __init__(self, rec, S):
        self.S = S
        self.f_data, self.f_len, self.f_last, self.f_cap = [fld(rec, n, i) for i, n in enumerate(("data_", "length_", "last_", "capacity_"))]

    def fields(self, eng, st, base):
        b = P(base)
        return (st.norm(eng.load(st, b + self.f_data, 8, "ptr")),) + tuple(
            st.norm(eng.load(st, b + f, 8, "i64")) for f in (self.f_len, self.f_last, self.f_cap))

    def length(self, eng, st, base):
        return self.fields(eng, st, base)[1]

    def ring(self, l, t, c, wrapped):
        if not wrapped:
            return [((t - l) * self.S, l)]
        return [((t - l + c) * self.S, l - t), (ZERO, t)]

    def init(self, eng, st, base, model, al="0", pre=None):
        st = st.copy()
        d, l, t, c = self.fields(eng, st, base)
        out = []
        for q in (l, c - l, t):
            st = st.assume1(c_ge(q))
        for s in st.assume(c_eq(c)):
            for s in s.assume(c_eq(d)):
                for s in s.assume(c_eq(t)):
                    out.append(("unallocated", s.copy(), []))
        for s0 in st.assume(c_ge(c - 1)):
            for s0 in s0.assume(c_ge(d - 1)):
                for s0 in s0.assume(c_ge(c - 1 - t)):
                    for lab, cond in (("contiguous", c_ge(t - l)), ("wrapped", c_ge(l - t - 1))):
                        for s in s0.assume(cond):
                            s = s.copy()
                            db = split_addr(d)[0]
                            model.new_buf(s, db, c * self.S, al)
                            segs = []
                            for off, n in self.ring(l, t, c, lab == "wrapped"):
                                segs.append(Seg(n, "o", db, off))
                                for k, dd in expected(self.S, db, [segs[-1]], off).items():
                                    s.meas[k] = dict(s.meas.get(k, {}))
                                    for p, v in dd.items():
                                        s.meas[k][p] = s.meas[k].get(p, 0) + v
                            out.append((lab, s, segs))
        return out

    def final(self, eng, st, base, segs, al="0"):
        d, l, t, c = self.fields(eng, st, base)
        n = ZERO
        for g in segs:
            n = n + g.n
        if not st.eq0(l - n):
            return [(st, "length is %r, expected %r" % (l, st.norm(n)), d, [])]
        if not st.ent(c - l):
            return [(st, "capacity %r is not at least the length %r" % (c, l), d, [])]
        b, o = split_addr(d)
        if st.eq0(d):
            if not st.eq0(c) or not st.eq0(t):
                return [(st, "no storage but capacity %r, last %r" % (c, t), d, [])]
            return [(st, None, None, [])]
        if b is None or ("buf", b) not in st.ts:
            return [(st, "storage pointer %r is not an owned buffer" % d, d, [])]
        if not st.eq0(o):
            return [(st, "storage pointer %r is inside a buffer" % d, d, [])]
        if not st.eq0(st.ts[("size", b)] - c * self.S):
            return [(st, "buffer of %r bytes but capacity %r" % (st.norm(st.ts[("size", b)]), c), d, [])]
        if st.ts[("al", b)] != al:
            return [(st, "storage comes from allocator %s, not %s" % (st.ts[("al", b)], al), d, [])]
        if not (st.ent(t) and st.ent(c - 1 - t)):
            return [(st, "write position %r is outside [0, %r)" % (t, c), d, [])]
        out = []
        r = st.decide(c_ge(t - l))
        for cond, w in ((c_ge(t - l), False), (c_ge(l - t - 1), True)):
            for s in st.assume(cond):
                for s2, m in layout_measure(s.copy(), self.S, b, segs, self.ring(l, t, c, w)):
                    out.append((s2, None if m is not None else "more elements than storage", b, m or []))
        return out


def close_state(model, st, expect, owners, extra_ok=()):
    """compare all content with the expectation and the live buffers with their owners: [(state, problem|None)]"""
    probs = []
    seen = {}
    for b in owners:
        seen[b] = seen.get(b, 0) + 1
    for (k, v) in list(st.ts.items()):
        if isinstance(k, tuple) and k[0] == "buf":
            b = k[1]
            n = seen.get(b, 0)
            if v == "live" and n == 0:
                return [(st, "leak-buffer: buffer %s is neither freed nor reachable at the end" % b)]
            if v == "freed" and n:
                return [(st, "dangling-storage: a container still refers to freed buffer %s" % b)]
            if n > 1:
                return [(st, "shared-storage: %d containers refer to buffer %s" % (n, b))]
    def isowned(k):
        kb = st.norm(k[1] if isinstance(k[1], Poly) else P(k[1]))
        return any(kb == P(o) for o in owners if o is not None)
    if not model.trivial:
        diff = {k: dict(d) for k, d in st.meas.items() if k[0] == "c" and k[2] == "L"}
        exp = {k: {p: -c for p, c in d.items()} for k, d in to_meas(expect).items()}
        return [(s, None if pb is None else "content: " + pb) for s, pb in zero_check(st, merge(diff, exp))]
    # plain bytes need no destruction, and bytes past the elements are unspecified:
    # compare exactly the expected ranges
    return range_content(model, st, expect)


def range_content(model, st, expect):
    """compare the content of exactly the expected ranges: [(state, problem|None)]"""
    sts = [(st, None)]
    for key, lo, hi in expect:
        nxt = []
        work = list(sts)
        n = 0
        while work:
            s, pb = work.pop()
            if pb is not None:
                nxt.append((s, pb))
                continue
            n += 1
            if n > 60:
                raise AnalysisError("content comparison splits too often")
            diff = {}
            try:
                for k in list(s.meas):
                    if k[0] == "c" and k[2] == "L" and s.norm(P(k[1])) == s.norm(P(key[1])):
                        diff = merge(diff, {k: model.clip(s, s.meas[k], s.norm(lo), s.norm(hi))})
            except NeedSplit as e:
                for c in (e.cond, c_not(e.cond)):
                    work += [(x.copy(), None) for x in s.assume(c)]
                continue
            for s2, p2 in zero_check(s, merge(diff, {key: {lo: -1}}, {key: {hi: 1}})):
                nxt.append((s2, None if p2 is None else "content: " + p2))
        sts = nxt
    return sts
