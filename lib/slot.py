"""One map slot: a pair that is there exactly when the hash is not the empty mark."""
from objs import *


def hk(st, b, pos):
    """the hash of the key that came from (b, pos): never the empty mark, and a copy hashes alike"""
    t = term("hk", b, st.norm(P(pos)), nn=True)
    if P(t) - 1 not in st.facts:
        st.facts = st.facts + (P(t) - 1,)
    return P(t)


class SlotModel(ContModel):
    def __init__(self):
        super().__init__(False)
        self.h(r"rpp::hash_nonzero<", self.hash)
        self.h(r"Hash<TokC?>::hash", self.hash)

    def hash(self, eng, st, I, a):
        p = st.norm(a[0])
        g = self.get(eng, st, p, I, "hashing of a key")
        if g is None:
            return [(st, P(fresh("hash", nn=True)))]
        if g[2][2] == "M":
            self.viol(st, "use-moved", "the key is hashed after it was moved away", I)
        k, b, pos = self.tag_at(g[2], g[1])
        return [(st, hk(st, b, pos))]



class SlotShape:
    def __init__(self, rec, S):
        self.S = S
        self.fh = [v[0] for k, v in rec.items() if k.endswith("s.hash")][0]
        self.fp = [v[0] for k, v in rec.items() if k.endswith("s.data.value_")][0]
        self.offs = (self.fp, self.fp + S)

    def fields(self, eng, st, base):
        return (st.norm(eng.load(st, P(base) + self.fh, 8, "i64")),)

    def init(self, eng, st, base, model, al="0", pre=None):
        s = st.copy()
        eng.store(s, P(base) + self.fh, ZERO, 8, None, "i64")
        out = [("empty", s, [])]
        s = st.copy()
        segs = [Seg(1, "o", base, o) for o in self.offs]
        for k, d in to_meas([x for g, o in zip(segs, self.offs) for x in ivals(self.S, base, g, P(o))]).items():
            s.meas[k] = d
        eng.store(s, P(base) + self.fh, hk(s, base, self.fp), 8, None, "i64")
        return out + [("full", s, segs)]

    def final(self, eng, st, base, segs, al="0"):
        h = st.norm(eng.load(st, P(base) + self.fh, 8, "i64"))
        if not segs or segs[0].kind == "m":
            return [(st, None if st.eq0(h) else "hash: %r in an empty slot" % h, None, [])]
        want = hk(st, segs[0].base, segs[0].pos)
        if not st.eq0(h - want):
            return [(st, "hash: %r is not the hash of the key" % h, None, [])]
        return [(st, None, None, [x for g, o in zip(segs, self.offs) for x in ivals(self.S, base, g, P(o))])]


def slot_ops(p):
    h = "h_%s_" % p
    kind = lambda k, i: (lambda a: [Seg(1, k or g.kind, g.base, g.pos) for g in a.segs[i]])
    return [Op(h + "ctor", ["O"], {0: lambda a: []}),
            Op(h + "make", ["O", "E", "E"], {0: lambda a: [Seg(1, "o", a.base[1], 0), Seg(1, "o", a.base[2], 0)]}, moved=[1, 2]),
            Op(h + "move", ["O", "C"], {0: kind(None, 1), 1: kind("m", 1)}),
            Op(h + "assign", ["C", "C"], {0: kind(None, 1), 1: kind("m", 1)}),
            Op(h + "clone", ["O", "C"], {0: kind("c", 1)}),
            Op(h + "dtor", ["C"], dead=[0])]
