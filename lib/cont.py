"""Content / ownership model for containers over the engine.

Every element is a ghost value.  A measure ('c', base, kind, tag) is the set of byte offsets of `base` that hold
  kind 'L': a constructed object whose value is named by tag,   kind 'M': a moved-from shell.
tag = (origin kind, origin base, delta): the object at offset o carries the value that origin base had at o+delta.
"""
from engine import *
from poly import *
import ir


class RppModel(Model):
    """rpp's logging, assertion and libc surface"""

    def __init__(self):
        super().__init__()
        nop = lambda e, st, I, a: [(st, None)]
        die = lambda e, st, I, a: DIE
        self.h(r"rpp::Log::Location::make", nop)
        self.h(r"^void rpp::Log::log<", nop)
        self.h(r"^rpp::Log::debug_break", nop)
        self.h(r"^rpp::Libc::exit", die)
        self.h(r"^rpp::Libc::keep_alive", nop)
        self.h(r"^rpp::Libc::strlen", self.strlen)
        self.h(r"^rpp::Libc::memcpy", lambda e, st, I, a: self.memcpy(e, st, I, a[0], a[1], a[2]))
        self.h(r"^rpp::Libc::memset", lambda e, st, I, a: self.memset(e, st, I, a[0], a[1], a[2]))
        self.h(r"^abort$|^llvm\.trap", die)

    def strlen(self, eng, st, I, a):
        b, o = split_addr(a[0])
        if b is not None and b.op.startswith("@") and o.is_const():
            g = eng.mod.globals.get(b.op[1:])
            if g and g.get("const") and g.get("init", [""])[0] == "str":
                s = bytes.fromhex(g["init"][1])[o.cval():]
                if 0 in s:
                    return [(st, P(s.index(0)))]
        return [(st, P(term("strlen", a[0], nn=True)))]

    def viol(self, st, rule, msg, I):
        st.event("viol", rule, msg, I)


class ContModel(RppModel):
    S = 24

    def __init__(self, trivial=False):
        super().__init__()
        self.trivial = trivial
        self.typed = False
        T = r"^Tok(?:C|N<\d+>)?"
        self.h(T + r"::Tok[CN]?\(Tok(?:C|N<\d+>)?&&\)", self.t_move)
        self.h(T + r"::Tok[C]?\(Tok[C]? const&\)", self.t_copy)
        self.h(T + r"::Tok[C]?\(\)", self.t_default)
        self.h(T + r"::Tok[C]?\(int\)", self.t_seed)
        self.h(T + r"::~Tok", self.t_dtor)
        self.h(T + r"::clone\(\) const", self.t_clone)
        self.h(T + r"::operator=\(Tok(?:C|N<\d+>)?&&\)", self.t_massign)
        self.h(T + r"::operator=\(Tok[C]? const&\)", self.t_cassign)
        self.h(r"^(Tok[C]?|Triv)::operator==", self.t_eq)
        self.h(r"^(Tok[C]?|Triv)::operator<", self.t_lt)
        self.h(r"^Al<(\d+)ul?>::alloc", self.a_alloc)
        self.h(r"^Al<(\d+)ul?>::free", self.a_free)

    # ---- buffers ------------------------------------------------------------------------------
    def alid(self, eng, I):
        return re.search(r"Al<(\d+)", eng.mod.dname(I["fn"])).group(1)

    def a_alloc(self, eng, st, I, a):
        """an allocator returns null exactly for a zero-byte request (as the library's own do)"""
        out = []
        for s in st.assume(c_eq(a[0])):
            out.append((s.copy(), ZERO))
        for s in st.assume(c_ge(a[0] - 1)):
            s = s.copy()
            b = fresh("heap", ptr=True)
            s.mem[b] = Obj(ver=-1)
            s = s.assume1(c_ge(P(b) - 1)).copy()
            self.new_buf(s, b, a[0], self.alid(eng, I))
            out.append((s, P(b)))
        return out

    def new_buf(self, st, b, size, al):
        st.ts[("buf", b)] = "live"
        st.ts[("size", b)] = size
        st.ts[("al", b)] = al

    def a_free(self, eng, st, I, a):
        p = st.norm(a[0])
        d = st.decide(c_eq(p))
        if d is None:
            raise NeedSplit(c_eq(p))
        if d:
            return [(st, None)]
        b, o = split_addr(p)
        stt = st.ts.get(("buf", b)) if b is not None else None
        if stt is None or not st.eq0(o):
            self.viol(st, "free-unowned", "free of %r, which is not the start of an owned buffer" % (p,), I)
            return [(st, None)]
        if stt == "freed":
            self.viol(st, "double-free", "buffer %r is freed twice" % (p,), I)
            return [(st, None)]
        if st.ts.get(("al", b)) != self.alid(eng, I):
            self.viol(st, "wrong-allocator", "buffer of allocator %s freed by allocator %s" % (st.ts.get(("al", b)), self.alid(eng, I)), I)
        if not self.trivial:
            for key in self.keys(st, b):
                if key[2] == "L":
                    d = st.meas.get(key, {})
                    if not self.surely_zero(st, d):
                        self.viol(st, "leak-elements", "buffer freed while it still holds live elements %r" % (self.show(st, key),), I)
        for key in self.keys(st, b):
            st.meas.pop(key, None)
        st.ts[("buf", b)] = "freed"
        return [(st, None)]

    def surely_zero(self, st, d):
        dd = {}
        for p, c in d.items():
            p = st.norm(p)
            dd[p] = dd.get(p, 0) + c
        ps = [p for p, c in dd.items() if c]
        while ps:
            p = ps.pop()
            c = dd[p]
            for q in list(ps):
                e = st.decide(c_eq(p - q))
                if e is None:
                    raise NeedSplit(c_eq(p - q))
                if e:
                    c += dd[q]
                    ps.remove(q)
            if c:
                return False
        return True

    def show(self, st, key):
        d = st.meas.get(key, {})
        return "%s%r %r" % (key[2], key[3], {st.norm(p): c for p, c in d.items()})

    def check_access(self, st, b, off, n, inst, what):
        stt = st.ts.get(("buf", b))
        if stt is None:
            return
        if stt == "freed":
            self.viol(st, "use-after-free", "%s of a freed buffer" % what, inst)
            return
        size = st.ts[("size", b)]
        off = st.norm(off)
        if not st.ent(off):
            self.viol(st, "out-of-bounds", "%s may be below the buffer: offset %r" % (what, off), inst)
        elif not st.ent(st.norm(size) - off - n):
            self.viol(st, "out-of-bounds", "%s at offset %r of a buffer of %r bytes" % (what, off, st.norm(size)), inst)

    def on_load(self, eng, st, base, off, size, ty, inst):
        self.check_access(st, base, off, size, inst, "read")
        return None

    def on_store(self, eng, st, base, off, size, v, inst):
        self.check_access(st, base, off, size, inst, "write")
        return False

    # ---- content ------------------------------------------------------------------------------
    def keys(self, st, b):
        out = []
        for k in st.meas:
            if k[0] == "c":
                kb = k[1]
                if st.sm:
                    kb = st.norm(kb)
                if kb == P(b):
                    out.append(k)
        return out

    def shell(self, st, b, off):
        """some object, possibly moved from, is at this offset"""
        return sum(v for k, v in self.holds(st, b, off)) == 1

    def holds(self, st, b, off):
        """[(key)] of the objects at this offset; may raise NeedSplit; does not mutate"""
        out = []
        for k in self.keys(st, b):
            v = st.at(k, off)
            if v:
                out.append((k, v))
        return out

    def place(self, eng, st, p, inst, what):
        p = st.norm(p)
        b, off = split_addr(p)
        if b is None:
            self.viol(st, "bad-element", "%s through a null or wild pointer %r" % (what, p), inst)
            return None
        self.check_access(st, b, off, self.S, inst, what)
        return b, off

    def add(self, st, b, off, kind, tag, n=None, sign=1):
        st.madd(("c", P(b), kind, tag), off, off + (self.S if n is None else n), sign)

    def tag_at(self, key, off):
        """origin (kind, base, position) of the object at off"""
        k, b, d = key[3]
        return k, b, off + d if b is not None else d

    def mk(self, k, b, pos, off):
        return (k, b, pos - off)

    def get(self, eng, st, p, inst, what):
        """(b, off, key) of the live object at p, reporting if there is none"""
        pl = self.place(eng, st, p, inst, what)
        if pl is None:
            return None
        b, off = pl
        hs = self.holds(st, b, off)
        live = [k for k, v in hs if k[2] == "L"]
        if any(v != 1 for k, v in hs) or len(live) > 1:
            self.viol(st, "element-state", "%s: inconsistent element state %r" % (what, [(k[2], v) for k, v in hs]), inst)
            return None
        if live:
            self.check_type(eng, st, b, off, inst, what)
            return b, off, live[0]
        if any(k[2] == "M" for k, v in hs):
            return b, off, [k for k, v in hs if k[2] == "M"][0]
        self.viol(st, "dead-element", "%s of storage that holds no object (offset %r)" % (what, st.norm(off)), inst)
        return None

    def elem_type(self, eng, inst):
        m = re.match(r"(Tok[CN]?(?:<\d+>)?|Triv)::", eng.mod.dname(inst["fn"]) if inst and inst.get("fn") else "")
        return m.group(1) if m else None

    def check_type(self, eng, st, b, off, inst, what):
        """the operation is that of the type the object was constructed with"""
        t = st.ts.get(("ty", b, st.norm(off)))
        u = self.elem_type(eng, inst)
        if t is not None and u is not None and t != u:
            self.viol(st, "wrong-type", "%s: an object of type %s is treated as %s" % (what, t, u), inst)

    def put(self, eng, st, p, kind, tag, inst, what):
        """construct an object at p"""
        pl = self.place(eng, st, p, inst, what)
        if pl is None:
            return
        b, off = pl
        hs = self.holds(st, b, off)
        for k, v in hs:
            if k[2] == "L" and not self.trivial:
                self.viol(st, "overwrite-live", "%s over a live object: the old one is never destroyed" % what, inst)
            self.add(st, b, off, k[2], k[3], sign=-v)
        if self.typed:
            st.ts[("ty", b, st.norm(off))] = self.elem_type(eng, inst)
        self.add(st, b, off, kind, (tag[0], tag[1], tag[2] - off) if tag[1] is not None else tag)

    def drop(self, st, b, off, key):
        st.madd(key, off, off + self.S, -1)

    def t_move(self, eng, st, I, a):
        g = self.get(eng, st, a[1], I, "move construction from")
        if g is None:
            return [(st, None)]
        b, off, key = g
        pl = self.place(eng, st, a[0], I, "move construction")
        if pl is None:
            return [(st, None)]
        if key[2] == "M":
            self.put(eng, st, a[0], "M", key[3], I, "construction")
            return [(st, None)]
        o = self.tag_at(key, off)
        # decide everything before mutating
        self.holds(st, *pl)
        self.drop(st, b, off, key)
        self.put(eng, st, a[0], "L", o, I, "construction")
        self.add(st, b, off, "M", ("m", None, ZERO))
        return [(st, None)]

    def t_copy(self, eng, st, I, a):
        g = self.get(eng, st, a[1], I, "copy from")
        if g is not None:
            b, off, key = g
            if key[2] == "M":
                self.viol(st, "use-moved", "copy of a moved-from object", I)
            k, ob, pos = self.tag_at(key, off)
            self.put(eng, st, a[0], "L", ("c" if k == "o" else k, ob, pos), I, "construction")
        return [(st, None)]

    def t_clone(self, eng, st, I, a):
        return self.t_copy(eng, st, I, a)

    def t_default(self, eng, st, I, a):
        self.put(eng, st, a[0], "L", ("d", None, ZERO), I, "construction")
        return [(st, None)]

    def t_seed(self, eng, st, I, a):
        self.put(eng, st, a[0], "L", (("s", a[1]), None, ZERO), I, "construction")
        return [(st, None)]

    def t_dtor(self, eng, st, I, a):
        g = self.get(eng, st, a[0], I, "destruction")
        if g is not None:
            self.drop(st, *g)
        return [(st, None)]

    def t_massign(self, eng, st, I, a):
        d = self.get(eng, st, a[0], I, "assignment to")
        s = self.get(eng, st, a[1], I, "assignment from")
        if d and s:
            if st.norm(a[0]) == st.norm(a[1]):
                return [(st, a[0])]
            b, off, key = s
            o = self.tag_at(key, off)
            self.drop(st, *d)
            if key[2] == "M":
                self.add(st, d[0], d[1], "M", ("m", None, ZERO))
            else:
                self.drop(st, b, off, key)
                self.add(st, b, off, "M", ("m", None, ZERO))
                self.add(st, d[0], d[1], "L", (o[0], o[1], o[2] - d[1]) if o[1] is not None else key[3])
        return [(st, a[0])]

    def t_cassign(self, eng, st, I, a):
        d = self.get(eng, st, a[0], I, "assignment to")
        s = self.get(eng, st, a[1], I, "assignment from")
        if d and s:
            o = self.tag_at(s[2], s[1])
            self.drop(st, *d)
            k = "c" if o[0] == "o" else o[0]
            self.add(st, d[0], d[1], "L", (k, o[1], o[2] - d[1]) if o[1] is not None else s[2][3])
        return [(st, a[0])]

    def ident(self, eng, st, p, I, what):
        g = self.get(eng, st, p, I, what)
        if g is None:
            return term("bad")
        if g[2][2] == "M":
            self.viol(st, "use-moved", "%s reads a moved-from object" % what, I)
        k, b, pos = self.tag_at(g[2], g[1])
        return term("val", "o" if k == "c" else k if isinstance(k, str) else repr(k), P(b) if b is not None else ZERO, st.norm(pos))

    def t_eq(self, eng, st, I, a):
        x, y = self.ident(eng, st, a[0], I, "comparison"), self.ident(eng, st, a[1], I, "comparison")
        if x is y:
            return [(st, TRUE)]
        if repr(y) < repr(x):
            x, y = y, x
        return [(st, c_ne(P(term("equal", x, y, nn=True, ub=1))))]

    def t_lt(self, eng, st, I, a):
        x, y = self.ident(eng, st, a[0], I, "comparison"), self.ident(eng, st, a[1], I, "comparison")
        if x is y:
            return [(st, FALSE)]
        return [(st, c_ne(P(term("less", x, y, nn=True, ub=1))))]

    def clip(self, st, d, lo, hi):
        """restriction of a measure to [lo, hi) as a formal sum; may raise NeedSplit"""
        out = {}

        def ge(a, b):
            x = st.norm(a - b)
            r = st.decide(c_ge(x))
            if r is None:
                raise NeedSplit(c_ge(x))
            return r
        for p, c in d.items():
            p = st.norm(p)
            if ge(p, hi):
                continue
            q = p if ge(p, lo) else lo
            for x, s in ((q, c), (hi, -c)):
                n = out.get(x, 0) + s
                if n:
                    out[x] = n
                else:
                    out.pop(x, None)
        return out

    def tracked(self, st, b):
        return ("buf", b) in st.ts or bool(self.keys(st, b))

    def memcpy(self, eng, st, I, d, s, n):
        d, s, n = st.norm(d), st.norm(s), st.norm(n)
        z = st.decide(c_eq(n))
        if z:
            return [(st, d)]
        db, do = split_addr(d)
        sb, so = split_addr(s)
        if (db is not None and self.tracked(st, db)) or (sb is not None and self.tracked(st, sb)):
            if z is None:
                raise NeedSplit(c_eq(n))
            if db is None or sb is None:
                self.viol(st, "bad-element", "memcpy with a null pointer and a nonzero size", I)
                return [(st, d)]
            pieces = []
            for k in self.keys(st, sb):
                c = self.clip(st, st.meas[k], so, so + n)
                if c:
                    pieces.append((k, c))
            old = []
            for k in self.keys(st, db):
                c = self.clip(st, st.meas[k], do, do + n)
                if c:
                    old.append((k, c))
            self.check_access(st, sb, so, n, I, "memcpy source")
            self.check_access(st, db, do, n, I, "memcpy destination")
            for k, c in old:
                self.addraw(st, k, c, -1)
            for k, c in pieces:
                kind, ob, delta = k[3]
                nk = ("c", P(db), k[2], (kind, ob, delta + so - do) if ob is not None else k[3])
                self.addraw(st, nk, {p - so + do: v for p, v in c.items()}, 1)
        eng.blit(st, d, s, n, I)
        return [(st, d)]

    def memset(self, eng, st, I, d, v, n):
        d, n = st.norm(d), st.norm(n)
        z = st.decide(c_eq(n))
        if z:
            return [(st, d)]
        db, do = split_addr(d)
        if db is not None and self.tracked(st, db):
            if z is None:
                raise NeedSplit(c_eq(n))
            old = []
            for k in self.keys(st, db):
                c = self.clip(st, st.meas[k], do, do + n)
                if c:
                    old.append((k, c))
            self.check_access(st, db, do, n, I, "memset")
            for k, c in old:
                self.addraw(st, k, c, -1)
            if self.trivial:
                self.addraw(st, ("c", P(db), "L", ("d", None, ZERO)), {do: 1, do + n: -1}, 1)
        eng.fill(st, d, v, n, I)
        return [(st, d)]

    def addraw(self, st, key, c, sign):
        d = dict(st.meas.get(key, {}))
        for p, v in c.items():
            n = d.get(p, 0) + sign * v
            if n:
                d[p] = n
            else:
                d.pop(p, None)
        st.meas[key] = d

    def on_lifetime(self, eng, st, b, what):
        for k in self.keys(st, b):
            if k[2] == "L" and not self.trivial and not self.surely_zero(st, st.meas[k]):
                self.viol(st, "leak-elements", "a local object goes out of scope without being destroyed", eng.cur)
            st.meas.pop(k, None)


# ---- specification side -------------------------------------------------------------------------

class Seg:
    """n consecutive elements: element i carries the value (kind, base, pos + S*i); base None: no position"""

    def __init__(self, n, kind, base, pos):
        self.n, self.kind, self.base, self.pos = P(n), kind, base, P(pos)


def expected(S, b, segs, start=0):
    """measure of a sequence laid out from byte offset `start` of base b"""
    out = {}
    p = P(start)
    for g in segs:
        tag = (g.kind, g.base, g.pos - p) if g.base is not None else (g.kind, None, ZERO)
        k = ("c", P(b), "L", tag)
        d = out.setdefault(k, {})
        e = p + g.n * S
        for x, c in ((p, 1), (e, -1)):
            d[x] = d.get(x, 0) + c
        p = e
    return out


def merge(*ms):
    out = {}
    for m in ms:
        for k, d in m.items():
            o = out.setdefault(k, {})
            for p, c in d.items():
                o[p] = o.get(p, 0) + c
    return out


def zero_check(st, meas, depth=0):
    """[(state, None | offending key)] : is every measure in `meas` the zero function?"""
    if depth > 40:
        raise AnalysisError("measure comparison splits too often")
    acc = {}
    for k, d in meas.items():
        nk = subst(k, st.sm) if st.sm else k
        o = acc.setdefault(nk, {})
        for p, c in d.items():
            p = st.norm(p)
            o[p] = o.get(p, 0) + c
    acc = {k: {p: c for p, c in d.items() if c} for k, d in acc.items()}
    acc = {k: d for k, d in acc.items() if d}
    if not acc:
        return [(st, None)]
    # merge breakpoints that are provably equal; find an undecided pair
    for k, d in acc.items():
        ps = list(d)
        for i in range(len(ps)):
            for j in range(i):
                if d[ps[i]] * d[ps[j]] > 0:
                    continue
                c = c_eq(ps[i] - ps[j])
                r = st.decide(c)
                if r is True:
                    m2 = {kk: dict(dd) for kk, dd in acc.items()}
                    m2[k][ps[j]] += m2[k].pop(ps[i])
                    return zero_check(st, m2, depth + 1)
                if r is None:
                    out = []
                    for cc in (c, c_not(c)):
                        for s in st.assume(cc):
                            out += zero_check(s.copy(), acc, depth + 1)
                    return out
    # two tags may still coincide: keys differing only in undecided deltas
    ks = [k for k in acc]
    for i in range(len(ks)):
        for j in range(i):
            a, b = ks[i], ks[j]
            if a[:3] == b[:3] and len(a) == len(b) == 4 and a[3][0] == b[3][0] and a[3][1] == b[3][1] and a[3][1] is not None:
                c = c_eq(a[3][2] - b[3][2])
                r = st.decide(c)
                if r is False or r is None and c == FALSE:
                    continue
                if r is True:
                    m2 = {kk: dict(dd) for kk, dd in acc.items()}
                    for p, v in m2.pop(a).items():
                        m2[b][p] = m2[b].get(p, 0) + v
                    return zero_check(st, m2, depth + 1)
                out = []
                for cc in (c, c_not(c)):
                    for s in st.assume(cc):
                        out += zero_check(s.copy(), acc, depth + 1)
                return out
    k = next(iter(acc))
    return [(st, "%s: %r" % (k, acc[k]))]


def all_viols(st):
    """violation events of a state, including those inside summarised iterations"""
    out = []

    def go(evs):
        for e in evs:
            if e[0] == "viol":
                out.append(e)
            elif e[0] == "badptr":
                out.append(("viol", "bad-pointer", "%s through a null or wild pointer %r" % (e[1], e[2]), e[3]))
            elif e[0] == "loop":
                for iv, es in e[3]:
                    go(es)
    go(st.events())
    return out
