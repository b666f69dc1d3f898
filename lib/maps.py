"""Robin-hood hash table: every probe loop at one generic iteration, against the table's invariant.

The table content is arbitrary at each generic step: slot i holds nothing (hash 0) or an entry with a non-zero hash whose
ideal slot is hash >> shift.  The invariant (an entry's distance from its ideal slot is at most one more than that of its
predecessor, and an entry whose predecessor is empty is at its ideal slot) is what makes it sound to stop a search at an
empty slot or at an entry closer to its ideal slot than the search is; so the obligations are local: a search stops only
there or on an equal key and otherwise steps to the next slot; an insertion also exchanges only there; erasing moves back
exactly the following entries that are not at their ideal slot.
"""
from trace import *
from cont import *
import re

SL = r"rpp::detail::Map_Slot<KT, VT>"
OPAQUE = [r"^rpp::detail::Map_Slot<.*>::(Map_Slot|operator=|~Map_Slot|clone)", r"hash_nonzero<", r"^rpp::Math::", r"^rpp::detail::Map_Slot<.*clone"]


@simplifier("ideal")
def _ideal0(h, cap):
    h = P(h)
    return ZERO if h.is_const() and h.cval() == 0 else None


class MapModel(TraceModel):
    def __init__(self, L):
        super().__init__()
        self.tags = ContModel()
        f = lambda r, s: [v[0] for k, v in L[r].items() if k.endswith(s)][0]
        self.F = {n: f("L_c", "c." + n + "_") for n in ("data", "capacity", "length", "usable", "shift")}
        self.ho, self.po, self.vo = f("L_slot", "s.hash"), f("L_slot", "s.data.value_"), f("L_pair", ".second")
        self.tables = set()
        self.pow2 = []
        H = self.h
        A = r"^" + SL + "::"
        H(A + r"Map_Slot\(\)", self.s_empty)
        H(A + r"Map_Slot\(KT&&, VT&&\)", self.s_make)
        H(A + r"Map_Slot\(" + SL + r"&&\)", self.s_move)
        H(A + r"operator=\(" + SL + r"&&\)", self.s_assign)
        H(A + r"~Map_Slot", self.s_drop)
        H(r"^" + SL + r"::clone\(\)", self.s_clone)
        H(r"rpp::hash_nonzero<KT", self.hashnz)
        H(r"^KT::operator==", self.keq)
        H(r"^[KV]T::[KV]T\([KV]T&&\)|^[KV]T::[KV]T\([KV]T const&\)|^[KV]T::operator=\([KV]T", self.copy)
        H(r"^[KV]T::[KV]T\(\)", self.default)
        H(r"^[KV]T::~[KV]T", lambda e, st, I, a: [(st, None)])
        H(r"^rpp::Math::next_pow2\(unsigned long\)", self.next_pow2)
        H(r"^rpp::Math::ctlz\(unsigned long\)", self.ctlz)
        H(r"^rpp::Math::log2\(unsigned long\)", lambda e, st, I, a: [(st, P(63) - self.ctlz_(st, a[0]))])
        H(r"^Al<(\d+)ul?>::alloc", self.alloc)
        H(r"^Al<(\d+)ul?>::free", self.free)

    # ---- numbers ------------------------------------------------------------------------------
    def is_pow2(self, st, p):
        p = st.norm(P(p))
        if p.is_const():
            return p.cval() > 0 and p.cval() & (p.cval() - 1) == 0
        for q in self.pow2:
            q = st.norm(q)
            for k in range(0, 4):
                if p == q * (1 << k) or p * (1 << k) == q:
                    return True
        return False

    def next_pow2(self, eng, st, I, a):
        x = st.norm(a[0])
        if self.is_pow2(st, x):
            return [(st, x)]
        out = []
        for s in st.assume(c_eq(x)):
            out.append((s.copy(), ZERO))
        for v in (1, 2):
            for s in st.assume(c_eq(x - v)):
                out.append((s.copy(), P(v)))
        for s in st.assume(c_ge(x - 3)):
            q = term("pow2of", x, nn=True)
            self.pow2.append(P(q) * 4)
            s = s.copy()
            s.facts = s.facts + (P(q) - 1, P(q) * 4 - x, x * 2 - 1 - P(q) * 4)
            out.append((s, P(q) * 4))
        return out

    def ctlz_(self, st, p):
        p = st.norm(P(p))
        if p.is_const():
            return P(64 - int(p.cval()).bit_length())
        # 2^k x has k leading zeros less
        from math import gcd
        g = 0
        for c in p.t.values():
            g = gcd(g, int(abs(c)))
        k = 0
        while g % 2 == 0 and g:
            g //= 2
            k += 1
        return P(term("ctlz", p.div_exact(1 << k) if k else p, nn=True)) - k

    def ctlz(self, eng, st, I, a):
        return [(st, self.ctlz_(st, a[0]))]

    def ideal(self, st, h, cap):
        """the ideal slot of hash h in a table of capacity cap (a power of two), below cap"""
        h, cap = st.norm(h), st.norm(cap)
        if cap.is_const() and cap.cval() == 1:
            return ZERO
        t = term("ideal", h, cap, nn=True)
        f = cap - 1 - P(t)
        if f not in st.facts:
            st.facts = st.facts + (f,)
        return P(t)

    # ---- memory -------------------------------------------------------------------------------
    def alloc(self, eng, st, I, a):
        out = []
        for s in st.assume(c_eq(a[0])):
            out.append((s.copy(), ZERO))
        for s in st.assume(c_ge(a[0] - 1)):
            s = s.copy()
            b = fresh("table", ptr=True)
            self.tables.add(b)
            s = s.assume1(c_ge(P(b) - 1)).copy()
            s.ts[("buf", b)] = "live"
            s.ts[("size", b)] = s.norm(a[0])
            s.ts[("zeroed", b)] = ZERO
            s.event("alloc", b, s.norm(a[0]), I)
            out.append((s, P(b)))
        return out

    def free(self, eng, st, I, a):
        p = st.norm(a[0])
        d = st.decide(c_eq(p))
        if d is None:
            raise NeedSplit(c_eq(p))
        if d:
            return [(st, None)]
        b, o = split_addr(p)
        if b is None or st.ts.get(("buf", b)) != "live" or not st.eq0(o):
            self.viol(st, "free", "frees %r, which is not a live table" % (p,), I)
        else:
            st.ts[("buf", b)] = "freed"
        return [(st, None)]

    def memset(self, eng, st, I, d, v, n):
        b, o = split_addr(st.norm(d))
        if b in self.tables:
            if not st.eq0(v):
                self.viol(st, "fill", "fills a table with %r" % (v,), I)
            if ("zeroed", b) in st.ts and st.eq0(o):
                st.ts[("zeroed", b)] = st.norm(n)
            st.event("wipe", P(b), o, st.norm(n), I)
            self.reset(st, b)
            return [(st, d)]
        if st.eq0(n):
            return [(st, d)]
        return super().memset(eng, st, I, d, v, n)

    def memcpy(self, eng, st, I, d, s, n):
        db, do = split_addr(st.norm(d))
        sb, so = split_addr(st.norm(s))
        if db in self.tables or sb in self.tables:
            st.event("memcpy", st.norm(d), st.norm(s), st.norm(n), I)
            return [(st, d)]
        if st.eq0(n):
            return [(st, d)]
        return super().memcpy(eng, st, I, d, s, n)

    # ---- slots --------------------------------------------------------------------------------
    def slot(self, st, addr):
        """key of the slot at addr; an untouched table slot holds an arbitrary entry"""
        b, o = split_addr(st.norm(addr))
        if b is None:
            return None
        for k in st.ts:
            if isinstance(k, tuple) and k[0] == "slot" and k[1] is b and st.eq0(k[2] - o):
                return k
        if b in self.tables:
            k = ("slot", b, o)
            h = term("hash", b, o, self.gen, nn=True, ub=None)
            st.ts[k] = (("at", b, o, self.gen), P(h))
            return k
        return None

    gen = 0

    def reset(self, st, b):
        """forget the content of a table"""
        for k in [k for k in st.ts if isinstance(k, tuple) and k[0] == "slot" and k[1] is b]:
            del st.ts[k]
        MapModel.gen += 1
        self.gen = MapModel.gen

    def put(self, st, addr, v):
        b, o = split_addr(st.norm(addr))
        k = self.slot(st, addr) or ("slot", b, o)
        st.ts[k] = v

    def alive(self, st, addr, I, what):
        b, o = split_addr(st.norm(addr))
        if b in self.tables:
            if st.ts.get(("buf", b)) != "live":
                self.viol(st, "dead-table", "%s of a table that was freed" % what, I)
            z = st.ts.get(("zeroed", b))
            if z is not None and not st.ent(z - st.ts[("size", b)]):
                self.viol(st, "unzeroed", "%s of a new table that was not cleared" % what, I)
            if not (st.ent(o) and st.ent(st.ts[("size", b)] - o - self.SS)):
                self.viol(st, "out-of-table", "%s at offset %r of a table of %r bytes" % (what, o, st.ts[("size", b)]), I)

    def on_load(self, eng, st, base, off, size, ty, inst):
        if base in self.tables and inst is None:
            return None
        k = None
        if base in self.tables or any(isinstance(k, tuple) and k[0] == "slot" and k[1] is base for k in st.ts):
            if size == 8 and ty == "i64":
                a = P(base) + off - self.ho
                k = self.slot(st, a)
                if k:
                    self.alive(st, a, inst, "read")
                    return st.norm(st.ts[k][1])
        return None

    def on_store(self, eng, st, base, off, size, v, inst):
        if base in self.tables:
            a = P(base) + off - self.ho
            if size == 8 and isinstance(v, Poly) and st.eq0(v):
                st.event("drop", st.norm(a), self.ent(st, a), inst)
                self.put(st, a, (None, ZERO))
                return True
            self.viol(st, "raw-write", "writes %r into a table" % (v,), inst)
            return True
        return False

    def ent(self, st, addr):
        k = self.slot(st, addr)
        return st.ts[k][0] if k else "?"

    def s_empty(self, eng, st, I, a):
        self.put(st, a[0], (None, ZERO))
        return [(st, None)]

    def kid(self, eng, st, addr):
        return st.norm(eng.load(st, addr, 8, "i64"))

    def hk(self, st, kid):
        h = term("hk", kid, nn=True)
        if (P(h) - 1) not in st.facts:
            st.facts = st.facts + (P(h) - 1,)
        return P(h)

    def s_make(self, eng, st, I, a):
        k, v = self.kid(eng, st, a[1]), self.kid(eng, st, a[2])
        self.put(st, a[0], (("new", k, v), self.hk(st, k)))
        st.event("make", k, v, I)
        return [(st, None)]

    def take(self, st, dst, src, I, what):
        self.alive(st, src, I, "move")
        self.alive(st, dst, I, "move")
        ks = self.slot(st, src)
        if ks is None:
            self.viol(st, "no-slot", "moves from %r, which is no slot" % (st.norm(src),), I)
            return
        e, h = st.ts[ks]
        old = self.ent(st, dst)
        if st.eq0(P(dst) - P(src)):
            self.viol(st, "self-move", "a slot is assigned to itself", I)
        self.put(st, dst, (e, h))
        st.ts[ks] = (None, ZERO)
        pd = st.ts.get("pend")
        if pd and ks == pd[1] and what == "put" and st.eq0(P(dst) - pd[0]):
            st.ts["res"] = ("placed", pd[0] if pd[2] is None else pd[2], pd[3], pd[4])
            st.ts["count"] = st.ts.get("count", 0) + (1 if pd[3] == "added" else 0)
            del st.ts["pend"]
        st.event(what, st.norm(dst), st.norm(src), e, old if what == "put" else None, I)

    def s_move(self, eng, st, I, a):
        self.take(st, a[0], a[1], I, "init")
        return [(st, None)]

    def s_assign(self, eng, st, I, a):
        self.take(st, a[0], a[1], I, "put")
        return [(st, a[0])]

    def s_drop(self, eng, st, I, a):
        b, o = split_addr(st.norm(a[0]))
        if b in self.tables or self.slot(st, a[0]):
            self.alive(st, a[0], I, "destruction")
            st.event("drop", st.norm(a[0]), self.ent(st, a[0]), I)
            self.put(st, a[0], (None, ZERO))
        return [(st, None)]

    def s_clone(self, eng, st, I, a):
        k = self.slot(st, a[1])
        e, h = st.ts[k] if k else ("?", ZERO)
        # a clone's key hashes to the same value
        self.put(st, a[0], (("clone", e) if e is not None else None, h))
        return [(st, None)]

    def hashnz(self, eng, st, I, a):
        return [(st, self.hk(st, self.kid(eng, st, a[0])))]

    def copy(self, eng, st, I, a):
        st.event("copykv", st.norm(a[1]), I)
        eng.store(st, a[0], self.kid(eng, st, a[1]), 8, I, "i64")
        return [(st, a[0])]

    def default(self, eng, st, I, a):
        eng.store(st, a[0], P(term("vdefault")), 8, I, "i64")
        return [(st, None)]

    def keq(self, eng, st, I, a):
        who = []
        for x in a[:2]:
            x = st.norm(x)
            k = None
            for key in list(st.ts):
                if isinstance(key, tuple) and key[0] == "slot" and st.eq0(x - P(key[1]) - key[2] - self.po):
                    k = key
            b, o = split_addr(x)
            if k is None and b in self.tables:
                k = self.slot(st, x - self.po)
            if k is not None:
                if st.eq0(st.ts[k][1]):
                    self.viol(st, "empty-key", "compares the key of an empty slot", I)
                elif st.decide(c_ge(st.ts[k][1] - 1)) is None:
                    self.viol(st, "empty-key", "may compare the key of an empty slot", I)
                who.append(st.ts[k][0])
            else:
                who.append(("key", self.kid(eng, st, x)))
        t = c_ne(P(term("keq", tuple(map(repr, who)), nn=True, ub=1)))
        st.event("eq", who[0], who[1], t, I)
        return [(st, t)]


class MapEngine(TraceEngine):
    """loops over slots are generic iterations of one of four kinds"""
    notes = None
    this = None                 # address of the map being operated on
    depth = 0

    def note(self, ok, rule, msg, st):
        self.notes.append((ok, rule, msg, st))

    def binop(self, st, op, a, b, ty):
        if op in ("lshr", "and", "urem") and isinstance(a, Poly) and isinstance(b, Poly) and ty == "i64":
            a, b = st.norm(a), st.norm(b)
            if op == "lshr" and not a.is_const():
                for c in self.caps(st):
                    if st.eq0(b - 1 - self.model.ctlz_(st, c)):
                        if st.eq0(a):
                            return [(st, ZERO)]
                        st = st.copy()
                        return [(st, self.model.ideal(st, a, c))]
            if op in ("and", "urem"):
                for c in self.caps(st):
                    if op == "and" and st.eq0(a - c + 1):
                        a, b = b, a
                    if st.eq0(b - c + (1 if op == "and" else 0)) and not a.is_const():
                        for k in (0, 1, -1):
                            if st.ent(a - c * k) and st.ent(c * (k + 1) - 1 - a):
                                return [(st, a - c * k)]
                        if st.ent(a + c) and st.ent(c * 2 - 1 - a):
                            raise NeedSplit(c_ge(a - c) if st.ent(a) else c_ge(a))
        return super().binop(st, op, a, b, ty)

    def caps(self, st):
        out = []
        for m in self.maps:
            ob = st.mem.get(m)
            c = ob.cells.get(P(self.model.F["capacity"])) if ob else None
            if c and isinstance(c[1], Poly):
                out.append(st.norm(c[1]))
        return out

    def field(self, st, m, n):
        return st.norm(self.load(st, P(m) + self.model.F[n], 8, "ptr" if n == "data" else "i64"))

    # ---- loop kinds ---------------------------------------------------------------------------
    def kind(self, fn, L):
        eq = put = False
        for b in L.blocks:
            if b != L.header and b in fn.loops:
                return "scan"
            for I in fn.blocks[b]:
                if I["op"] == "call" and I.get("fn"):
                    d = self.mod.dname(I["fn"])
                    eq |= d.startswith("KT::operator==")
                    put |= bool(re.match(SL + r"::operator=", d))
        return "insert" if eq and put else "lookup" if eq else "fixup" if put else "scan"

    def exec_loop(self, fn, L, prev, st0):
        self.stats["loops"] += 1
        k = self.kind(fn, L)
        if k == "scan":
            return self.scan(fn, L, prev, st0)
        return self.probe(fn, L, prev, st0, k)

    def entries(self, fn, L, prev, st):
        out = {}
        for I in self.header_phis(fn, L):
            for pb, o in I["in"]:
                if pb == prev:
                    v = self.val(st, o)
                    if not isinstance(v, Poly):
                        raise AnalysisError("loop variable of another type at %s" % self.loopname(fn, L))
                    out[I["id"]] = (I["ty"], st.norm(v))
        return out

    def latchvals(self, fn, L, T, frm):
        out = {}
        for I in self.header_phis(fn, L):
            for pb, o in I["in"]:
                if pb == frm:
                    out[I["id"]] = T.norm(self.val(T, o))
        return out

    def owner(self, st, fn, L):
        """the map whose table this loop walks"""
        ms = []
        for m in self.maps:
            try:
                d = self.field(st, m, "data")
            except AnalysisError:
                continue
            b, o = split_addr(d)
            if b is not None and b in self.model.tables and st.eq0(o):
                ms.append((m, b))
        return ms

    def probe(self, fn, L, prev, st0, kind):
        m = self.model
        E = self.entries(fn, L, prev, st0)
        name = self.loopname(fn, L)
        self.counts[kind] = self.counts.get(kind, 0) + 1
        for mp, D in self.owner(st0, fn, L):
            cap = self.field(st0, mp, "capacity")
            h = None
            pos = None
            for i, (ty, v) in E.items():
                b, o = split_addr(v)
                x = v if ty == "i64" else None
                if ty == "ptr" and b is D:
                    x = o.div_exact(m.SS)
                if x is None:
                    continue
                ts = [t for t in x.terms()]
                if kind != "fixup" and len(ts) == 1 and ts[0].op == "ideal" and x == P(ts[0]) and st0.eq0(P(ts[0].args[1]) - cap):
                    h, pos = P(ts[0].args[0]), i
                if kind == "fixup":
                    k = m.slot(st0, P(D) + x * m.SS) if ty == "i64" else None
                    if k and st0.ts[k][0] is None:
                        pos = i
            if pos is not None:
                break
        else:
            raise AnalysisError("the starting slot of the %s loop is not recognised at %s: %r" % (kind, name, [v[1] for v in E.values()]))
        if not m.is_pow2(st0, cap):
            self.note(False, "capacity", "probing a table of capacity %r, which is not a power of two" % cap, st0)
        sh = self.field(st0, mp, "shift")
        if not st0.eq0(sh - 1 - m.ctlz_(st0, cap)):
            self.note(False, "shift", "probing with shift %r in a table of capacity %r" % (sh, cap), st0)
        S = None
        if kind == "insert":
            for k in st0.ts:
                if isinstance(k, tuple) and k[0] == "slot" and k[1] is not D and st0.ts[k][0] is not None and st0.eq0(st0.ts[k][1] - h):
                    S = k
            if S is None:
                raise AnalysisError("the entry being inserted is not recognised at %s" % name)
        zeros = [ph for ph, (ty, v) in E.items() if ph != pos and ty == "i64" and st0.eq0(v) and not st0.eq0(v - E[pos][1])] if kind == "insert" else []
        keep = len(self.notes)
        for dv in zeros[:4] if len(zeros) > 1 else [None]:
            # other counters may run along: any of them may be the distance
            del self.notes[keep:]
            res = []
            for mode in (("own", "moved") if kind == "insert" else ("own",)):
                res += self.generic(fn, L, st0, kind, mp, D, cap, h, pos, E, S, mode, dv)
            if all(n[0] for n in self.notes[keep:]):
                break
        return res

    def generic(self, fn, L, st0, kind, mp, D, cap, h, pos, E, S, mode, dv):
        m = self.model
        name = self.loopname(fn, L)
        if "pend" in st0.ts:
            self.note(False, "not-placed", "an insertion goes on before the entry in hand was put into the table", st0)
        i = P(fresh("slot", nn=True))
        H0 = st0.copy()
        H0.facts = H0.facts + (cap - 1 - i,)
        m.reset(H0, D)
        gen = m.gen
        placed0 = None
        if mode == "moved":
            hh = P(fresh("hash", nn=True))
            H0.facts = H0.facts + (hh - 1,)
            H0.ts[S] = (("displaced",), hh)
            placed0 = P(fresh("placed", ptr=True, nn=True))
            H0.facts = H0.facts + (placed0 - 1,)
            h = hh
        ent = H0.ts[S][0] if S else None
        res = []
        heads = []
        if kind == "fixup":
            H0.ts[("slot", D, H0.norm(i * m.SS))] = (None, ZERO)
            heads = [(H0, None)]
        else:
            idl = m.ideal(H0, h, cap)
            for s in H0.assume(c_ge(i - idl)):
                heads.append((s.copy(), i - idl))
            for s in H0.assume(c_ge(idl - i - 1)):
                heads.append((s.copy(), cap + i - idl))
        roles = {}
        for ph, (ty, v) in E.items():
            b, o = split_addr(v)
            if ph == pos:
                roles[ph] = "pos" if ty == "i64" else "posptr"
            elif ty == "i64" and st0.eq0(v - E[pos][1]):
                roles[ph] = "pos"
            elif ty == "i64" and (st0.eq0(v - E[pos][1] - 1) or kind == "fixup" and st0.eq0(v) and st0.eq0(E[pos][1] + 1 - cap)):
                roles[ph] = "next"
            elif ty == "i64" and st0.eq0(v) and kind != "fixup" and dv in (None, ph):
                roles[ph] = "dist"
            elif ty == "ptr" and st0.eq0(v) and kind == "insert":
                roles[ph] = "placed"
            elif ty == "ptr" and b is D and E[pos][0] == "i64" and st0.eq0(o - E[pos][1] * m.SS):
                roles[ph] = "posptr"
            elif ty == "i64":
                roles[ph] = "any"       # any value
            else:
                raise AnalysisError("a loop variable starting as %r is not understood at %s" % (v, name))
        if kind == "insert" and "placed" not in roles.values():
            raise AnalysisError("no variable remembers where the entry went at %s" % name)
        if "next" in roles.values():
            heads = [(s.copy(), d, n) for h_, d in heads for n, c in ((i + 1, c_ge(cap - 2 - i)), (ZERO, c_eq(i + 1 - cap))) for s in h_.assume(c)]
        else:
            heads = [(h_, d, None) for h_, d in heads]
        val = lambda r, ii, dd, pl: ii if r == "pos" else P(D) + ii * m.SS if r == "posptr" else dd if r == "dist" else P(fresh("counter", nn=True)) if r == "any" else pl
        here = P(D) + i * m.SS
        for H, dist, nxt in heads:
            for ph, r in roles.items():
                H.env[ph] = nxt if r == "next" else val(r, i, dist, placed0 if placed0 is not None else ZERO)
            mark0 = H.log
            for out in self.walk_iter_env(fn, L, H):
                T = out[1]
                if out[0] == "die":
                    res.append(out)
                    continue
                ev = T.events(mark0)
                eqs = [e for e in ev if e[0] == "eq"]
                moves = [e for e in ev if e[0] in ("put", "init", "drop")]
                at = ("at", D, None)
                k = None
                k0 = ("hash", D)
                own = lambda e: isinstance(e, tuple) and e[0] == "at" and e[1] is D
                # what is known about the entry that was in this slot
                hs = [t for f in list(T.facts) + list(T.neqs) + [P(x) for x in T.sm] + list(T.sm.values()) for t in deep_terms(f)
                      if t.op == "hash" and len(t.args) == 3 and t.args[0] is D and t.args[2] == gen and T.eq0(P(t.args[1]) - (i * m.SS if kind != "fixup" else self.nextoff(T, i, cap)))]
                hs += [next(iter(st_[1].terms())) for kk, st_ in T.ts.items() if isinstance(kk, tuple) and kk[0] == "slot" and isinstance(st_[1], Poly)
                       and len(st_[1].terms()) == 1 and next(iter(st_[1].terms())).op == "hash" and next(iter(st_[1].terms())).args[0] is D and next(iter(st_[1].terms())).args[2] == gen
                       and T.eq0(P(next(iter(st_[1].terms())).args[1]) - (i * m.SS if kind != "fixup" else self.nextoff(T, i, cap)))]
                kh = P(hs[0]) if hs else None
                kz = T.decide(c_eq(kh)) if kh is not None else None
                if kind == "fixup":
                    res += self.fixup_out(fn, L, out, T, moves, i, cap, D, kh, kz, roles, name)
                    continue
                hit = any(T.decide(e[3]) is True and any(own(x) for x in e[1:3]) for e in eqs)
                miss = kz is True or any(T.decide(e[3]) is False and any(own(x) for x in e[1:3]) for e in eqs) or \
                    kh is not None and T.decide(c_ne(kh - h)) is True
                closer = self.closer(T, kh, i, dist, cap) if kh is not None and kz is not True else None
                if kind == "lookup":
                    if out[0] == "latch":
                        if not miss:
                            self.note(False, "passes-match", "the search leaves a slot although its key may be the one sought", T)
                            continue
                        if moves:
                            self.note(False, "moves", "a search changes the table", T)
                        if kz is not False and not all(s.ent(i - dist) for s in (T.assume(c_eq(kh)) if kh is not None else [T])):
                            self.note(False, "passes-empty", "the search may go on for ever past empty slots", T)
                        self.goes_on(fn, L, out, T, roles, i, dist + 1, cap, D, None)
                    else:
                        T.ts["seek"] = h
                        if hit:
                            T.ts["res"] = ("found", here)
                            self.note(True, "found", "", T)
                        elif kz is True or closer is True:
                            T.ts["res"] = ("none",)
                            self.note(True, "absent", "", T)
                        else:
                            self.note(False, "stops-early", "the search ends at a slot that proves nothing (neither an equal key, nor empty, nor an entry nearer to its ideal slot)", T)
                            T.ts["res"] = ("none",)
                        res.append(out)
                    continue
                # insertion
                now_here, now_S = m.ent(T, here), T.ts[S][0]
                pl = placed0
                if out[0] == "latch":
                    if not moves:
                        if kz is not False:
                            self.note(False, "passes-empty", "the insertion passes a slot that may be empty", T)
                        elif not miss and not mode == "moved":
                            self.note(False, "passes-match", "the insertion passes a slot whose key may be equal", T)
                        elif closer is not False:
                            self.note(False, "passes-richer", "the insertion passes an entry that may be nearer to its ideal slot", T)
                        else:
                            self.goes_on(fn, L, out, T, roles, i, dist + 1, cap, D, placed0 if placed0 is not None else ZERO)
                        continue
                    if kz is not False or closer is not True or not (repr(now_here) == repr(ent) and own(now_S)):
                        self.note(False, "bad-exchange", "an insertion step displaces an entry that is not nearer to its ideal slot, or loses one: the slot holds %r, in hand is %r" % (now_here, now_S), T)
                        continue
                    if placed0 is None:
                        pl = here
                    for s in T.assume(c_ge(i - m.ideal(T, kh, cap))):
                        self.goes_on(fn, L, out, s.copy(), roles, i, i - m.ideal(T, kh, cap) + 1, cap, D, pl)
                    for s in T.assume(c_ge(m.ideal(T, kh, cap) - i - 1)):
                        self.goes_on(fn, L, out, s.copy(), roles, i, cap + i - m.ideal(T, kh, cap) + 1, cap, D, pl)
                    continue
                if hit and mode == "moved":
                    continue        # a displaced entry's key is nowhere else
                if not moves and out[0] == "exit":
                    # the entry may be put into the slot after the loop
                    if not hit and kz is not True:
                        self.note(False, "overwrites", "the insertion ends at an entry that may have another key", T)
                        continue
                    T.ts["pend"] = (H.norm(here), S, placed0, "replaced" if hit else "added", st0.ts[S][0])
                    res.append(out)
                    continue
                if repr(now_here) != repr(ent) or now_S is not None or any(e[0] != "put" for e in moves) or len(moves) != 1:
                    self.note(False, "not-placed", "the insertion ends although the entry in hand was not put into the slot", T)
                    continue
                if not hit and kz is not True:
                    self.note(False, "overwrites", "the insertion overwrites an entry that may have another key", T)
                    continue
                T.ts["res"] = ("placed", H.norm(here) if mode == "own" else placed0, "replaced" if hit else "added", st0.ts[S][0])
                T.ts["count"] = T.ts.get("count", 0) + (0 if hit else 1)
                self.note(True, "placed", "", T)
                res.append(out)
        return res

    def nextoff(self, T, i, cap):
        return (i + 1) * self.model.SS if T.decide(c_eq(i + 1 - cap)) is not True else ZERO

    def succ(self, st, v, i, cap):
        """v is the slot after i"""
        return all(s.eq0(v - n) for n, c in ((i + 1, c_ge(cap - 2 - i)), (ZERO, c_eq(i + 1 - cap))) for s in st.assume(c))

    def closer(self, T, kh, i, dist, cap):
        """is the entry with hash kh nearer to its ideal slot than dist?"""
        ki = self.model.ideal(T, kh, cap)
        r = set()
        for s in T.assume(c_ge(i - ki)):
            r.add(s.decide(c_ge(dist - 1 - (i - ki))))
        for s in T.assume(c_ge(ki - i - 1)):
            r.add(s.decide(c_ge(dist - 1 - (cap + i - ki))))
        return r.pop() if len(r) == 1 else None

    def goes_on(self, fn, L, out, T, roles, i, nd, cap, D, pl):
        """the loop goes on with the next slot and the distance to it"""
        m = self.model
        v = self.latchvals(fn, L, T, out[2])
        # never all the way round: some slot is empty
        for s in T.assume(c_ge(cap - 1 - nd)):
            for s2, nx in [(x, i + 1) for x in s.assume(c_ge(cap - 2 - i))] + [(x, ZERO) for x in s.assume(c_eq(i + 1 - cap))]:
                for ph, r in roles.items():
                    if r == "any" or r == "next" and self.succ(s2, v[ph], nx, cap):
                        continue
                    want = nx + 1 if r == "next" else nx if r == "pos" else P(D) + nx * m.SS if r == "posptr" else nd if r == "dist" else pl
                    if not s2.eq0(v[ph] - want):
                        self.note(False, "step-" + r, "the loop goes on with %s %r where %r is next" % (r, s2.norm(v[ph]), s2.norm(want)), s2)
                        return
                self.note(True, "step", "", s2)

    def fixup_out(self, fn, L, out, T, moves, i, cap, D, kh, kz, roles, name):
        m = self.model
        res = []
        for T2, nx in [(x.copy(), i + 1) for x in T.assume(c_ge(cap - 2 - i))] + [(x.copy(), ZERO) for x in T.assume(c_eq(i + 1 - cap))]:
            home = None
            if kh is not None:
                home = T2.decide(c_eq(m.ideal(T2, kh, cap) - nx))
            if out[0] == "latch":
                ok = len(moves) == 1 and moves[0][0] == "put" and T2.eq0(moves[0][1] - P(D) - i * m.SS) and T2.eq0(moves[0][2] - P(D) - nx * m.SS)
                if not ok:
                    self.note(False, "shift-back", "closing the gap does not move the next entry into the hole", T2)
                    continue
                if kz is not False or home is not False:
                    self.note(False, "shift-home", "closing the gap moves an entry that may be at its ideal slot", T2)
                    continue
                v = self.latchvals(fn, L, T2, out[2])
                for ph, r in roles.items():
                    if r == "next" and self.succ(T2, v[ph], nx, cap):
                        continue
                    if r != "any" and not T2.eq0(v[ph] - (nx if r == "pos" else P(D) + nx * m.SS)):
                        self.note(False, "shift-step", "the hole moves to %r but the loop goes on at %r" % (T2.norm(nx), T2.norm(v[ph])), T2)
                        break
                else:
                    self.note(True, "shift", "", T2)
            else:
                if moves:
                    self.note(False, "shift-back", "an entry is moved as the gap is left", T2)
                elif kz is True or home is True:
                    self.note(True, "gap closed", "", T2)
                    T2.ts["closed"] = True
                    res.append((out[0], T2) + out[2:])
                else:
                    self.note(False, "gap-left", "the gap is left open although the next entry may not be at its ideal slot", T2)
        return res

    # ---- loops over all slots -----------------------------------------------------------------
    def scan(self, fn, L, prev, st0):
        """a loop over consecutive slots: its effect on a generic slot is recorded for the operation's specification"""
        m = self.model
        name = self.loopname(fn, L)
        self.counts["scan"] = self.counts.get("scan", 0) + 1
        E = self.entries(fn, L, prev, st0)
        cells = {}
        cap = self.chk.scan_cap(st0)
        first = [v if ty == "i64" or st0.eq0(v) else split_addr(v)[1].div_exact(m.SS) for ty, v in E.values()]
        bounded = [v for v in first if v is not None and st0.ent(cap - v)]
        for rnd in range(6):
            keep = len(self.notes)
            i = P(fresh("i", nn=True))
            H = st0.copy()
            for b in m.tables:
                m.reset(H, b)
            roles = {}
            # an induction variable in slots (or a pointer stepping through a table, or a cell)
            for ph, (ty, v) in E.items():
                b, o = split_addr(v)
                roles[ph] = (v, 1) if ty == "i64" else (v, m.SS) if b in m.tables or st0.eq0(v) else None
                if roles[ph] is None:
                    raise AnalysisError("a loop variable starting as %r is not understood at %s" % (v, name))
                H.env[ph] = v + i * roles[ph][1]
            for (b, o), st_ in cells.items():
                self.set_cell(H, b, o, 8, st_[0] + i if st_[1] else st_[2])
            # never past the last slot: checked below to be kept by every iteration
            H.facts = H.facts + tuple(cap - v - i for v in bounded)
            H.ts["count"] = 0
            H.ts.pop("pend", None)
            H.ts.pop("res", None)
            mark0 = H.log
            H0 = H.copy()
            outs = self.walk_iter_env(fn, L, H)
            stable = True
            for o in outs:
                if o[0] != "latch":
                    continue
                T = o[1]
                for ph, x in self.latchvals(fn, L, T, o[2]).items():
                    if not T.eq0(x - E[ph][1] - (i + 1) * roles[ph][1]):
                        raise AnalysisError("a loop over slots steps irregularly at %s" % name)
                for b in set(T.mem):
                    if T.mem[b] is H0.mem.get(b) and not any(k[0] is b for k in cells):
                        continue
                    for off, c in T.mem[b].cells.items():
                        if b.op.startswith("alloca") and b not in self.maps and not self.carried_cell(fn, L, b):
                            continue
                        hc = H0.mem[b].cells.get(off) if b in H0.mem else None
                        want = None
                        if (b, off) in cells:
                            c0 = cells[(b, off)]
                            if not c0[1]:
                                continue
                            if T.eq0(c[1] - c0[0] - (i + 1)):
                                continue
                            cells[(b, off)] = (c0[0], False, P(fresh("carried", nn=True)))
                            stable = False
                        elif hc is None or not self.veq(T, hc[1], c[1]):
                            if hc is None:
                                continue
                            cells[(b, off)] = (st0.norm(hc[1]), T.eq0(c[1] - hc[1] - 1), P(fresh("carried", nn=True)))
                            stable = False
            kept = [v for v in bounded if all(o[1].ent(cap - v - i - 1) for o in outs if o[0] == "latch")]
            if stable and len(kept) == len(bounded):
                break
            bounded = kept
            del self.notes[keep:]
        else:
            raise AnalysisError("no invariant for the loop at %s" % name)
        lat = []
        for o in outs:
            if o[0] == "latch":
                T = o[1]
                ch = {k: (v[2], T.norm(T.mem[k[0]].cells[k[1]][1])) for k, v in cells.items() if not v[1]}
                lat.append((T, [e for e in T.events(mark0)], T.ts.get("count", 0), T.ts.get("res"), ch))
        rec = dict(name=name, i=i, start=[v for v in first if v is not None] + [c[0] for c in cells.values() if c[1]], lat=lat, exits=[(o[1], o[1].events(mark0)) for o in outs if o[0] in ("exit", "ret")],
                   cells={k: v for k, v in cells.items() if not v[1]}, st0=st0)
        res = []
        self.scans.append(rec)
        n = len(self.scans) - 1
        for o in outs:
            if o[0] == "latch":
                continue
            T = o[1]
            T.ts["scans"] = st0.ts.get("scans", ()) + ((n, i),)
            T.ts["count"] = st0.ts.get("count", 0)
            if "res" in st0.ts:
                T.ts["res"] = st0.ts["res"]
            T = self.opspec.after_scan(self, T, rec) or T
            res.append((o[0], T) + o[2:])
        return res

    def carried_cell(self, fn, L, b):
        return True
