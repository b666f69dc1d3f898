"""Owning single-object types: optional, unique box, counted references."""
from seqcheck import *


class OptShape:
    """content in the object itself, present iff the flag is set"""

    def __init__(self, rec, S):
        self.S, self.f_ok, self.f_val = S, fld(rec, "ok_", 0), fld(rec, "value_", 1)

    def fields(self, eng, st, base):
        return (st.norm(eng.load(st, P(base) + self.f_ok, 1, "i8")), P(base) + self.f_val)

    def init(self, eng, st, base, model, al="0", pre=None):
        out = []
        self.model = model
        for v in (0, 1):
            s = st.copy()
            eng.store(s, P(base) + self.f_ok, P(v), 1, None, "i8")
            segs = [Seg(1, "o", base, self.f_val)] if v else []
            for k, d in to_meas([x for g in segs for x in ivals(self.S, base, g, P(self.f_val))]).items():
                s.meas[k] = d
            out.append(("engaged" if v else "empty", s, segs))
        return out

    def final(self, eng, st, base, segs, al="0"):
        ok = eng.load(st, P(base) + self.f_ok, 1, "i8")
        ok = eng.b2i(st, ok) if is_cond(ok) else ok
        if isinstance(ok, list):
            raise AnalysisError("flag value %r" % (ok,))
        if segs and segs[0].kind == "m":
            # moved from: empty, or engaged with a shell that is still destroyed later
            out = [(s, None, None, []) for s in st.assume(c_eq(ok))]
            for s in st.assume(c_ne(ok)):
                out.append((s, None if self.model.trivial or self.model.shell(s, base, P(self.f_val)) else
                            "engaged flag is set but the storage holds no object", None, []))
            return out
        want = 1 if segs else 0
        if not st.eq0(ok - want):
            return [(st, "engaged flag is %r, expected %d" % (st.norm(ok), want), None, [])]
        return [(st, None, None, [x for g in segs for x in ivals(self.S, base, g, P(self.f_val))])]


class BoxShape:
    """a pointer that owns one heap object"""

    def __init__(self, rec, S):
        self.S, self.f = S, fld(rec, "data_", 0)

    def fields(self, eng, st, base):
        return (st.norm(eng.load(st, P(base) + self.f, 8, "ptr")),)

    def init(self, eng, st, base, model, al="0", pre=None):
        st = st.copy()
        d, = self.fields(eng, st, base)
        out = [("null", s.copy(), []) for s in st.assume(c_eq(d))]
        for s in st.assume(c_ge(d - 1)):
            s = s.copy()
            db = split_addr(d)[0]
            model.new_buf(s, db, P(self.S), al)
            segs = [Seg(1, "o", db, 0)]
            for k, dd in expected(self.S, db, segs).items():
                s.meas[k] = dd
            out.append(("owning", s, segs))
        return out

    def final(self, eng, st, base, segs, al="0"):
        d, = self.fields(eng, st, base)
        if not segs:
            return [(st, None if st.eq0(d) else "ownership: expected null, got %r" % d, None, [])]
        b, o = split_addr(d)
        if b is None or ("buf", b) not in st.ts or not st.eq0(o):
            return [(st, "ownership: %r is not an owned object" % (d,), None, [])]
        if st.ts[("al", b)] != al:
            return [(st, "storage comes from allocator %s, not %s" % (st.ts[("al", b)], al), None, [])]
        return [(st, None, b, [x for g in segs for x in ivals(self.S, b, g, ZERO)])]


class RcModel(ContModel):
    """counted blocks: the count of every live block equals the number of handles to it.

    ts ('ext', b): handles held elsewhere.  For the atomic variant the other holders run concurrently: after this
    thread's own decrement leaves a positive count, the block may disappear at any moment, so any later access is an error;
    an increment must happen while this thread holds a handle."""

    def __init__(self, trivial=False, f_refs=0, atomic=False):
        super().__init__(trivial)
        self.f_refs, self.atomic = f_refs, atomic
        A = r"rpp::Thread::Atomic::"
        self.h(A + r"incr\(\)", lambda e, st, I, a: self.at_op(e, st, I, a[0], 1))
        self.h(A + r"decr\(\)", lambda e, st, I, a: self.at_op(e, st, I, a[0], -1))
        self.h(A + r"load\(\)", lambda e, st, I, a: self.at_op(e, st, I, a[0], 0))
        self.h(A + r"exchange|" + A + "compare_and_swap", self.at_other)

    def at_other(self, e, st, I, a):
        raise AnalysisError("atomic exchange on a reference count")

    def at_op(self, e, st, I, p, d):
        p = st.norm(p)
        self.in_atomic = True
        try:
            v = e.load(st, p, 8, "i64", I)
            new = st.norm(v + d)
            if d:
                e.store(st, p, new, 8, I, "i64")
        finally:
            self.in_atomic = False
        b, o = split_addr(p)
        if b is not None and ("buf", b) in st.ts and d < 0:
            out = []
            for s in st.assume(c_ge(new - 1)):
                s = s.copy()
                s.ts[("buf", b)] = "released"
                out.append((s, new))
            for s in st.assume(c_eq(new)):
                out.append((s.copy(), new))
            for s in st.assume(c_ge(-new - 1)):
                out.append((s.copy(), new))
            return out
        if d == 0:
            # other holders may change the count at any time
            return [(st, P(fresh("count", nn=True)) if b is not None and ("buf", b) in st.ts and self.shared(st, b, v) else v)]
        return [(st, new)]

    def shared(self, st, b, v):
        return False

    def check_access(self, st, b, off, n, inst, what):
        if st.ts.get(("buf", b)) == "released":
            self.viol(st, "use-after-release", "%s of a shared block after this thread gave up its reference" % what, inst)
            return
        if self.atomic and ("buf", b) in st.ts and not getattr(self, "in_atomic", False) and ("ctl", b) in st.ts:
            if st.eq0(off - self.f_refs):
                self.viol(st, "plain-count", "%s of the shared count without an atomic operation" % what, inst)
        super().check_access(st, b, off, n, inst, what)

    def a_free(self, eng, st, I, a):
        b, o = split_addr(st.norm(a[0]))
        if b is not None and st.ts.get(("buf", b)) == "released":
            self.viol(st, "free-shared", "a block other references still use is freed", I)
            return [(st, None)]
        return super().a_free(eng, st, I, a)


class RcShape:
    def __init__(self, rec, recd, S, atomic):
        p = "q" if atomic else "r"
        self.S, self.f, self.atomic = S, fld(rec, "data_", 0), atomic
        self.f_refs, self.f_val = fld(recd, "references", 0), fld(recd, "value", 1)
        self.size = self.f_val + S

    def fields(self, eng, st, base):
        return (st.norm(eng.load(st, P(base) + self.f, 8, "ptr")),)

    def init(self, eng, st, base, model, al="0", pre=None):
        st = st.copy()
        d, = self.fields(eng, st, base)
        out = [("null", s.copy(), []) for s in st.assume(c_eq(d))]
        for s in st.assume(c_ge(d - 1)):
            s = s.copy()
            db = split_addr(d)[0]
            model.new_buf(s, db, P(self.size), al)
            r = fresh("refs", nn=True)
            s = s.assume1(c_ge(P(r) - 1)).copy()
            eng.store(s, d + self.f_refs, P(r), 8, None, "i64")
            s.ts[("ctl", db)] = True
            s.ts[("ext", db)] = P(r) - 1
            segs = [Seg(1, "o", db, self.f_val)]
            for k, dd in to_meas(ivals(self.S, db, segs[0], P(self.f_val))).items():
                s.meas[k] = dd
            out.append(("held", s, segs))
        # the same block as an earlier handle
        for k, v in list(st.ts.items()):
            if isinstance(k, tuple) and k[0] == "ext":
                b = k[1]
                for s in st.assume(c_ge(v - 1)):
                    s = s.copy()
                    eng.store(s, P(base) + self.f, P(b), 8, None, "ptr")
                    s.ts[("ext", b)] = s.norm(v - 1)
                    out.append(("same block", s, [Seg(1, "o", b, self.f_val)]))
        return out

    def final(self, eng, st, base, segs, al="0"):
        d, = self.fields(eng, st, base)
        if not segs:
            return [(st, None if st.eq0(d) else "handle: expected null, got %r" % d, None, [])]
        b, o = split_addr(d)
        if b is None or ("buf", b) not in st.ts or not st.eq0(o):
            return [(st, "handle: %r is not a counted block" % (d,), None, [])]
        if st.ts[("al", b)] != al:
            return [(st, "storage comes from allocator %s, not %s" % (st.ts[("al", b)], al), None, [])]
        g = segs[0]
        if g.base is not None and ("ctl", g.base) in st.ts and b is not g.base:
            return [(st, "handle: refers to another block than expected", None, [])]
        return [(st, None, b, [(b, g)])]

    def close(self, eng, model, st, expect, owners):
        """every live block: count = handles, content present; every freed block: no handle left"""
        n, seg = {}, {}
        for b, g in expect:
            n[b] = n.get(b, 0) + 1
            seg[b] = g
        iv = []
        for k, v in list(st.ts.items()):
            if not (isinstance(k, tuple) and k[0] == "buf"):
                continue
            b = k[1]
            h = P(n.get(b, 0)) + st.ts.get(("ext", b), ZERO)
            if v == "freed":
                if not st.eq0(h):
                    return [(st, "dangling: the block is freed although %r handles remain" % (st.norm(h),))]
                continue
            model.in_atomic = True
            st.ts[k] = "live"
            r = eng.load(st, P(b) + self.f_refs, 8, "i64")
            model.in_atomic = False
            if not st.eq0(r - h):
                return [(st, "count: %r after the operation, but %r handles exist" % (st.norm(r), st.norm(h)))]
            if not st.ent(h - 1):
                return [(st, "leak: no handle is left but the block is not freed")]
            g = seg.get(b) or Seg(1, "o", b, self.f_val)
            iv += ivals(self.S, b, g, P(self.f_val))
        return close_state(model, st, iv, [k[1] for k, v in st.ts.items() if isinstance(k, tuple) and k[0] == "buf" and v == "live"])


class VariantModel(ContModel):
    def __init__(self):
        super().__init__(False)
        self.typed = True
        self.h(r"^v_seen$", lambda e, st, I, a: [(st, P(term("seen", st.norm(a[0]), st.norm(a[1]), nn=True)))])


class VariantShape:
    """the index names the alternative whose object lives in the data"""

    def __init__(self, rec, S, n):
        self.S, self.n = S, n
        self.f_data, self.f_idx = fld(rec, "data_", 0), fld(rec, "index_", 1)

    def fields(self, eng, st, base):
        return (P(base) + self.f_data, st.norm(eng.load(st, P(base) + self.f_idx, 1, "i8")))

    def init(self, eng, st, base, model, al="0", pre=None):
        out = []
        for v in range(self.n):
            s = st.copy()
            eng.store(s, P(base) + self.f_idx, P(v), 1, None, "i8")
            g = Seg(1, "o", base, self.f_data)
            g.alt = v
            for k, d in to_meas(ivals(self.S, base, g, P(self.f_data))).items():
                s.meas[k] = d
            s.ts[("ty", base, P(self.f_data))] = "TokN<%d>" % v
            out.append(("alt %d" % v, s, [g]))
        return out

    def final(self, eng, st, base, segs, al="0"):
        idx = st.norm(eng.load(st, P(base) + self.f_idx, 1, "i8"))
        g = segs[0]
        if not st.eq0(idx - g.alt):
            return [(st, "index is %r, expected %d" % (idx, g.alt), None, [])]
        off = P(self.f_data)
        if g.kind == "m":
            return [(st, None, None, [])]
        t = st.ts.get(("ty", base, off))
        if t != "TokN<%d>" % g.alt:
            return [(st, "type: the stored object is a %s, expected alternative %d" % (t, g.alt), None, [])]
        return [(st, None, None, ivals(self.S, base, g, off))]


def variant_ops(p, froms):
    O = []
    add = O.append
    h = "h_%s_" % p

    def like(kind, src):
        def f(a):
            s0 = a.segs[src][0]
            g = Seg(1, kind or s0.kind, s0.base, s0.pos)
            g.alt = s0.alt
            return [g]
        return f

    def val(i):
        def f(a):
            g = Seg(1, "o", a.base[1], 0)
            g.alt = i
            return [g]
        return f
    add(Op(h + "ctor_move", ["O", "C"], {0: like(None, 1), 1: like("m", 1)}))
    add(Op(h + "assign_move", ["C", "C"], {0: like(None, 1), 1: like("m", 1)}))
    add(Op(h + "dtor", ["C"], dead=[0]))
    add(Op(h + "clone", ["O", "C"], {0: like("c", 1)}))
    for f in ("match", "cmatch", "rmatch"):
        add(Op(h + f, ["C"], ret=lambda a, s: P(term("seen", P(a.segs[0][0].alt), a.f[0][0], nn=True))))
    add(Op(h + "index", ["C"], ret=lambda a, s: P(a.segs[0][0].alt)))
    for i in froms:
        add(Op(h + "from%d" % i, ["O", "E"], {0: val(i)}, moved=[1]))
        add(Op(h + "assign%d" % i, ["C", "E"], {0: val(i)}, moved=[1]))
    return O


class FnModel(ContModel):
    def __init__(self):
        super().__init__(False)
        self.typed = True
        self.h(r"^v_call$", self.v_call)
        self.h(r"^v_callm$", self.v_callm)

    def v_call(self, eng, st, I, a):
        w = st.norm(a[0])
        if w.is_const() and w.cval() in (0, 1):
            p = st.norm(a[1])
            g = self.get(eng, st, p, I, "call of a closure using its captured object")
            if g is None:
                return [(st, ZERO)]
            if g[2][2] == "M":
                self.viol(st, "use-moved", "a moved-from closure is called", I)
            t = st.ts.get(("ty", g[0], st.norm(g[1])))
            if t is not None and t != "TokN<%d>" % w.cval():
                self.viol(st, "wrong-type", "closure %d is run on the storage of a closure holding %s" % (w.cval(), t), I)
            k, b, pos = self.tag_at(g[2], g[1])
            return [(st, P(term("called", w, k, P(b) if b is not None else ZERO, st.norm(pos), st.norm(a[2]), st.norm(a[3]), nn=True)))]
        return [(st, P(term("called", w, st.norm(a[1]), st.norm(a[2]), st.norm(a[3]), nn=True)))]

    def v_callm(self, eng, st, I, a):
        out = []
        for p in a[:2]:
            g = self.get(eng, st, st.norm(p), I, "closure call")
            if g is None:
                return [(st, ZERO)]
            if g[2][2] == "M":
                self.viol(st, "use-moved", "a closure or argument is moved from when it is used", I)
            k, b, pos = self.tag_at(g[2], g[1])
            out += [k, P(b) if b is not None else ZERO, st.norm(pos)]
        return [(st, P(term("calledm", *out, nn=True)))]


class FnShape:
    """a closure object in the storage, its operations in the table"""

    def __init__(self, mod, rec, r0, r1, S):
        self.S, self.mod = S, mod
        self.f_st, self.f_vt = fld(rec, "storage", 0), fld(rec, "vtable", 1)
        self.cap = (r0["f.t"][0], r1["f.t"][0])
        self.vt = {}
        mod.freeze_tables()
        # the operation tables: what constructing from each closure type leaves in the object
        for n in ("h_f0", "h_f1", "h_f2"):
            fn = mod.fns[n]
            eng = Engine(mod, FnModel())
            st = State()
            for i, x in enumerate(fn.args):
                t = fresh("arg%d" % i, ptr=x["ty"] == "ptr", nn=True)
                st.env[i] = P(t)
                if t.ptr:
                    st = st.assume1(c_ge(P(t) - 1)).copy()
                if i == 0:
                    out = t
                elif t.ptr:
                    for k, d in expected(S, t, [Seg(1, "o", t, 0)]).items():
                        st.meas[k] = d
            outs = [o for o in eng.run(fn, st) if o[0] == "ret"]
            if not outs:
                raise AnalysisError("constructing from a closure never returns")
            v, = self.fields(eng, outs[0][1], out)
            t = bare(v)
            if t is None or not t.op.startswith("@"):
                raise AnalysisError("the operation table is not a global: %r" % (v,))
            self.vt["F" + n[-1]] = t.op[1:]

    def fields(self, eng, st, base):
        return (st.norm(eng.load(st, P(base) + self.f_vt, 8, "ptr")),)

    def init(self, eng, st, base, model, al="0", pre=None):
        out = []
        s = st.copy()
        eng.store(s, P(base) + self.f_vt, ZERO, 8, None, "ptr")
        out.append(("empty", s, []))
        for i in (0, 1, 2):
            s = st.copy()
            g = P(eng.gsym(self.vt["F%d" % i]))
            s = s.assume1(c_ge(g - 1)).copy()
            eng.store(s, P(base) + self.f_vt, g, 8, None, "ptr")
            if i < 2:
                off = P(self.f_st + self.cap[i])
                g = Seg(1, "o", base, off)
                for k, d in to_meas(ivals(self.S, base, g, off)).items():
                    s.meas[k] = d
                s.ts[("ty", base, off)] = "TokN<%d>" % i
            else:
                g = Seg(1, "plain", base, self.f_st)
                g.words = [s.norm(eng.load(s, P(base) + self.f_st + 8 * j, 8, "i64")) for j in (0, 1)]
            g.alt = i
            out.append(("closure %d" % i, s, [g]))
        return out

    def final(self, eng, st, base, segs, al="0"):
        v, = self.fields(eng, st, base)
        if not segs:
            return [(st, None if st.eq0(v) else "the callable should be empty, has table %r" % (v,), None, [])]
        g = segs[0]
        if not st.eq0(v - P(eng.gsym(self.vt["F%d" % g.alt]))):
            return [(st, "table is %r, expected that of closure %d" % (v, g.alt), None, [])]
        if g.alt == 2:
            for j in (0, 1):
                w = st.norm(eng.load(st, P(base) + self.f_st + 8 * j, 8, "i64"))
                if not st.eq0(w - g.words[j]):
                    return [(st, "captured word %d is %r, expected %r" % (j, w, g.words[j]), None, [])]
            return [(st, None, None, [])]
        off = P(self.f_st + self.cap[g.alt])
        return [(st, None, None, ivals(self.S, base, g, off))]


def fn_ops():
    O = []
    add = O.append

    def cap(i, e=1):
        def f(a):
            g = Seg(1, "o", a.base[e], 0)
            g.alt = i
            return [g]
        return f

    def words(a):
        g = Seg(1, "plain", a.base[0], 0)
        g.alt, g.words = 2, [a.val[1], a.val[2]]
        return [g]

    def callret(a, s):
        if not a.segs[0]:
            return ZERO
        g = a.segs[0][0]
        if g.alt == 2:
            return P(term("called", P(2), g.words[0], a.val[1], a.val[2], nn=True))
        return P(term("called", P(g.alt), "o", P(g.base), g.pos, a.val[1], a.val[2], nn=True))
    add(Op("h_f0", ["O", "E"], {0: cap(0)}, moved=[1]))
    add(Op("h_f1", ["O", "E"], {0: cap(1)}, moved=[1]))
    add(Op("h_f2", ["O", "n", "n"], {0: words}))
    add(Op("h_move", ["O", "C"], {0: lambda a: a.segs[1], 1: lambda a: []}))
    add(Op("h_assign", ["C", "C"], {0: lambda a: a.segs[1], 1: lambda a: []}))
    add(Op("h_assign_new", ["C", "E"], {0: cap(0)}, moved=[1]))
    add(Op("h_dtor", ["C"], dead=[0]))
    add(Op("h_call", ["C", "n", "n"], pre=lambda a, s: c_ge(a.len(0) - 1), ret=callret))
    for f in ("h_callm", "h_callr"):
        add(Op(f, ["E", "E"], moved=[0] + ([1] if f == "h_callm" else []),
               ret=lambda a, s: P(term("calledm", "o", P(a.base[0]), ZERO, "o", P(a.base[1]), ZERO, nn=True))))
    return O


class ProdModel(ContModel):
    def __init__(self):
        super().__init__(False)
        self.typed = True
        self.h(r"^v_three$", lambda e, st, I, a: [(st, P(term("three", *[st.norm(x) for x in a], nn=True)))])


class ProdShape:
    """a fixed list of elements at fixed offsets"""

    def __init__(self, offs, S, types=None):
        self.offs, self.S, self.types = offs, S, types

    def fields(self, eng, st, base):
        return tuple(P(base) + o for o in self.offs)

    def init(self, eng, st, base, model, al="0", pre=None):
        st = st.copy()
        self.model = model
        segs = [Seg(1, "o", base, o) for o in self.offs]
        for k, d in to_meas([x for g, o in zip(segs, self.offs) for x in ivals(self.S, base, g, P(o))]).items():
            st.meas[k] = d
        if self.types:
            for o, t in zip(self.offs, self.types):
                st.ts[("ty", base, P(o))] = t
        return [("", st, segs)]

    def final(self, eng, st, base, segs, al="0"):
        iv = []
        for g, o in zip(segs, self.offs):
            if g.kind == "m":
                if not self.model.shell(st, base, P(o)):
                    return [(st, "the moved-from element at byte %d is no longer an object" % o, None, [])]
                continue
            iv += ivals(self.S, base, g, P(o))
        return [(st, None, None, iv)]


def prod_ops(p, n, clone_kinds=None, move=True):
    """clone_kinds: per element 'c' (deep copy)"""
    O = []
    add = O.append
    h = "h_%s_" % p
    mv = lambda i: (lambda a: [Seg(1, "m", None, 0) for g in a.segs[i]])
    add(Op(h + "move", ["O", "C"], {0: lambda a: a.segs[1], 1: mv(1)}))
    add(Op(h + "assign", ["C", "C"], {0: lambda a: a.segs[1], 1: mv(1)}))
    add(Op(h + "dtor", ["C"], dead=[0]))
    if clone_kinds:
        add(Op(h + "clone", ["O", "C"], {0: lambda a: [Seg(1, k, g.base, g.pos) for k, g in zip(clone_kinds, a.segs[1])]}))
    return O


def ctor_op(fn, n, kinds):
    return Op(fn, ["O"] + ["E"] * n, {0: lambda a: [S1(k, a.base[i + 1]) for i, k in enumerate(kinds)]},
              moved=[i + 1 for i, k in enumerate(kinds) if k == "o"])


def S1(kind, base, pos=0, n=1):
    return Seg(n, kind, base, pos)


def addr_op(fn, off):
    return Op(fn, ["C"], ret=lambda a, s: P(a.base[0]) + off)
