"""Path traces of system-level code: every path through a function, with the ordered effects (system calls, atomic
operations, stores to shared objects, lock operations) on it and the facts that hold there.

Loops are analysed once at a generic iteration: everything the body may change is forgotten at the header, the ownership /
lock state must be the same at every latch as at the header (a fixpoint, otherwise the analysis gives up), and the trace
of one iteration is reported separately ('again' paths).  Sequences over any number of iterations are then covered by
(prefix)(iteration)*(exit).
"""
from engine import *
from poly import *
from cont import RppModel
import ir


def primitive_(p):
    """p divided by the greatest common divisor of its coefficients"""
    from math import gcd
    g = 0
    for c in p.t.values():
        if c != int(c):
            return p
        g = gcd(g, int(abs(c)))
    return p.div_exact(g) if g > 1 else p


class Path:
    __slots__ = ("kind", "st", "ret", "ev", "I", "eng", "old", "__dict__")

    def __init__(self, kind, st, ret, ev):
        self.kind, self.st, self.ret, self.ev = kind, st, ret, ev

    def of(self, *names):
        return [e for e in self.ev if e[0] in names]

    def calls(self, *names):
        return [e for e in self.ev if e[0] == "sys" and (not names or e[1] in names)]

    def where(self):
        for e in reversed(self.ev):
            for x in e:
                if isinstance(x, dict) and x.get("loc"):
                    return ir.where(x)
        return "?"

    def show(self):
        out = []
        for e in self.ev:
            x = [y for y in e if not isinstance(y, dict)]
            out.append(" ".join(map(str, x)))
        return "; ".join(out)


class TraceEngine(Engine):
    """Engine whose loops are generic iterations"""
    unroll_first = True

    def __init__(self, mod, model, unroll=12, max_states=6000):
        super().__init__(mod, model, unroll, max_states)
        self.again = []

    def exec_loop(self, fn, L, prev, st0):
        self.stats["loops"] += 1
        if self.unroll_first and self.model.may_unroll(self, fn, L):
            r = self.try_unroll(fn, L, prev, st0)
            if r is not None:
                return r
        pn = getattr(self, "_peeled", ())
        if self.model.peel(fn, L) and (fn, L.header) not in pn:
            # the first iteration is followed from the actual entry state, the others from the generic one
            self._peeled = pn + ((fn, L.header),)
            try:
                res = []
                for o in self.walk_iter(fn, L, prev, st0.copy()):
                    res += [o] if o[0] != "latch" else self.exec_loop(fn, L, o[2], o[1].copy())
                return res
            finally:
                self._peeled = pn
        keep = len(self.again)
        cells, whole = {}, set()
        tsdrop = set()
        rel = self.model.relational
        ghosts = {}                 # ts key -> header symbol
        hsym = {}                   # carried item -> header symbol
        dead = set()                # refuted equality candidates (item, ghost, sign)
        retried = {}
        flags = set()               # truth values that change
        bnds, bdead = {}, set()     # candidate bounds (polynomial over header symbols)
        mk = mark()

        def isptr(st, k):
            b, o = split_addr(st.norm(P(st.ts[k])))
            return b is not None and o.is_const() and o.cval() == 0

        kept = set()
        for gk in self.model.always_ghost if rel else ():
            if gk in st0.ts:
                ghosts[gk] = hsym.setdefault(("ts", gk), fresh("ghost", ptr=isptr(st0, gk), nn=True))

        def entry(item):
            if item[0] == "phi":
                for I in self.header_phis(fn, L):
                    if I["id"] == item[1]:
                        for pb, o in I["in"]:
                            if pb == prev:
                                return st0.norm(self.val(st0, o)) if self.val(st0, o) is not None else None
                return None
            if item[0] == "ts":
                return st0.norm(P(st0.ts[item[1]]))
            ob = st0.mem.get(item[1])
            c = ob.cells.get(item[2]) if ob else None
            return st0.norm(c[1]) if c and isinstance(c[1], Poly) else None

        def now(item, T, frm):
            if item[0] == "phi":
                for I in self.header_phis(fn, L):
                    if I["id"] == item[1]:
                        for pb, o in I["in"]:
                            if pb == frm:
                                v = self.val(T, o)
                                return T.norm(v) if isinstance(v, Poly) else None
                return None
            if item[0] == "ts":
                return T.norm(P(T.ts[item[1]])) if T.ts.get(item[1]) is not None else None
            ob = T.mem.get(item[1])
            c = ob.cells.get(item[2]) if ob else None
            return T.norm(c[1]) if c and isinstance(c[1], Poly) else None

        def carried(item, ty, nn=True):
            """the value of a loop-carried quantity at the head of a generic iteration"""
            if not rel:
                return P(fresh("lc", ptr=ty == "ptr", nn=nn))
            if item not in hsym:
                hsym[item] = fresh("lc", ptr=ty == "ptr", nn=nn)
            e0 = entry(item)
            if e0 is not None:
                gks = list(ghosts)
                if item[0] == "ts":
                    gks = gks[:gks.index(item[1])]          # only in terms of ghosts introduced earlier
                cs = list(self.model.rel_cands(st0, item, e0, gks))
                if self.model.rel_retry and ty == "i8":
                    cs = [("=", 0)] + cs                    # does not change at all
                if cs and all((item,) + c in dead for c in cs) and retried.get(item, 0) < self.model.rel_retry:
                    # may have been refuted only because another quantity was still unrelated
                    retried[item] = retried.get(item, 0) + 1
                    dead.difference_update({(item,) + c for c in cs})
                for gk, sg in cs:
                    if (item, gk, sg) not in dead:
                        used[item] = (gk, sg)
                        if gk == "=":
                            return e0
                        return e0 + (st0.norm(P(H.ts[gk])) - st0.norm(P(st0.ts[gk]))) * sg
            return P(hsym[item])

        for rnd in range(24):
            del self.again[keep:]
            used = {}
            H = st0.copy()
            for gk in ghosts:
                H.ts[gk] = carried(("ts", gk), "i64")
            for I in self.header_phis(fn, L):
                v0 = None
                for pb, o in I["in"]:
                    if pb == prev:
                        v0 = self.val(st0, o)
                if I["ty"] == "i1":
                    H.env[I["id"]] = v0 if self.model.rel_retry and v0 in (TRUE, FALSE) and I["id"] not in flags else c_ne(P(fresh("phib", nn=True, ub=1)))
                elif isinstance(v0, list):
                    H.env[I["id"]] = [P(fresh("phi", nn=True)) for _ in v0]
                else:
                    H.env[I["id"]] = carried(("phi", I["id"]), I["ty"], I["ty"] in INTW or I["ty"] == "ptr")
            for b in whole:
                H.mem[b] = Obj(ver=(H.mem[b].ver if b in H.mem else 0) + 1000 + self.stats["loops"])
            for (b, o), (sz, ty) in cells.items():
                if b not in whole:
                    self.set_cell(H, b, o, sz, carried(("cell", b, o), ty))
            for k in tsdrop:
                H.ts.pop(k, None)
            subH = {}
            for it, sy in hsym.items():
                v = H.ts.get(it[1]) if it[0] == "ts" else H.env.get(it[1]) if it[0] == "phi" else None
                if it[0] == "cell":
                    ob = H.mem.get(it[1])
                    c = ob.cells.get(it[2]) if ob else None
                    v = c[1] if c else None
                if isinstance(v, Poly):
                    subH[sy] = v
            for k, f in bnds.items():
                if k not in bdead:
                    for s in H.assume(c_ge(subst(f, subH)))[:1]:
                        H = s.copy()
            self.model.entry = st0
            H = self.model.loop_head(self, H, fn, L) or H
            H.event("loop", self.loopname(fn, L))
            mark0 = H.log
            H0 = H.copy()
            outs = self.walk_iter_env(fn, L, H)
            lats = [(o[1], o[2]) for o in outs if o[0] == "latch"]
            stable = True
            for T, frm in lats:
                for b in set(T.mem) | set(H0.mem):
                    ob, hb = T.mem.get(b), H0.mem.get(b)
                    if ob is hb or b in whole or hb is None and (b.op.startswith(("alloca", "heap"))):
                        continue
                    if ob is None:
                        continue
                    hc = hb.cells if hb else {}
                    if ob.ver != (hb.ver if hb else 0) or len(ob.blits) != (len(hb.blits) if hb else 0) or len(ob.writes) != (len(hb.writes) if hb else 0):
                        whole.add(b)
                        stable = False
                        continue
                    for o in set(ob.cells) | set(hc):
                        a, c = ob.cells.get(o), hc.get(o)
                        if a == c or (a and c and a[0] == c[0] and self.veq(T, a[1], c[1])):
                            continue
                        if not o.is_const() or (b, o) in cells and a and a[0] != cells[(b, o)][0]:
                            whole.add(b)
                            stable = False
                        elif (b, o) not in cells:
                            x = c or a if not a or isinstance(a[1], Poly) and a[1].is_const() else a
                            cells[(b, o)] = (x[0], self.guess_ty(x))
                            stable = False
                for k in set(T.ts) | set(H0.ts):
                    if T.ts.get(k) != H0.ts.get(k):
                        if k in ghosts and T.ts.get(k) is not None:
                            continue
                        w = self.model.loop_change(self, H0, T, k, fn, L)
                        if w == "ghost":
                            ghosts[k] = hsym.setdefault(("ts", k), fresh("ghost", ptr=isptr(st0, k), nn=True))
                            stable = False
                        elif w == "drop":
                            if k not in tsdrop:
                                tsdrop.add(k)
                                stable = False
                        elif w != "ok":
                            raise AnalysisError("a loop changes the state %r at %s" % (k, self.loopname(fn, L)))
                for I in self.header_phis(fn, L) if self.model.rel_retry else ():
                    if I["ty"] == "i1" and I["id"] not in flags and H0.env[I["id"]] in (TRUE, FALSE):
                        for pb, o in I["in"]:
                            if pb == frm and self.val(T, o) != H0.env[I["id"]]:
                                flags.add(I["id"])
                                stable = False
                # equality candidates still hold at the latch?
                for it in list(hsym):
                    if entry(it) is None:
                        continue
                    t = now(it, T, frm)
                    if it in used:
                        gk, sg = used[it]
                        e = entry(it) + ((T.norm(P(T.ts[gk])) - st0.norm(P(st0.ts[gk]))) * sg if gk != "=" else ZERO)
                        if t is None or not T.eq0(t - e):
                            if (it, gk, sg) not in dead:
                                dead.add((it, gk, sg))
                                bdead.clear()
                            stable = False
                if rel:
                    sml = {}
                    for it, sy in hsym.items():
                        v = now(it, T, frm)
                        if v is not None:
                            sml[sy] = v
                    for k, f in bnds.items():
                        if k not in bdead and not T.ent(subst(f, sml)):
                            bdead.add(k)
                            stable = False
            for gk in [g for g in ghosts if g in self.model.always_ghost and g not in kept]:
                kept.add(gk)
                if all(T.ts.get(gk) is not None and T.eq0(P(T.ts[gk]) - P(H0.ts[gk])) for T, frm in lats):
                    del ghosts[gk]              # does not change in this loop
                    hsym.pop(("ts", gk), None)
                    stable = False
            if rel and ghosts:
                for it, sy in hsym.items():
                    if it[0] != "ts" and not sy.ptr and ("nn", it) not in bnds and entry(it) is not None and st0.ent(entry(it)):
                        bnds[("nn", it)] = P(sy)
                        stable = False
            if self.model.rel_retry:
                for it, sy in hsym.items():
                    if it[0] != "ts" and it not in used and not sy.ptr and ("mono", it) not in bnds and entry(it) is not None:
                        bnds[("mono", it)] = P(sy) - entry(it)
                        stable = False
            if rel and stable and not any(isinstance(k, str) for k in bnds):
                # bounds suggested by what holds on the way round
                syms = set(hsym.values())
                sm0 = {}
                for it, sy in hsym.items():
                    e0 = entry(it)
                    if e0 is not None:
                        sm0[sy] = e0
                for T, frm in lats:
                    for f in T.facts + T.neqs:
                        ts = deep_terms(f)
                        if not ts & syms or any(t.id >= mk and t not in syms and not (t.args and all(x in syms or x.id < mk for x in deep_terms(t) - {t})) for t in ts):
                            continue
                        for g in (f, f + 1) if f in T.facts else (primitive_(f), primitive_(-f)):
                            if repr(g) in bnds or (ts & syms) - set(sm0):
                                continue
                            if st0.ent(subst(g, sm0)):
                                bnds[repr(g)] = g
                                stable = False
            if stable:
                if self.model.rel_retry and not lats:
                    # never goes round: the entry state itself
                    del self.again[keep:]
                    return self.walk_iter(fn, L, prev, st0.copy())
                break
        else:
            raise AnalysisError("no loop invariant at %s" % self.loopname(fn, L))
        res = []
        for o in outs:
            if o[0] == "latch":
                T = o[1].copy()
                T.ts["@again"] = (fn, L.header)
                self.again.append(T)
            else:
                res.append(o)
        return res


class TraceModel(RppModel):
    """system calls become events; subclasses declare them with self.sys(regex, outcomes)"""
    arrays_ok = True
    relational = False          # carry equalities with ghost quantities and bounds through loops
    rel_strides = (1, -1)
    always_ghost = ()
    rel_retry = 0

    def __init__(self):
        super().__init__()
        self.h(r"^__errno_location$", lambda e, st, I, a: [(st, P(e.gsym("errno")) if False else P(term("errno", ptr=True)))])
        self.h(r"^strerror_r$", lambda e, st, I, a: [(st, P(fresh("str", ptr=True, nn=True)))])

    def may_unroll(self, eng, fn, L):
        return False

    def rel_cands(self, st, item, e0, ghosts):
        """the ghosts and factors a loop-carried quantity may advance with"""
        if item[0] == "ts":
            return []
        return [(g, s) for g in ghosts for s in self.rel_strides]

    def peel(self, fn, L):
        return False

    def loop_head(self, eng, H, fn, L):
        return None

    def loop_change(self, eng, H, T, k, fn, L):
        if k in H.ts and H.ts[k] is not None and not (isinstance(k, tuple) and k[0] in ("all",)):
            return "no"
        return "ok"

    def sys(self, rx, name=None, split=None, ptr=False, effect=None):
        """split: list of (label, cond builder over the result) alternatives; None: result unconstrained"""
        def hd(e, st, I, a):
            nm = name or I["fn"]
            if I["ty"] == "void":
                st = st.copy()
                st.event("sys", nm, list(a), None, I)
                if effect:
                    effect(e, st, I, a, None)
                return [(st, None)]
            r = P(fresh(nm, ptr=ptr or I["ty"] == "ptr", nn=I["ty"] == "ptr"))
            out = []
            for mk in (split or [lambda r: TRUE]):
                for s in st.assume(mk(r)):
                    s = s.copy()
                    s.event("sys", nm, list(a), r, I)
                    if effect:
                        effect(e, s, I, a, r)
                    out.append((s, r))
            return out
        self.h(rx, hd)


ZERO_OR_NOT = [lambda r: c_eq(r), lambda r: c_ge(r - 1), lambda r: c_ge(-r - 1)]
ZERO_OR_M1 = [lambda r: c_eq(r), lambda r: c_eq(r + 1)]
OK_OR_M1 = [lambda r: c_ge(r), lambda r: c_eq(r + 1)]


def traces(mod, model, fname, prep=None, eng_cls=TraceEngine, args=None, null=False):
    """all paths of harness function fname: list of Path (kind ret/die/again)"""
    fn = None
    for f in mod.fns.values():
        if f.name == fname or f.dem.split("(")[0] == fname:
            fn = f
    if fn is None or fn.blocks is None:
        raise AnalysisError("no such function " + fname)
    eng = eng_cls(mod, model)
    st = State()
    syms = []
    for n, a in enumerate(fn.args):
        ty = a["ty"] if isinstance(a, dict) else a
        s = P(fresh("a%d" % n, ptr=ty == "ptr", nn=True)) if args is None or args[n] is None else args[n]
        syms.append(s)
        st.env[n] = s
        if ty == "ptr" and not null:
            st = st.assume1(c_ge(s - 1)).copy()
    if prep:
        st = prep(eng, st, syms) or st
    outs = eng.run(fn, st)
    ps = []
    for o in outs + [x for x in eng.pending_die if x not in outs]:
        if o[0] == "ret":
            ps.append(Path("ret", o[1], o[2], o[1].events()))
        else:
            ps.append(Path("die", o[1], None, o[1].events()))
    for s in eng.again:
        ps.append(Path("again", s, None, s.events()))
    return eng, syms, ps
