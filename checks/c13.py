"""Allocators: regions, free lists, pools and the malloc front end.

Regions: the chunks of a thread form a list whose used sizes add up to the current offset; every operation is checked to
keep that, on every path, for any number and sizes of chunks (the list is unfolded where the code follows it; loops over it are
summarised by the amount released so far).
"""
from build import *
from trace import *

OPQ = ["^rpp::Profile::", "^rpp::Thread::Mutex::", "^rpp::Thread::Atomic::"]
SRC = os.path.join(VERIF, "harness", "alloc.cpp")
ALIGN = 16


def G(n):
    return term("@" + n, ptr=True)


class AllocModel(TraceModel):
    """malloc, free, user allocators, element construction, locks and profiling records are events"""

    def __init__(self):
        super().__init__()
        self.problems = []
        self.h(r"^__tls_init$|^TLS (init|wrapper)", lambda e, st, I, a: [(st, None)])
        self.h(r"^malloc$", self.malloc)
        self.h(r"^Al<1ul?>::alloc", lambda e, st, I, a: self.malloc(e, st, I, a, never=True))
        self.h(r"^free$|^Al<1ul?>::free", self.free)
        self.h(r"^rpp::Thread::Atomic::incr", lambda e, st, I, a: self.count(st, "incr", I, a))
        self.h(r"^rpp::Thread::Atomic::decr", lambda e, st, I, a: self.count(st, "decr", I, a))
        self.h(r"^rpp::Thread::Atomic::load", self.cload)
        self.h(r"^rpp::Thread::Mutex::lock", self.lock)
        self.h(r"^rpp::Thread::Mutex::unlock", self.unlock)
        self.h(r"^rpp::Profile::alloc", self.record)
        self.h(r"^(El|Small)::(El|Small)\(int\)", lambda e, st, I, a: self.obj(st, "ctor", I, a))
        self.h(r"^(El|Small)::~(El|Small)", lambda e, st, I, a: self.obj(st, "dtor", I, a))

    def intrin(self):
        pass

    def bad(self, st, I, key, msg):
        st.event("bad", key, msg, I)

    def malloc(self, e, st, I, a, never=False):
        out = []
        b = fresh("heap", ptr=True)
        s = st.assume1(c_ge(P(b) - 1)).copy()
        s.mem[b] = Obj(ver=-1)
        s.event("op", ("malloc", s.norm(a[0]), P(b)), I)
        out.append((s, P(b)))
        if not never:
            s = st.copy()
            s.event("op", ("malloc", s.norm(a[0]), None), I)
            out.append((s, ZERO))
        return out

    def free(self, e, st, I, a):
        p = st.norm(a[0])
        st = st.copy()
        if "cur" in st.ts:
            if not st.eq0(P(st.ts["cur"]) - p):
                self.bad(st, I, "free-other", "frees something other than the next node of the list")
            b, o = split_addr(p)
            if b is not None:
                st.ts["cur"] = st.norm(e.load_obj(st, b, st.mem.get(b), ZERO, 8, "ptr"))
        st.event("op", ("free", p), I)
        st.ts["freed"] = p
        self.on_free(e, st, p, I)
        return [(st, None)]

    def on_free(self, e, st, p, I):
        pass

    def count(self, st, what, I, a):
        st = st.copy()
        st.event("op", (what, st.norm(a[0])), I)
        return [(st, P(fresh("n")))]

    def cload(self, e, st, I, a):
        r = P(fresh("n"))
        st = st.copy()
        st.event("op", ("load", st.norm(a[0]), r), I)
        return [(st, r)]

    def record(self, e, st, I, a):
        st = st.copy()
        f = self.rec
        v = tuple(st.norm(e.load(st, P(a[0]) + f[k], 8, "ptr" if k != "size" else "i64", None)) for k in ("name", "address", "size"))
        st.event("op", ("record",) + v, I)
        return [(st, None)]

    def obj(self, st, what, I, a):
        st = st.copy()
        st.event("op", (what, st.norm(a[0]), st.norm(a[1]) if len(a) > 1 else None, bool(st.ts.get("held"))), I)
        return [(st, None)]

    # locks -------------------------------------------------------------------------------------
    def lock(self, e, st, I, a):
        st = st.copy()
        if st.ts.get("held"):
            self.bad(st, I, "lock-nested", "takes a lock while holding one")
        st.ts["held"] = st.norm(a[0])
        m = self.guard.get(split_addr(st.norm(a[0]))[0])
        if m is not None:
            st.mem[m] = Obj(ver=(st.mem[m].ver if m in st.mem else 0) + 1)
        st.event("op", ("lock", st.norm(a[0])), I)
        return [(st, None)]

    def unlock(self, e, st, I, a):
        st = st.copy()
        if st.ts.get("held") is None or not st.eq0(P(st.ts["held"]) - a[0]):
            self.bad(st, I, "unlock-other", "releases a lock it does not hold")
        st.ts["held"] = None
        st.event("op", ("unlock", st.norm(a[0])), I)
        return [(st, None)]

    guard = {}

    def touched(self, st, base, inst):
        f = st.ts.get("freed")
        if f is not None and inst is not None and st.eq0(P(f) - P(base)):
            self.bad(st, inst, "use-after-free", "uses memory after releasing it")
        for m, l in self.guard.items():
            if base is l and inst is not None:
                if st.ts.get("held") is None or not st.eq0(P(st.ts["held"]) - P(m)):
                    self.bad(st, inst, "unlocked", "uses the pool's free list without its lock")

    def on_load(self, eng, st, base, off, size, ty, inst):
        self.touched(st, base, inst)
        return None

    def on_store(self, eng, st, base, off, size, v, inst):
        self.touched(st, base, inst)
        return False

    def loop_change(self, eng, H, T, k, fn, L):
        if k in ("freed",):
            return "drop" if k in H.ts else "ok"
        if k in ("cur", "D"):
            return "ghost"
        return "no" if k in H.ts and H.ts[k] != T.ts.get(k) else "ok"

    relational = True

    def rel_cands(self, st, item, e0, ghosts):
        ptr = lambda q: split_addr(st.norm(P(q)))[0] is not None
        return [(g, s) for g, s in super().rel_cands(st, item, e0, ghosts) if ptr(e0) == ptr(st.ts[g])]


def ops(st, *names):
    return [e[1] for e in st.events() if e[0] == "op" and (not names or e[1][0] in names)]


class R:
    """runs one entry point and reports what its contract says about every path"""

    def __init__(self, ctx, mod):
        self.ctx, self.mod = ctx, mod

    def go(self, name, fname, model, prep, chk, args=None, null=False):
        ctx = self.ctx
        try:
            eng, syms, ps = traces(self.mod, model, fname, prep, args=args, null=null)
        except (AnalysisError, NeedSplit) as e:
            return ctx.undecided(name, str(e))
        n = 0
        seen = set()
        ctx.count("paths", len(ps))
        for p in ps:
            p.eng = eng
            out = []
            for e in p.ev:
                if e[0] == "bad":
                    out.append((e[1], e[2], ir.where(e[3])))
                if e[0] == "badptr":
                    out.append(("wild", "uses a null or wild pointer", ir.where(e[-1]) if e[-1] else "?"))
            if p.kind != "again" or not out:
                try:
                    m = chk(p, syms) if p.kind != "again" or getattr(chk, "loops", False) else None
                except AnalysisError as e:
                    ctx.undecided(name, str(e))
                    return
                if m:
                    out.append(("contract", m, p.where()))
            for k, m, w in out:
                n += 1
                if (k, m) not in seen:
                    seen.add((k, m))
                    ctx.bad(name, "%s:%s:%s" % (name, k, m.replace(" ", "-")[:60]), "%s: %s (%s)" % (name, m, w))
        if not n and not any(p.kind == "ret" for p in ps):
            return ctx.bad(name, name + ":never", "%s: never returns" % name)
        if not n:
            ctx.ok(name, "%d paths" % len(ps))
        return ps


# ---- regions -----------------------------------------------------------------------------------------

class RegionModel(AllocModel):
    """unfolds the thread's chunk list; D is the change of the sum of used sizes over the list"""
    always_ghost = ("D",)
    op = None

    def __init__(self, env):
        super().__init__()
        self.e = env
        self.guard = {}

    def chunk(self, eng, st, c):
        """a chunk that is in the list on entry"""
        e = self.e
        if ("chunk", c) in st.ts:
            return
        st.ts[("chunk", c)] = True
        used, size = term("used", c, nn=True) , term("csize", c, nn=True)
        rem = term("rem", c, nn=True)
        U, S = P(used) * ALIGN, P(size)
        st.facts = st.facts + (S - U, P(rem) - U, P(c) - 1)
        eng.set_cell(st, c, P(e.used), 8, U)
        eng.set_cell(st, c, P(e.csize), 8, S)
        eng.set_cell(st, c, P(e.up), 8, P(term("up", c, ptr=True, nn=True)))

    def used0(self, c):
        return P(term("used", c, nn=True)) * ALIGN

    def rem(self, c):
        return P(term("rem", c, nn=True))

    def top(self, eng, st):
        return st.norm(eng.load_obj(st, self.e.chunks, st.mem.get(self.e.chunks), ZERO, 8, "ptr"))

    def islist(self, st, base):
        return ("chunk", base) in st.ts

    def on_load(self, eng, st, base, off, size, ty, inst):
        self.touched(st, base, inst)
        if base.op == "up" and not self.islist(st, base):
            # followed the list: is there another chunk?
            self.follow(eng, st, base)
        if self.islist(st, base) and off.is_const() and off.cval() == self.e.up:
            u = st.norm(eng.load_obj(st, base, st.mem.get(base), off, 8, "ptr"))
            if len(u.t) == 1 and u == P(term("up", base, ptr=True, nn=True)):
                self.isnull(st, base)
        return None

    def isnull(self, st, c):
        u = term("up", c, ptr=True, nn=True)
        d = st.decide(c_eq(P(u)))
        if d is None and st.ent(self.rem(c) - self.used0(c) - 1):
            st.facts = st.facts + (P(u) - 1,)           # there is more
            d = False
        if d is None:
            raise NeedSplit(c_eq(P(u)))
        if d:
            st.facts = st.facts + (self.used0(c) - self.rem(c),)        # the last one
        else:
            r = self.rem(c) - self.used0(c) - self.rem(u)
            st.facts = st.facts + (r, -r)
        return d

    def follow(self, eng, st, u):
        c = u.args[0]
        if self.isnull(st, c):
            return
        self.chunk(eng, st, u)

    def on_store(self, eng, st, base, off, size, v, inst):
        self.touched(st, base, inst)
        e = self.e
        if base is e.chunks and off.is_const():
            self.settop(eng, st, st.norm(v), inst)
        elif base in (e.offsets, e.brands):
            i = st.norm(off).div_exact(8)
            if i is None or not st.ent(i) or not st.ent(P(e.depth - 1) - i):
                self.bad(st, inst, "depth", "writes outside the table of regions")
            if i is not None:
                st.event("op", ("slot", "offsets" if base is e.offsets else "brands", i, st.norm(v)), inst)
        elif base.op == "up" and not self.islist(st, base):
            self.follow(eng, st, base)
        if self.islist(st, base) and off.is_const():
            o = off.cval()
            if o == e.used:
                old = eng.load_obj(st, base, st.mem.get(base), off, 8, "i64")
                st.ts["D"] = st.norm(P(st.ts["D"]) + v - old)
                st.ts["mod"] = True
            elif o in (e.up, e.csize):
                if not st.eq0(eng.load_obj(st, base, st.mem.get(base), off, 8, "ptr" if o == e.up else "i64") - v):
                    self.bad(st, inst, "chunk", "changes the link or size of a chunk in the list")
        return False

    def settop(self, eng, st, v, inst):
        t = self.top(eng, st)
        tb = split_addr(t)[0]
        vb, vo = split_addr(v)
        if vb is not None and vb.op.startswith("heap") and v == P(vb):
            st.ts["old"] = tb
            return
        if tb is not None and self.islist(st, tb) and v == P(term("up", tb, ptr=True, nn=True)):
            if self.isnull(st, tb):
                self.bad(st, inst, "first", "removes the thread's first chunk")
                return
            if st.ts.get("gone") is not None:
                self.bad(st, inst, "chunk-leaked", "removes a chunk without releasing it")
            f = st.ts.get("freed")
            if f is None or not st.eq0(P(f) - t):
                st.ts["gone"] = t
            st.ts["D"] = st.norm(P(st.ts["D"]) - eng.load_obj(st, tb, st.mem.get(tb), P(self.e.used), 8, "i64"))
            st.ts["pops"] = True
            return
        if st.eq0(v):
            self.bad(st, inst, "first", "removes the thread's first chunk")
            return
        raise AnalysisError("the list of chunks is changed in an unknown way")

    def on_free(self, e, st, p, I):
        b, o = split_addr(p)
        g = st.ts.get("gone")
        if g is not None and st.eq0(P(g) - p):
            st.ts["gone"] = None
            return
        if b is not None and self.islist(st, b) and p == P(b):
            if self.top(e, st) == p:
                if self.isnull(st, b):
                    self.bad(st, I, "first", "releases the thread's first chunk")
                st.ts["pending"] = p
                return
        self.bad(st, I, "free-other", "releases something other than the chunk it removed")

    def loop_head(self, eng, H, fn, L):
        if "D" not in H.ts or self.op != "end":
            return None
        H = H.copy()
        t = self.top(eng, H)
        b, o = split_addr(t)
        if H.eq0(t):
            return H                    # reported where it was removed
        if b is None or not o.is_const() or o.cval():
            raise AnalysisError("no chunk at the head of a loop")
        if H.ts.get("mod"):
            raise AnalysisError("chunks are changed before a loop")
        H.ts["outer"] = True
        if not self.islist(H, b):
            self.chunk(eng, H, b)
        r = self.rem(b) - self.rem(self.e.c0) - P(H.ts["D"])
        H.facts = H.facts + (r, -r)
        return H

    def loop_change(self, eng, H, T, k, fn, L):
        if k in ("freed", "old", "pending") or isinstance(k, tuple) and k[0] == "chunk":
            return "drop" if k in H.ts and not isinstance(k, tuple) else "ok"
        if k == "D":
            return "ghost"
        if k == "mod":
            raise AnalysisError("chunks are changed in a loop")
        if k == "pops":
            return "ok"
        if k == "gone":
            if T.ts.get("gone") is not None:
                self.problems.append("goes on without releasing the chunk it removed")
            return "ok"
        return "no"


class Env:
    pass


def region(ctx, mod, run):
    e = Env()
    L = layouts(SRC)
    off = {k.split(".", 1)[1]: o for k, (o, t) in L["L_chunk"].items() if k.count(".") == 1}
    tls = {n: g for n, g in mod.globals.items() if "ity" in g and not g["const"] and not n.startswith("_ZGV") and n != "__tls_guard"}
    # the variables by role: what depth() and size() read, and the list's head
    def reads(f):
        m = AllocModel()
        log = []
        m.on_load = lambda eng, st, base, off, size, ty, inst: log.append((base, off)) if inst is not None else None
        eng, syms, ps = traces(mod, m, f)
        return log, ps
    try:
        l1, p1 = reads("h_depth")
        cur = [b for b, o in l1 if b.op.startswith("@")]
        l2, p2 = reads("h_size")
        offs = [b for b, o in l2 if b.op.startswith("@") and b is not cur[0]]
        def role(rx):
            """thread-local variables of this type, or else shared ones"""
            a = [n for n, g in tls.items() if re.match(rx, g["ity"]) and G(n) is not offs[0]]
            return [G(n) for n in a if tls[n].get("tls")] or [G(n) for n in a]
        br = role(r"\[\d+ x i64\]$")
        heads = role(r"ptr$")
        if len(set(cur)) != 1 or len(set(offs)) != 1 or len(br) != 1 or len(heads) != 1:
            raise AnalysisError("cannot tell the variables of the regions apart")
        e.cur, e.offsets, e.brands, e.chunks = cur[0], offs[0], br[0], heads[0]
        e.up, e.csize, e.used, e.head = off["up"], off["size"], off["used"], max(o for o, t in L["L_chunk"].values()) + 8
        e.depth = int(tls[e.offsets.op[1:]]["size"]) // 8
    except (AnalysisError, KeyError, IndexError) as x:
        return ctx.undecided("Region", "cannot tell the variables of the regions apart (%s)" % x)
    e.head = [int(g["size"]) for n, g in mod.globals.items() if "irst_chunk" in n][:0] or e.head
    sz = layouts(SRC, names=r"(?!L)rpp::Chunk$").get("rpp::Chunk", {}).get("#size")
    if sz:
        e.head = sz[0]
    # every variable of the regions is private to its thread
    ng = [g for n, g in mod.globals.items() if not g.get("tls") and not g["const"] and re.search(r"region|chunk", g.get("dem", ""), re.I) and "PRETTY" not in n and "guard" not in g.get("dem", "") and "Regions" not in g.get("dem", "")]
    for nm in (e.cur, e.offsets, e.brands, e.chunks):
        if not mod.globals[nm.op[1:]].get("tls"):
            ng.append(mod.globals[nm.op[1:]])
    if ng:
        ctx.bad("Region.thread", "Region.thread", "region state is shared between threads: %s" % ", ".join(g["dem"] for g in ng))
    else:
        ctx.ok("Region.thread", "%d thread-local variables" % len(tls))
    if int(mod.globals[e.brands.op[1:]]["size"]) < 8 * e.depth:
        ctx.bad("Region.tables", "Region.tables", "the table of brands is smaller than that of offsets")

    def start(op, model):
        model.op = op

        def prep(eng, st, syms):
            c0 = e.c0 = fresh("chunk", ptr=True)
            d = e.d = P(fresh("depth", nn=True))
            st = st.assume1(c_ge(P(e.depth - 1) - d)).copy()
            st.ts["D"] = ZERO
            st.ts["gone"] = None
            eng.set_cell(st, e.cur, ZERO, 8, d)
            eng.set_cell(st, e.chunks, ZERO, 8, P(c0))
            model.chunk(eng, st, c0)
            e.off0 = P(eng.load(st, P(e.offsets) + d * 8, 8, "i64"))
            e.brand0 = P(eng.load(st, P(e.brands) + d * 8, 8, "i64"))
            e.prev0 = P(eng.load(st, P(e.offsets) + d * 8 - 8, 8, "i64"))
            r = model.rem(c0) - e.off0
            st.facts = st.facts + (r, -r)
            if op == "end":
                st.facts = st.facts + (e.off0 - e.prev0,)
            return st
        return prep

    def common(p, model):
        """the sum of used sizes and the recorded offset moved together"""
        st, eng = p.st, p.eng
        if st.ts.get("held"):
            return "returns holding a lock"
        if st.ts.get("gone") is not None:
            return "does not release a chunk it removed"
        if st.ts.get("pending") is not None and not st.ts.get("pops"):
            return "releases a chunk that stays in the list"
        cur = P(eng.load(st, P(e.cur), 8, "i64"))
        D = P(st.ts["D"])
        t = model.top(eng, st)
        b, o = split_addr(t)
        if b is None:
            return "leaves no chunk"
        if b.op.startswith("heap"):
            M = [x for x in ops(st, "malloc") if x[2] is not None and x[2] == P(b)]
            up = st.norm(eng.load(st, t + e.up, 8, "ptr"))
            if not st.eq0(up - P(st.ts["old"])):
                return "does not keep the earlier chunks behind a new one"
            size = P(eng.load(st, t + e.csize, 8, "i64"))
            if not st.ent(M[0][1] - size - e.head):
                return "believes a chunk to be larger than its memory"
            D = D + eng.load(st, t + e.used, 8, "i64")
            model.newused = P(eng.load(st, t + e.used, 8, "i64"))
        elif not model.islist(st, b):
            model.chunk(eng, st, b)
        used = P(eng.load(st, t + e.used, 8, "i64"))
        size = P(eng.load(st, t + e.csize, 8, "i64"))
        if not st.ent(size - used) or not st.ent(used):
            return "a chunk is used beyond its size"
        off = P(eng.load(st, P(e.offsets) + cur * 8, 8, "i64"))
        if not st.eq0(off - e.off0 - D):
            return "the recorded size and the memory in use differ afterwards"
        heaps = [x[2] for x in ops(st, "malloc") if x[2] is not None]
        if any(h != t for h in heaps):
            return "leaks a chunk"
        p.top, p.used, p.cur, p.D = b, used, cur, D
        return None

    def slots(st, upto, what):
        return [s for s in ops(st, "slot") if not (st.ent(s[2] - upto))]

    def oom(st):
        return any(x[2] is None for x in ops(st, "malloc"))

    def nochange(p):
        return ops(p.st, "slot", "malloc", "free", "ctor") or not p.st.eq0(P(p.st.ts["D"])) or not p.st.eq0(P(p.eng.load(p.st, P(e.cur), 8, "i64")) - e.d) or p.st.ts.get("pops")

    def mod16(st, q):
        q = st.norm(q)
        return q.div_exact(ALIGN) is not None

    def alloc(p, a):
        brand, size = a if len(a) == 2 else (BR, a[0])
        st = p.st
        match = st.decide(c_eq(P(brand) - e.brand0))
        if p.kind == "die":
            return "terminates although the brand is that of the current region" if match is True and not oom(st) else None
        if p.kind != "ret":
            return None
        if match is not True:
            return "allocates although the brand is not that of the current region"
        r = common(p, m)
        if r:
            return r
        if not st.eq0(p.cur - e.d):
            return "changes the current region"
        if slots(st, e.d, "") or any(s[1] == "brands" and not st.eq0(s[3] - e.brand0) for s in ops(st, "slot")):
            return "changes an outer region"
        if ops(st, "free"):
            return "releases memory"
        ret = st.norm(p.ret)
        b, o = split_addr(ret)
        if b is not p.top:
            return "returns memory outside the current chunk"
        before = m.used0(b) if m.islist(st, b) else ZERO
        if not st.ent(o - e.head - before):
            return "returns memory that is in use"
        if not st.ent(P(e.head) + p.used - o - size):
            return "returns less memory than was asked for"
        if not mod16(st, o):
            return "returns memory that is not aligned for every type"
        if not mod16(st, p.used):
            return "leaves the chunk at an unaligned position"
        if b.op.startswith("heap") and not (st.ent(p.used - 1)):
            return "leaves an empty chunk"
        return None

    def free(p, a):
        brand = a[0] if len(a) == 2 else BR
        match = p.st.decide(c_eq(P(brand) - e.brand0))
        if p.kind == "die":
            return "terminates although the brand is that of the current region" if match is True else None
        if match is not True:
            return "accepts a brand that is not that of the current region"
        return "changes the region" if nochange(p) else None

    def begin(p, a):
        st = p.st
        if p.kind == "die":
            return None if st.ent(e.d - (e.depth - 2)) else "terminates although there is room for another region"
        if p.kind != "ret":
            return None
        brand = BR
        cur = P(p.eng.load(st, P(e.cur), 8, "i64"))
        if not st.eq0(cur - e.d - 1):
            return "does not enter one region"
        if slots(st, e.d + 1, ""):
            return "changes an outer region"
        if not st.eq0(P(p.eng.load(st, P(e.offsets) + cur * 8, 8, "i64")) - e.off0):
            return "the new region does not start at the current position"
        if not st.eq0(P(p.eng.load(st, P(e.brands) + cur * 8, 8, "i64")) - brand):
            return "does not record the region's brand"
        return "changes the chunks" if ops(st, "malloc", "free") or not st.eq0(P(st.ts["D"])) else None

    def end(p, a):
        st = p.st
        brand = BR
        match = st.decide(c_eq(P(brand) - e.brand0))
        if p.kind == "again":
            return m.problems[0] if m.problems else None
        if p.kind == "die":
            if match is False or match is None or not st.ent(e.d - 1):
                return None
            return "terminates although the region is the current one"
        if not st.ent(e.d - 1):
            return "leaves a region that was never entered"
        if match is not True:
            return "ends a region that is not the current one"
        cur = P(p.eng.load(st, P(e.cur), 8, "i64"))
        if not st.eq0(cur - e.d + 1):
            return "does not return to the enclosing region"
        if slots(st, e.d, ""):
            return "changes an outer region"
        r = common(p, m)
        if r:
            return r
        if ops(st, "malloc"):
            return "allocates"
        # a chunk below the top stays untouched; an empty chunk is not kept, unless it is the first
        if m.islist(st, p.top) and st.decide(c_eq(P(term("up", p.top, ptr=True, nn=True)))) is not True:
            if not st.ent(p.used - 1) and not st.eq0(p.used - m.used0(p.top)):
                return "keeps a chunk that holds nothing"
        return None

    end.loops = True

    def depth(p, a):
        return None if p.kind == "ret" and p.st.eq0(P(p.ret) - e.d) else "does not tell the number of open regions"

    def size(p, a):
        return None if p.kind == "ret" and p.st.eq0(P(p.ret) - e.off0) else "does not tell the size of the memory in use"

    BR = P(signed(0x7123456789abcdef, 64))
    for name, f, op, chk in (("Region.alloc", "h_ralloc", "alloc", alloc), ("Region.free", "h_rfree", "free", free),
                             ("Region.begin", "h_begin", "begin", begin), ("Region.end", "h_end", "end", end),
                             ("Region.depth", "h_depth", "depth", depth), ("Region.size", "h_size", "size", size),
                             ("Mregion.alloc", "h_mralloc", "alloc", alloc), ("Mregion.free", "h_mrfree", "free", lambda p, a: free(p, [BR, a[0]]))):
        m = RegionModel(e)
        run.go(name, f, m, start(op, m), chk)


# ---- the malloc front end -----------------------------------------------------------------------------

def front(ctx, mod, run, L):
    rec = {k.split(".", 1)[1]: o for k, (o, t) in L["L_alloc"].items() if k.count(".") == 1}

    def lit(p, q, want):
        b, o = split_addr(p.st.norm(q))
        g = mod.globals.get(b.op[1:]) if b is not None and b.op.startswith("@") else None
        if g is None or "init" not in g:
            return None
        return want in str(g["init"]) or bytes(want, "ascii").hex() in str(g["init"])

    def sysalloc(p, a):
        M = ops(p.st, "malloc")
        if p.kind == "die":
            return None if len(M) == 1 and M[0][2] is None else "terminates although memory was available"
        if len(M) != 1 or not p.st.eq0(M[0][1] - a[0]):
            return "does not ask for the given size once"
        if M[0][2] is None:
            return "goes on without memory"
        if not p.st.eq0(P(p.ret) - M[0][2]):
            return "returns another address"
        if len(ops(p.st, "incr")) != 1 or ops(p.st, "decr", "free"):
            return "does not count the allocation"
        p.counter = ops(p.st, "incr")[0][1]
        counters.add(repr(p.counter))
        return None

    def sysfree(p, a):
        F = ops(p.st, "free")
        if p.kind != "ret":
            return "terminates the program"
        null = p.st.decide(c_eq(P(a[0])))
        if null is not False:
            return "releases or counts nothing as something" if ops(p.st) and not (F and not ops(p.st, "incr", "decr")) else None
        if len(F) != 1 or not p.st.eq0(F[0][1] - a[0]):
            return "does not release the memory once"
        if len(ops(p.st, "decr")) != 1 or ops(p.st, "incr", "malloc"):
            return "does not count the release"
        counters.add(repr(ops(p.st, "decr")[0][1]))
        return None

    def net(p, a):
        l = ops(p.st, "load")
        if p.kind != "ret" or len(l) != 1 or not p.st.eq0(P(p.ret) - l[0][2]):
            return "does not tell the number of allocations that are not released"
        counters.add(repr(l[0][1]))
        return None

    def malloc(log):
        def chk(p, a):
            M, Rr = ops(p.st, "malloc"), ops(p.st, "record")
            if p.kind == "die":
                return None if M and M[-1][2] is None else "terminates although memory was available"
            if p.st.eq0(a[0]):
                if not p.st.eq0(P(p.ret)):
                    return "does not return null for nothing"
                return "allocates or records nothing as something" if M or Rr or ops(p.st, "incr") else None
            if p.st.decide(c_eq(a[0])) is None:
                return "cannot tell an empty request apart"
            if len(M) != 1 or not p.st.eq0(M[0][1] - a[0]) or not p.st.eq0(P(p.ret) - M[0][2]):
                return "does not return memory of the size asked for"
            if log:
                if len(Rr) != 1 or not p.st.eq0(Rr[0][2] - M[0][2]) or not p.st.eq0(Rr[0][3] - a[0]):
                    return "does not record the allocation with its address and size"
                recname.add(repr(Rr[0][1]))
            elif Rr:
                return "records an allocation that is not to be recorded"
            return None
        return chk

    def mfree(log):
        def chk(p, a):
            if p.kind != "ret":
                return "terminates the program"
            O = ops(p.st)
            F, Rr = ops(p.st, "free"), ops(p.st, "record")
            null = p.st.decide(c_eq(P(a[0])))
            if null is not False:
                return "releases or records nothing as something" if Rr or ops(p.st, "decr") else None
            if len(F) != 1 or not p.st.eq0(F[0][1] - a[0]):
                return "does not release the memory once"
            if log:
                if len(Rr) != 1 or not p.st.eq0(Rr[0][2] - a[0]) or not p.st.eq0(Rr[0][3]):
                    return "does not record the release"
                if O.index(Rr[0]) > O.index(F[0]):
                    return "records the release after the address may have been handed out again"
                recname.add(repr(Rr[0][1]))
            elif Rr:
                return "records a release that is not to be recorded"
            return None
        return chk
    counters, recname = set(), set()
    for nm, f, chk in (("sys_alloc", "h_sysalloc", sysalloc), ("sys_free", "h_sysfree", sysfree), ("sys_net_allocs", "h_net", net),
                       ("Mallocator.alloc", "h_malloc", malloc(True)), ("Mallocator.free", "h_mfree", mfree(True)),
                       ("Mallocator.alloc-hidden", "h_qalloc", malloc(False)), ("Mallocator.free-hidden", "h_qfree", mfree(False))):
        m = AllocModel()
        m.rec = rec
        run.go(nm, f, m, None, chk, null=True)
    if len(counters) > 1:
        ctx.bad("counter", "counter", "allocations and releases are counted in different places")
    elif counters:
        ctx.ok("counter")
    if len(recname) > 1:
        ctx.bad("record-name", "record-name", "an allocator records its allocations and releases under different names")
    elif recname:
        ctx.ok("record-name")


# ---- scalar adaptor, free lists and pools ----------------------------------------------------------------

def lists(ctx, mod, run, L):
    def adaptor_make(plain):
        def chk(p, a):
            M, C = ops(p.st, "malloc"), ops(p.st, "ctor")
            if p.kind == "die":
                return "terminates the program"
            if len(M) != 1 or not p.st.ent(M[0][1] - 24):
                return "does not allocate room for the object"
            if not p.st.eq0(P(p.ret) - M[0][2]):
                return "does not return the object"
            if plain:
                for i in (0, 8, 16):
                    if not p.st.eq0(p.eng.load(p.st, M[0][2] + i, 8, "i64") - p.eng.load(p.st, P(a[0]) + i, 8, "i64")):
                        return "does not construct the object from the given value"
                return None
            if len(C) != 1 or not p.st.eq0(C[0][1] - M[0][2]) or not p.st.eq0(C[0][2] - a[0]):
                return "does not construct the object once, in the memory it allocated, from the given value"
            return None
        return chk

    def adaptor_destroy(plain):
        def chk(p, a):
            O = ops(p.st)
            want = ([] if plain else ["dtor"]) + ["free"]
            if p.kind == "die":
                return "terminates the program"
            if [x[0] for x in O] != want or any(not p.st.eq0(x[1] - a[0]) for x in O):
                return "does not destroy the object and release its memory, in this order and once"
            return None
        return chk
    run.go("Scalar_Adaptor.make", "h_smake", AllocModel(), None, adaptor_make(False))
    run.go("Scalar_Adaptor.make-plain", "h_spmake", AllocModel(), None, adaptor_make(True))
    run.go("Scalar_Adaptor.destroy", "h_sdestroy", AllocModel(), None, adaptor_destroy(False))
    run.go("Scalar_Adaptor.destroy-plain", "h_spdestroy", AllocModel(), None, adaptor_destroy(True))

    hd = [o for k, (o, t) in L["L_fl"].items() if k.count(".") == 1]
    if len(hd) != 1:
        return ctx.undecided("Free_List", "cannot tell the head of the list")
    hd = hd[0]

    def head(p, l):
        return P(p.st.norm(p.eng.load(p.st, P(l) + hd, 8, "ptr")))

    def prep(*which):
        def f(eng, st, syms):
            st = st.copy()
            f.h = []
            for i, x in enumerate(syms[:max(which) + 1]):
                h = P(fresh("head", ptr=True, nn=True))
                f.h.append(h)
                eng.set_cell(st, split_addr(x)[0], P(hd), 8, h)
            if f.clear:
                st.ts["cur"] = f.h[0]
            if len(syms) > 1 and f.elem:
                st = st.assume1(c_ge(P(syms[1]) - 1)).copy()
            return st
        f.clear = f.elem = False
        return f

    def nx(p, n):
        return term("ld", n, ZERO, 8, 0, True, ptr=True, nn=True)

    def made(p, ret, h0, h1, arg, size):
        st = p.st
        M, C = ops(st, "malloc"), ops(st, "ctor")
        if len(C) != 1 or not st.eq0(C[0][1] - ret) or not st.eq0(C[0][2] - arg):
            return "does not construct the object once, from the given value, at the address it returns"
        if ops(st, "free", "dtor"):
            return "destroys or releases something"
        if M:
            if len(M) > 1 or not st.eq0(M[0][2] - ret):
                return "allocates memory it does not return"
            if not st.ent(M[0][1] - max(size, 8)):
                return "allocates too little memory for an object and a link"
            return None if st.eq0(h1 - h0) else "loses the free nodes"
        if st.decide(c_eq(h0)) is not False:
            return "returns a node of an empty list"
        if not st.eq0(ret - h0):
            return "returns memory that is not free"
        b, o = split_addr(st.norm(h0))
        if not st.eq0(h1 - P(nx(p, b))):
            return "does not take exactly the first node off the list"
        return None

    def make(size, pr):
        def chk(p, a):
            if p.kind == "die":
                return "terminates the program"
            return made(p, P(p.ret), pr.h[0], head(p, a[0]), a[1], size)
        return chk

    def pushed(p, el, h0, h1, dtor=True):
        st = p.st
        O = ops(st, "dtor", "free", "ctor", "malloc")
        if dtor and (not O or O[0][0] != "dtor" or not st.eq0(O[0][1] - el) or len([x for x in O if x[0] == "dtor"]) != 1):
            return "does not destroy the object once"
        if ops(st, "malloc", "ctor"):
            return "makes something"
        F = ops(st, "free")
        if F:
            return None if len(F) == 1 and st.eq0(F[0][1] - el) and st.eq0(h1 - h0) else "releases something else"
        if not st.eq0(h1 - el):
            return "does not keep the memory on the list"
        b, o = split_addr(st.norm(el))
        if not st.eq0(p.eng.load_obj(st, b, st.mem.get(b), ZERO, 8, "ptr") - h0):
            return "loses the nodes that were on the list"
        return None

    def late(p, el):
        """the link is written after the object was destroyed"""
        seen = False
        for e in p.ev:
            if e[0] == "op" and e[1][0] == "dtor":
                seen = True
            if e[0] == "link" and not seen:
                return "overwrites the object before it is destroyed"
        return None

    class LinkModel(AllocModel):
        watch = None

        def on_store(self, eng, st, base, off, size, v, inst):
            if inst is not None and self.watch is not None and base is self.watch:
                st.event("link", inst)
            return super().on_store(eng, st, base, off, size, v, inst)

    def destroy(pr, m):
        def chk(p, a):
            if p.kind == "die":
                return "terminates the program"
            return late(p, a[1]) or pushed(p, P(a[1]), pr.h[0], head(p, a[0]))
        return chk

    def cleared(p, a, h=None):
        if p.kind == "die":
            return "terminates the program"
        if ops(p.st, "malloc", "ctor", "dtor"):
            return "makes or destroys an object"
        if p.kind == "ret" and not p.st.eq0(P(p.st.ts["cur"])):
            return "does not release every node"
        return None

    cleared.loops = True

    def clear(p, a):
        r = cleared(p, a)
        return r or (None if p.kind != "ret" or p.st.eq0(head(p, a[0])) else "does not leave the list empty")

    clear.loops = True
    for nm, sz in (("fl", 24), ("fs", 2)):
        pr = prep(0)
        run.go("Free_List.make-%d" % sz, "h_%s_make" % nm, AllocModel(), pr, make(sz, pr))
        pr = prep(0)
        pr.elem = True
        m = LinkModel()
        el = P(fresh("elem", ptr=True, nn=True))
        m.watch = split_addr(el)[0]
        run.go("Free_List.destroy-%d" % sz, "h_%s_destroy" % nm, m, pr, destroy(pr, m), args=[None, el])
    pr = prep(0)
    pr.clear = True
    run.go("Free_List.clear", "h_fl_clear", AllocModel(), pr, clear)
    pr2 = prep(0)
    pr2.clear = True
    run.go("Free_List.destructor", "h_fl_dtor", AllocModel(), pr2, cleared)
    run.go("Free_List.constructor", "h_fl_ctor", AllocModel(), None, lambda p, a: None if p.kind == "ret" and p.st.eq0(head(p, a[0])) and not ops(p.st) else "does not start empty")

    def moved(p, a):
        if p.kind != "ret":
            return "terminates the program"
        if ops(p.st):
            return "makes or releases something"
        return None if p.st.eq0(head(p, a[0]) - pr3.h[1]) and p.st.eq0(head(p, a[1])) else "does not transfer the nodes"
    pr3 = prep(0, 1)
    run.go("Free_List.move", "h_fl_move", AllocModel(), pr3, moved)
    pr4 = prep(0, 1)
    pr4.clear = True

    def assigned(p, a):
        r = cleared(p, a)
        if r or p.kind != "ret":
            return r
        return None if p.st.eq0(head(p, a[0]) - pr4.h[1]) and p.st.eq0(head(p, a[1])) else "does not transfer the nodes"
    assigned.loops = True
    run.go("Free_List.assign", "h_fl_assign", AllocModel(), pr4, assigned)

    # pools: one list and one lock per size
    pools = {}
    for n, g in mod.globals.items():
        mm = re.match(r"rpp::detail::Pool<(\d+)ul?>::", g.get("dem", ""))
        if mm and not g["const"] and "guard" not in g["dem"]:
            if "Mutex" in g["ity"]:
                pools.setdefault(mm.group(1), {})["mutex"] = G(n)
            elif "Free_List" in g["ity"]:
                pools.setdefault(mm.group(1), {})["list"] = G(n)
            if g.get("tls"):
                return ctx.undecided("Pool", "pools per thread")
    for sz, mk, ds in (("24", "h_pool_make", "h_pool_destroy"), ("2", "h_pools_make", "h_pools_destroy")):
        po = pools.get(sz, {})
        if "list" not in po:
            ctx.undecided("Pool-" + sz, "cannot tell the pool's free list")
            continue
        if "mutex" not in po:
            ctx.bad("Pool-%s.lock" % sz, "Pool.lock", "the free list of a pool has no lock")
            continue
        lst, mx = po["list"], po["mutex"]

        def model():
            m = LinkModel()
            m.guard = {mx: lst}
            m.rec = {k.split(".", 1)[1]: o for k, (o, t) in L["L_alloc"].items() if k.count(".") == 1}
            return m

        def h0(p, ver=1):
            return P(term("ld", lst, P(hd), 8, ver, True, ptr=True, nn=True))

        def locks(p):
            l = [x[0] for x in ops(p.st, "lock", "unlock")]
            if p.st.ts.get("held"):
                return "returns holding the lock"
            if l != ["lock", "unlock"]:
                return "does not take the lock once"
            if any(x[3] for x in ops(p.st, "ctor", "dtor")):
                return "constructs or destroys an object while holding the lock"
            return None

        def pmake(p, a, sz=int(sz)):
            if p.kind == "die":
                M = ops(p.st, "malloc")
                return None if M and M[-1][2] is None else "terminates the program"
            return locks(p) or made(p, P(p.ret), h0(p), P(p.st.norm(p.eng.load_obj(p.st, lst, p.st.mem.get(lst), P(hd), 8, "ptr"))), a[0], sz)

        def pdestroy(p, a):
            if p.kind == "die":
                return "terminates the program"
            return locks(p) or late(p, a[0]) or pushed(p, P(a[0]), h0(p), P(p.st.norm(p.eng.load_obj(p.st, lst, p.st.mem.get(lst), P(hd), 8, "ptr"))))
        run.go("Pool-%s.make" % sz, mk, model(), None, pmake)
        m = model()
        el = P(fresh("elem", ptr=True, nn=True))
        m.watch = split_addr(el)[0]
        run.go("Pool-%s.destroy" % sz, ds, m, lambda eng, st, s: st.assume1(c_ge(el - 1)).copy(), pdestroy, args=[el])


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("Every path of the region, free-list, pool and malloc front-end operations, for any chunk list, any list of free nodes and any sizes; "
                       "the sum of the used sizes of a thread's chunks is related to the recorded region offsets on every path.")
    ctx.assumptions = ["sizes do not wrap", "malloc returns memory aligned to 16 bytes", "a user allocator does not return null"]
    mod = harness("alloc", OPQ)
    L = layouts(SRC)
    run = R(ctx, mod)
    region(ctx, mod, run)
    front(ctx, mod, run, L)
    lists(ctx, mod, run, L)
    ctx.floor("obligations", len(ctx.obs), 20)
