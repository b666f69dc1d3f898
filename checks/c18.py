"""Coroutine tasks: the frame is freed exactly once, the continuation resumed once, the result stored before anyone is told."""
from build import *
from specs import *
from objs import *

OPQ = ["^rpp::Thread::Flag::(signal|block)"]


class CoroModel(ContModel):
    """atomic operations on the task state, frame operations and flag operations are events"""

    def __init__(self):
        super().__init__()
        A = r"rpp::Thread::Atomic::"
        self.h(A + r"exchange\(", lambda e, st, I, a: self.at(st, "exchange", a, I))
        self.h(A + r"load\(", lambda e, st, I, a: self.at(st, "load", a, I))
        self.h(A + r"compare_and_swap\(", self.cas)
        self.h(A + r"(incr|decr)\(", lambda e, st, I, a: self.at(st, "count", a, I))
        for n in ("signal", "block"):
            self.h(r"rpp::Thread::Flag::" + n, lambda e, st, I, a, n=n: self.op(st, I, (n, st.norm(a[0]))))
        self.h(r"^Fn::Fn\(Fn&&\)", self.t_move)
        self.h(r"^Fn::~Fn", self.t_dtor)
        self.h(r"^Fn::operator\(\)", self.fn_call)
        self.frame = None
        self.watch = ()

    def fn_call(self, e, st, I, a):
        self.get(e, st, a[1], I, "calling the continuation")
        g = self.get(e, st, a[2], I, "argument of the continuation")
        G = fresh("frame3", ptr=True)
        st = st.assume1(c_ge(P(G) - 4096)).copy()
        for o, n in ((0, "resume_fn"), (8, "destroy_fn")):
            e.set_cell(st, G, P(o), 8, P(term(n, G, ptr=True)))
        self.add(st, G, P(self.val_at), "L", ("o", G, ZERO))
        b, o = split_addr(st.norm(a[0]))
        e.set_cell(st, b, o, 8, P(G))
        st.event("op", ("call", st.norm(a[1]), g and self.tag_at(g[2], g[1])[:2]), I)
        return [(st, None)]

    val_at = 32

    def op(self, st, I, what, r=None):
        st.event("op", what, I)
        return [(st, r)]

    def at(self, st, kind, a, I):
        old = P(fresh("state"))
        st.event("op", (kind, st.norm(a[0]), old, st.norm(a[1]) if len(a) > 1 else None), I)
        return [(st, old)]

    def cas(self, e, st, I, a):
        old = P(fresh("state"))
        out = []
        for s in st.assume(c_eq(old - a[1])):
            s = s.copy()
            s.event("op", ("swapped", s.norm(a[0]), s.norm(a[1]), s.norm(a[2])), I)
            out.append((s, s.norm(old)))
        for s in st.assume(c_ne(old - a[1])):
            s = s.copy()
            s.event("op", ("kept", s.norm(a[0]), s.norm(a[1]), s.norm(a[2])), I)
            out.append((s, old))
        return out

    def indirect(self, eng, st, I, callee, args):
        for t in callee.terms():
            if t.op in ("resume_fn", "destroy_fn") and callee == P(t):
                st.event("op", (t.op[:-3], st.norm(args[0]), P(t.args[0])), I)
                return [(st, None)]
        if len(args) == 1:
            # the coroutine a finished one continues with, or the empty one
            st.event("op", ("resume", st.norm(args[0]), None), I)
            return [(st, None)]
        return None

    def on_load(self, eng, st, base, off, size, ty, inst):
        if base in self.watch and inst is not None and not self.is_fnptr(base, off):
            st.event("op", ("touch", P(base) + off), inst)
        return super().on_load(eng, st, base, off, size, ty, inst)

    def is_fnptr(self, base, off):
        return base is self.frame and off.is_const() and off.cval() in (0, 8)

    def on_store(self, eng, st, base, off, size, v, inst):
        if base in self.watch and inst is not None:
            st.event("op", ("touch", P(base) + off), inst)
        return super().on_store(eng, st, base, off, size, v, inst)

    def t_move(self, eng, st, I, a):
        st.event("op", ("move", st.norm(a[0]), st.norm(a[1])), I)
        return super().t_move(eng, st, I, a)

    def t_copy(self, eng, st, I, a):
        st.event("op", ("move", st.norm(a[0]), st.norm(a[1])), I)
        return super().t_copy(eng, st, I, a)

    def t_massign(self, eng, st, I, a):
        st.event("op", ("massign", st.norm(a[0]), st.norm(a[1])), I)
        return super().t_massign(eng, st, I, a)

    def t_cassign(self, eng, st, I, a):
        st.event("op", ("massign", st.norm(a[0]), st.norm(a[1])), I)
        return super().t_cassign(eng, st, I, a)


def ops(st, *names):
    return [e[1] for e in st.events() if e[0] == "op" and (not names or e[1][0] in names)]


class C:
    def __init__(self, ctx, mod, L):
        self.ctx, self.mod, self.L = ctx, mod, L
        f = lambda s: [v[0] for k, v in L["L_pt"].items() if k.endswith(s)][0]
        self.fstate, self.fflag, self.fval = f(".state"), f(".flag"), f("p.value")
        self.fh = [v[0] for k, v in L["L_tt"].items() if k != "t"][0]
        self.PO = 16            # the promise follows the two function pointers of the frame

    def start(self, name):
        self.name = name
        self.fn = self.mod.fns.get("h_" + name)
        if self.fn is None:
            self.ctx.fail("harness function %s vanished" % name)
            return None
        self.model = CoroModel()
        self.eng = Engine(self.mod, self.model)
        st = State()
        self.F = fresh("frame", ptr=True)
        st = st.assume1(c_ge(P(self.F) - 4096)).copy()
        self.model.frame = self.F
        for o, n in ((0, "resume_fn"), (8, "destroy_fn")):
            self.eng.set_cell(st, self.F, P(o), 8, P(term(n, self.F, ptr=True)))
        self.p = P(self.F) + self.PO
        return st

    def obj(self, st, hint):
        b = fresh(hint, ptr=True)
        return b, st.assume1(c_ge(P(b) - 1)).copy()

    def task(self, st, full=True):
        t, st = self.obj(st, "task")
        self.eng.set_cell(st, t, P(self.fh), 8, P(self.F) if full else ZERO)
        return t, st

    def value(self, st, b, off):
        for k, d in expected(24, b, [Seg(1, "o", b, off)], off).items():
            st.meas[k] = d

    def run(self, st, args, chk, skip=None):
        for i, a in enumerate(args):
            st.env[i] = P(a) if not isinstance(a, Poly) else a
        try:
            outs = self.eng.run(self.fn, st)
        except (AnalysisError, NeedSplit) as e:
            return self.ctx.undecided(self.name, str(e)[:300])
        if not outs:
            self.ctx.undecided(self.name, "no feasible path")
        for o in outs:
            if skip and skip(o[1]):
                continue
            vs = all_viols(o[1])
            if vs:
                self.bad(o[1], "%s (%s) at %s" % (vs[0][2], vs[0][1], ir.where(vs[0][3]) if vs[0][3] else "?"), vs[0][1])
                continue
            w = chk(o[0], o[1], o[2] if len(o) > 2 else None)
            if w:
                self.bad(o[1], w)
            else:
                self.ctx.ok(self.name)

    def bad(self, st, text, key=None):
        self.ctx.bad(self.name, "%s:%s" % (self.name, key or re.sub(r"#\d+", "", text)[:60]), "%s: %s\n  operations: %s" % (
            self.name, text, "; ".join(" ".join(map(str, x)) for x in ops(st))))

    # -- what is expected of each operation
    def onstate(self, z, kind, off=None):
        return [x for x in ops(z, *kind) if z.eq0(x[1] - self.p - (self.fstate if off is None else off))]


def roles(c):
    """the three distinguished states, from the code that stores them"""
    out = {}

    def chk0(kind, z, r):
        ob = z.mem.get(c.F)
        v = ob.cells.get(P(c.PO + c.fstate)) if ob else None
        fl = ob.cells.get(P(c.PO + c.fflag)) if ob else None
        if v is None or not v[1].is_const():
            return "the state of a new promise is not set"
        if fl is None or not z.eq0(fl[1]):
            return "the flag of a new promise is not unset"
        out["start"] = v[1].cval()
    for n in ("pt_ctor", "pv_ctor"):
        st = c.start(n)
        if st is not None:
            c.run(st, [c.p], chk0)
    st = c.start("final")

    def chk1(kind, z, r):
        E = c.onstate(z, ("exchange",))
        if len(E) != 1 or len(ops(z, "exchange", "load", "swapped", "kept", "count")) != 1 or not E[0][3].is_const():
            return "the state is not exchanged exactly once"
        out["done"] = E[0][3].cval()
    c.run(st, [c.p], chk1)
    st = c.start("task_dtor")
    t, st = c.task(st)

    def chk2(kind, z, r):
        E = c.onstate(z, ("exchange",))
        if len(E) != 1 or len(ops(z, "exchange", "load", "swapped", "kept", "count")) != 1 or not E[0][3].is_const():
            return "the state is not exchanged exactly once"
        out["gone"] = E[0][3].cval()
    c.run(st, [t], chk2)
    if len(out) == 3:
        v = list(out.values())
        if len(set(v)) != 3 or any(not 0 <= x < 4096 for x in v):
            c.ctx.bad("states", "states:distinct", "the states %r are not distinct small values (anything else is the address of a waiting coroutine)" % out)
        else:
            c.ctx.ok("states")
        return out


def after(z, kinds, at):
    """operations after the last one of the given kinds"""
    O = ops(z)
    n = max((i for i, x in enumerate(O) if x[0] in kinds), default=-1)
    return O[n + 1:]


def cases(z, old, R, names):
    """the states the old value may be in, with the refined path"""
    for n in names:
        if n == "waiting":
            zs = [z]
            for v in R.values():
                zs = [y for x in zs for y in x.assume(c_ne(old - v))]
            for y in zs:
                yield n, y
        else:
            for y in z.assume(c_eq(old - R[n])):
                yield n, y


def finals(c, R):
    for n in ("final", "final_v"):
        st = c.start(n)
        if st is None:
            continue
        c.model.watch = (c.F,)

        def chk(kind, z, r):
            E = c.onstate(z, ("exchange",))
            if len(E) != 1:
                return "the state is not exchanged exactly once"
            if not z.eq0(E[0][3] - R["done"]):
                return "the task is not marked done"
            for w, y in cases(z, E[0][2], R, ("start", "gone", "waiting")):
                if kind == "die":
                    return "terminates the program when the task is %s" % w
                D, Rs = ops(y, "destroy"), ops(y, "resume")
                if Rs:
                    return "resumes a coroutine inside the final suspension"
                if w == "gone":
                    if len(D) != 1 or not y.eq0(D[0][1] - P(c.F)):
                        return "the frame of an abandoned task is destroyed %d times" % len(D)
                elif D:
                    return "the frame is destroyed although the task handle still owns it"
                noop = any(t.op.startswith("@NoopCoro") or "NoopCoro" in t.op for t in y.norm(r).terms())
                if w == "waiting":
                    if not y.eq0(r - E[0][2]):
                        return "continues with %r instead of the waiting coroutine" % (r,)
                elif not noop:
                    return "continues with %r although no coroutine waits" % (r,)
                t = [x for x in after(y, ("destroy",) if D else ("exchange",), None) if x[0] == "touch"]
                if t:
                    return "the frame is accessed (%r) when its owner may already have freed it" % (t[0][1],)
        c.run(st, [c.p], chk)


def dtors(c, R):
    for n in ("task_dtor", "taskv_dtor"):
        st = c.start(n)
        if st is None:
            continue
        t, st = c.task(st)
        c.model.watch = (c.F,)

        def chk(kind, z, r):
            E = c.onstate(z, ("exchange",))
            if len(E) != 1 or not z.eq0(E[0][3] - R["gone"]):
                return "the task is not marked abandoned exactly once"
            for w, y in cases(z, E[0][2], R, ("start", "done", "waiting")):
                D = ops(y, "destroy")
                if kind == "die":
                    if w != "waiting":
                        return "terminates the program when the task is %s" % w
                    continue
                if w == "waiting":
                    return "a task that is waited upon is abandoned silently"
                if w == "done" and (len(D) != 1 or not y.eq0(D[0][1] - P(c.F))):
                    return "the frame of a finished task is destroyed %d times" % len(D)
                if w == "start" and D:
                    return "the frame of a running coroutine is destroyed"
                x = [x for x in after(y, ("destroy",) if D else ("exchange",), None) if x[0] == "touch"]
                if x:
                    return "the frame is accessed after it was given up"
            if ops(z, "resume"):
                return "resumes the coroutine"
        c.run(st, [t], chk)
        st = c.start(n)
        t, st = c.task(st, False)
        c.run(st, [t], lambda kind, z, r: None if kind == "ret" and not ops(z) else "an empty task is not simply dropped")


def handle(c, z, t):
    return z.norm(c.eng.load(z, P(t) + c.fh, 8, "ptr"))


def moves(c, R):
    st = c.start("task_ctor")
    t, st = c.obj(st, "t")
    c.run(st, [t], lambda k, z, r: None if k == "ret" and z.eq0(handle(c, z, t)) and not ops(z) else "a new task is not empty")
    for n in ("object", "object_v"):
        st = c.start(n)
        t, st = c.obj(st, "t")
        c.run(st, [t, c.p], lambda k, z, r: None if k == "ret" and z.eq0(handle(c, z, t) - P(c.F)) and not ops(z, "destroy", "exchange") else "the task does not own its coroutine")
    st = c.start("task_move")
    t, st = c.obj(st, "t")
    s, st = c.task(st)
    c.run(st, [t, s], lambda k, z, r: None if k == "ret" and z.eq0(handle(c, z, t) - P(c.F)) and z.eq0(handle(c, z, s)) and not ops(z) else "moving does not transfer the coroutine")
    for full in (True, False):
        st = c.start("task_massign")
        t, st = c.task(st, full)
        s, st = c.obj(st, "s")
        G = fresh("frame2", ptr=True)
        st = st.assume1(c_ge(P(G) - 4096)).copy()
        c.eng.set_cell(st, s, P(c.fh), 8, P(G))

        def chk(k, z, r):
            E = c.onstate(z, ("exchange",))
            if len(ops(z, "exchange")) != len(E) or len(E) != (1 if full else 0):
                return "the task that was held is not given up exactly once"
            if k == "die":
                return None if full and all(w == "waiting" for w, y in cases(z, E[0][2], R, ("start", "done", "waiting"))) else "terminates the program"
            if full:
                for w, y in cases(z, E[0][2], R, ("start", "done")):
                    if len(ops(y, "destroy")) != (1 if w == "done" else 0):
                        return "the frame that was held is destroyed %d times when %s" % (len(ops(y, "destroy")), w)
            elif ops(z, "destroy"):
                return "destroys a frame that was not held"
            if not (z.eq0(handle(c, z, t) - P(G)) and z.eq0(handle(c, z, s))):
                return "assignment does not transfer the coroutine"
        c.run(st, [t, s], chk)
    st = c.start("task_ok")
    for full in (True, False):
        st = c.start("task_ok")
        t, st = c.task(st, full)
        c.run(st, [t], lambda k, z, r: None if k == "ret" and z.decide(r if is_cond(r) else c_ne(r)) is full else "does not tell whether a coroutine is held")


def waits(c, R):
    for n in ("task_ready", "task_done"):
        st = c.start(n)
        t, st = c.task(st)

        def chk(k, z, r):
            E = c.onstate(z, ("load",))
            if k != "ret" or len(E) != 1 or len(ops(z)) != 1:
                return "the state is not read exactly once"
            v = r if is_cond(r) else c_ne(r)
            for want, cc in ((True, c_eq(E[0][2] - R["done"])), (False, c_ne(E[0][2] - R["done"]))):
                for y in z.assume(cc):
                    if y.decide(v) is not want:
                        return "does not tell whether the task is done"
        c.run(st, [t], chk)
    for full in (False,):
        for n in ("task_ready", "task_suspend", "task_resume", "task_block"):
            st = c.start(n)
            t, st = c.task(st, False)
            a = [t] if n != "task_block" else [c.obj(st, "out")[0], t]
            if n == "task_suspend":
                a.append(fresh("cont", ptr=True))
            c.run(st, a, lambda k, z, r: None if k == "die" else "an empty task is used")
    st = c.start("task_suspend")
    t, st = c.task(st)
    k_ = fresh("cont", ptr=True)
    st = st.assume1(c_ge(P(k_) - 4096)).copy()
    c.model.watch = (c.F, t)

    def chk(k, z, r):
        E = ops(z, "swapped", "kept")
        if k != "ret" or len(E) != 1 or len(c.onstate(z, ("swapped", "kept"))) != 1 or ops(z, "exchange", "load", "count"):
            return "the waiting coroutine is not registered by one atomic exchange"
        if not z.eq0(E[0][2] - R["start"]) or not z.eq0(E[0][3] - P(k_)):
            return "registers %r where the state was %r" % (E[0][3], E[0][2])
        v = z.decide(r if is_cond(r) else c_ne(r))
        if v is not (E[0][0] == "swapped"):
            return "%s although the coroutine was %s" % ("suspends" if v else "does not suspend", "not registered" if E[0][0] == "kept" else "registered")
        if E[0][0] == "swapped" and [x for x in after(z, ("swapped",), None) if x[0] == "touch"]:
            return "the task is accessed after the waiting coroutine was registered: it may already have been resumed elsewhere"
        if ops(z, "resume", "destroy"):
            return "resumes or destroys a coroutine"
    c.run(st, [t, k_], chk)
    st = c.start("task_resume")
    t, st = c.task(st)
    c.run(st, [t], lambda k, z, r: None if k == "ret" and [x[0] for x in ops(z)] == ["resume"] and z.eq0(ops(z)[0][1] - P(c.F)) else "the coroutine is not resumed exactly once")


def results(c, R):
    val = c.PO + c.fval
    for n, src in (("return_move", True), ("return_copy", True), ("return_void", False)):
        st = c.start(n)
        if st is None:
            continue
        a = [c.p]
        if src:
            v, st = c.obj(st, "v")
            c.value(st, v, 0)
            c.value(st, c.F, val)
            a.append(v)

        def chk(k, z, r):
            S = [i for i, x in enumerate(ops(z)) if x[0] == "signal"]
            if k != "ret" or len(S) != 1 or not z.eq0(ops(z)[S[0]][1] - c.p - c.fflag):
                return "waiters are not released exactly once"
            if ops(z, "exchange", "load", "swapped", "kept", "destroy", "resume"):
                return "the task is completed before its coroutine has finished"
            if src:
                if any(x[0] in ("massign", "move") and split_addr(x[1])[0] is c.F for x in ops(z)[S[0]:]):
                    return "the result is stored after waiters were released"
                h = [x for x, y in c.model.holds(z, c.F, P(val))]
                if [c.model.tag_at(x, P(val))[:2] for x in h] not in ([("o", v)], [("c", v)]):
                    return "the promise does not hold the returned value"
        c.run(st, a, chk)
    for n in ("task_get", "task_block"):
        st = c.start(n)
        o, st = c.obj(st, "out")
        t, st = c.task(st)
        c.value(st, c.F, val)

        def chk(k, z, r):
            O = ops(z)
            if k != "ret":
                return "terminates the program"
            if n == "task_block":
                B = [i for i, x in enumerate(O) if x[0] == "block" and z.eq0(x[1] - c.p - c.fflag)]
                if not B:
                    return "does not wait for the result"
                if any(x[0] in ("move", "massign") and split_addr(x[2])[0] is c.F for x in O[:B[0]]):
                    return "takes the result before it is there"
            h = [x for x, y in c.model.holds(z, o, ZERO)]
            if [c.model.tag_at(x, ZERO)[:2] for x in h] != [("o", c.F)]:
                return "does not deliver the task's result"
            if ops(z, "destroy", "exchange"):
                return "gives the task up"
        c.run(st, [o, t], chk)
    for n, blk in (("taskv_get", 0), ("taskv_block", 1)):
        st = c.start(n)
        t, st = c.task(st)
        c.run(st, [t], lambda k, z, r: None if k == "ret" and len(ops(z, "block")) == blk and len(ops(z)) == blk and all(z.eq0(x[1] - c.p - c.fflag) for x in ops(z, "block")) else "does not wait exactly as asked")
    st = c.start("pblock")
    c.run(st, [c.p], lambda k, z, r: None if k == "ret" and len(ops(z)) == 1 and ops(z)[0][0] == "block" and z.eq0(ops(z)[0][1] - c.p - c.fflag) else "does not wait for the flag")
    st = c.start("unhandled")
    c.run(st, [c.p], lambda k, z, r: None if k == "die" else "an exception in a coroutine is ignored")
    for n, want in (("final_ready", False), ("initial_ready", True), ("suspend_ready", False), ("continue_ready", True)):
        st = c.start(n)
        if st is not None:
            c.run(st, [c.p] if "l_" in n else [], lambda k, z, r: None if k == "ret" and z.decide(r if is_cond(r) else c_ne(r)) is want else "suspends wrongly")


def frames(c):
    st = c.start("new")
    n = P(fresh("n", nn=True))
    st = st.assume1(c_ge(n - 1)).copy()

    def chk(k, z, r):
        b, o = split_addr(z.norm(r))
        if k != "ret" or b is None or z.ts.get(("buf", b)) != "live" or not z.eq0(o):
            return "a frame is not allocated"
        if not z.eq0(z.ts[("size", b)] - n):
            return "a frame gets %r bytes instead of %r" % (z.ts[("size", b)], n)
    c.run(st, [n], chk)
    st = c.start("delete")
    b = fresh("heap", ptr=True)
    st = st.assume1(c_ge(P(b) - 1)).copy()
    c.model.new_buf(st, b, n, "1")
    c.run(st, [P(b), n], lambda k, z, r: None if k == "ret" and z.ts.get(("buf", b)) == "freed" else "the frame's storage is not released")


def then(c):
    """the continuation is kept by the coroutine, not borrowed from the caller"""
    st = c.start("then")
    if st is None:
        return
    c.model.val_at = c.PO + c.fval
    o, st = c.obj(st, "out")
    t, st = c.task(st)
    f, st = c.obj(st, "f")
    c.value(st, f, 0)
    c.value(st, c.F, c.PO + c.fval)

    def chk(k, z, r):
        if k == "die":
            return "terminates the program"
        for x in ops(z, "call"):
            if x[2] != ("o", c.F):
                return "the continuation is not given the task's result"
        fr = split_addr(handle(c, z, o))[0]
        if fr is None or z.ts.get(("buf", fr)) != "live":
            return None if z.ts.get(("buf", fr)) == "freed" else "no coroutine is returned"
        ob = z.mem.get(fr)
        if ob:
            for off, (sz, v) in ob.cells.items():
                if isinstance(v, Poly) and split_addr(z.norm(v))[0] is f:
                    return "the suspended coroutine refers to the caller's temporary continuation"
    seen = []

    def skip(z):
        # decided on the paths that suspend on the task: the rest is the protocol above, with states unrelated to each other here
        w = not [x for x in ops(z, "swapped") if z.eq0(x[1] - c.p - c.fstate)]
        seen.append(w)
        return w
    c.run(st, [o, t, f], chk, skip)
    if seen and all(seen):
        c.ctx.undecided("then", "no path suspends on the task")


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("Every path of every task, promise and suspension operation with the atomic state before it arbitrary: who destroys the frame, whom it continues with, "
                       "and in which order results, flags and states are published; checked for all three roles together.")
    ctx.assumptions = ["one coroutine waits for a task at a time", "the primitives of C16 meet their contracts"]
    mod = harness("coro", OPQ)
    c = C(ctx, mod, layouts(os.path.join(VERIF, "harness", "coro.cpp")))
    R = roles(c)
    if R is None:
        return ctx.undecided("states", "the task states could not be read off")
    finals(c, R)
    dtors(c, R)
    moves(c, R)
    waits(c, R)
    results(c, R)
    frames(c)
    then(c)
    ctx.floor("obligations", len(ctx.obs), 40)
