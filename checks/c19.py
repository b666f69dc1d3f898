"""The coroutine pool: every scheduled coroutine is queued once, run once, by a worker that is awake; shutdown waits for all."""
from pools import *

OPQ = ["^rpp::Vec<", "^rpp::Queue<", "^rpp::Thread::(Mutex|Cond|Atomic)::", "^rpp::Async::Event::", "^rpp::Thread::(set_affinity|hardware_threads|sys_)",
       "^rpp::Mallocator<", r"^[^(]*[&*] rpp::(Vec|Queue)<"]
SRC = os.path.join(VERIF, "harness", "pool.cpp")


def ops(z, *names):
    return [e[1] for e in z.events() if e[0] == "op" and (not names or e[1][0] in names)]


def since(z):
    """the operations of the last iteration"""
    E = z.events()
    n = max((i for i, e in enumerate(E) if e[0] == "loop"), default=-1)
    return [e[1] for e in E[n + 1:] if e[0] == "op"]


class C:
    def __init__(self, ctx, mod, lay):
        self.ctx, self.mod, self.lay = ctx, mod, lay
        self.shutdown = None

    def begin(self, role=None):
        self.model = m = PoolModel(self.lay)
        m.thread_role = role
        m.shutdown = self.shutdown
        self.eng = PoolEngine(self.mod, m)
        st = State()
        p = fresh("pool", ptr=True)
        st = st.assume1(c_ge(P(p) - 4096)).copy()
        m.p = P(p)
        self.base = p
        n = P(fresh("nstates", nn=True))
        k = P(fresh("m", nn=True))
        st = st.assume1(c_ge(n - 1)).copy()
        t = st.ts
        for nm in ("sdata", "edata", "jdata"):
            b = fresh(nm, ptr=True)
            t[nm] = b
        t.update(held=(), slen=n, eb=k + 1, jb=k, ep=ZERO, jp=ZERO, ev=(), gone=(), J=(), npush=ZERO, nsig=ZERO, nq=ZERO, nstart=ZERO, nkeep=ZERO)
        for nm in ("sdata", "edata", "jdata"):
            st = st.assume1(c_ge(P(t[nm]) - 4096)).copy()
        return st

    def trace(self, tag, fn, st, args, judge):
        """all paths of fn; judge(kind, z, r) returns what is wrong, or None"""
        ctx = self.ctx
        eng = self.eng
        eng.again = []
        self.model.outer = None
        eng.pending_die = []
        for n, v in enumerate(args):
            st.env[n] = v
        try:
            outs = eng.run(fn, st)
        except AnalysisError as e:
            return ctx.undecided(tag, str(e)[:250])
        ps = [("ret", o[1], o[2]) if o[0] == "ret" else ("die", o[1], None) for o in outs] + [("again", z, None) for z in eng.again]
        for r, msg in dict.fromkeys(self.model.problems):
            ctx.bad(tag, "%s:%s" % (tag, r), "%s: %s (%s)" % (tag, msg, ir.where_fn(fn) if hasattr(ir, "where_fn") else fn.dem))
        for kind, z, r in ps:
            u = [e for e in z.events() if e[0] == "unsure"]
            if u:
                ctx.undecided(tag, "%s at %s" % (u[0][1], ir.where(u[0][2])))
                continue
            v = [e for e in z.events() if e[0] == "viol"]
            if v:
                for e in v[:2]:
                    ctx.bad(tag, "%s:%s" % (tag, e[1]), "%s: %s at %s" % (tag, e[2], ir.where(e[3])))
                continue
            if kind != "die" and z.ts["held"] and kind == "ret":
                ctx.bad(tag, tag + ":lock-leaked", "%s returns holding a lock" % tag)
                continue
            try:
                pb = judge(kind, z, r)
            except AnalysisError as e:
                ctx.undecided(tag, str(e)[:250])
                continue
            if pb:
                ctx.bad(tag, "%s:%s" % (tag, re.sub(r"[^a-z]+", "-", pb.lower())[:50]), "%s: %s\n  path %s\n  ends at %s" % (tag, pb, Path(kind, z, r, z.events()).show()[:900], Path(kind, z, r, z.events()).where()))
            else:
                ctx.ok(tag)
        return ps

    def fn(self, name):
        f = self.mod.fns.get("h_" + name)
        if f is None:
            self.ctx.fail("harness function %s vanished" % name)
        return f


def criticals(O, kind):
    """for every operation of the given kind: the position of the lock that protects it and of its unlock"""
    out = []
    for i, x in enumerate(O):
        if x[0] == kind:
            lo = max((j for j in range(i) if O[j][0] == "lock"), default=None)
            hi = min((j for j in range(i, len(O)) if O[j][0] == "unlock"), default=len(O))
            out.append((i, lo, hi))
    return out


def woken(z, O, i, S):
    """a signal for worker S after the push at position i, or in the same critical section"""
    lo = 0
    d = 0
    for j in range(i, -1, -1):
        if O[j][0] == "lock" and O[j][1] == "state":
            lo = j
            break
    return any(O[j][0] == "signal" and z.eq0(O[j][1] - S) for j in range(lo, len(O)))


def pushed(z, O, h):
    """the job h was added to exactly one queue, and that worker is woken"""
    Q = [i for i, x in enumerate(O) if x[0] == "push"]
    if len(Q) != 1:
        return "the job is added to %d queues" % len(Q)
    i = Q[0]
    if not z.eq0(O[i][2] - h):
        return "another coroutine is queued than the one given"
    if not woken(z, O, i, O[i][1]):
        return "the worker whose queue got the job is not woken"
    return None


def schedule(c, LS, LE):
    spool = [o for o, t in fields(LS, "s") if t.endswith("&")]
    st = c.begin()
    s = fresh("sched", ptr=True)
    st = st.assume1(c_ge(P(s) - 4096)).copy()
    c.eng.set_cell(st, s, P(spool[0]), 8, P(c.base))
    h = P(fresh("h", ptr=True))
    st = st.assume1(c_ge(h - 4096)).copy()
    f = c.fn("sched_suspend")

    def chk(kind, z, r):
        if kind == "die":
            return "terminates the program"
        if kind == "again":
            return None
        return pushed(z, ops(z), h)
    c.trace("Schedule.await_suspend", f, st, [P(s), h], chk)
    for n in ("sched_ready",):
        st = c.begin()
        st = st.assume1(c_ge(P(s) - 4096)).copy()
        c.trace("Schedule.await_ready", c.fn(n), st, [P(s)], lambda k, z, r: None if k == "ret" and z.decide(r if is_cond(r) else c_ne(r)) is False else "does not suspend")
    st = c.begin()
    o = fresh("out", ptr=True)
    st = st.assume1(c_ge(P(o) - 4096)).copy()
    c.trace("Pool.suspend", c.fn("suspend"), st, [P(o), P(c.base)], lambda k, z, r: None if k == "ret" and z.eq0(c.eng.load(z, P(o) + spool[0], 8, "ptr") - P(c.base)) else "schedules onto another pool")

    epool = [o for o, t in fields(LE, "s") if t.endswith("&")][0]
    eev = [o for o, t in fields(LE, "s") if "Event" in t and not t.endswith("&")][0]
    st = c.begin()
    st = st.assume1(c_ge(P(s) - 4096)).copy()
    st = st.assume1(c_ge(h - 4096)).copy()
    c.eng.set_cell(st, s, P(epool), 8, P(c.base))
    c.model.settag(st, P(s) + eev, ("arg",))

    def chk(kind, z, r):
        if kind == "die":
            return "terminates the program"
        O = ops(z)
        Q = [i for i, x in enumerate(O) if x[0] == "queued"]
        if len(Q) != 1:
            return "the event is handed over %d times" % len(Q)
        if O[Q[0]][1] != ("arg",) or not z.eq0(O[Q[0]][2] - h):
            return "hands over another event or coroutine than the ones given"
        lo = max(j for j in range(Q[0]) if O[j][0] == "lock")
        if not any(O[j][0] == "esignal" and z.eq0(O[j][1]) for j in range(lo, len(O))):
            return "the event thread is not woken"
        if ("arg",) in z.ts["gone"]:
            return "the event is destroyed"
    c.trace("Schedule_Event.await_suspend", c.fn("event_suspend"), st, [P(s), h], chk)
    st = c.begin()
    st = st.assume1(c_ge(P(s) - 4096)).copy()
    c.model.settag(st, P(s) + eev, ("arg",))

    def chk(kind, z, r):
        T = ops(z, "try")
        if kind != "ret" or len(T) != 1 or T[0][1] != ("arg",):
            return "does not ask the event once"
        a = r if is_cond(r) else c_ne(r)
        for v, cc in ((True, c_ge(T[0][2] - 1)), (False, c_eq(T[0][2]))):
            for y in z.assume(cc):
                if y.decide(a) is not v:
                    return "does not tell whether the event is ready"
    c.trace("Schedule_Event.await_ready", c.fn("event_ready"), st, [P(s)], chk)
    st = c.begin()
    ea = fresh("ev", ptr=True)
    st = st.assume1(c_ge(P(o) - 4096)).copy()
    st = st.assume1(c_ge(P(ea) - 4096)).copy()
    c.model.settag(st, P(ea), ("arg",))
    c.trace("Pool.event", c.fn("event"), st, [P(o), P(c.base), P(ea)],
            lambda k, z, r: None if k == "ret" and z.eq0(c.eng.load(z, P(o) + epool, 8, "ptr") - P(c.base)) and c.model.tag(z, P(o) + eev) == ("arg",) and ("arg",) not in z.ts["gone"] else "does not keep the event")
    st = c.begin()
    c.trace("Pool.n_threads", c.fn("n_threads"), st, [P(c.base)], lambda k, z, r: None if k == "ret" and z.eq0(r - z.ts["slen"]) else "does not tell the number of workers")


def dtor(c):
    st = c.begin("dtor")
    t = P(fresh("evthread", nn=True))
    st = st.assume1(c_ge(t - 1)).copy()
    st.ts["evt"] = t
    c.eng.set_cell(st, c.base, P(c.lay.evthread), 8, t)

    def chk(kind, z, r):
        if kind == "die":
            return "terminates the program"
        if kind == "again":
            return None
        if not z.ts.get("wjoined"):
            return "does not wait for the workers"
        if not z.ts.get("ejoined"):
            return "does not wait for the event thread"
        if not z.ent(P(z.ts["nq"]) - z.ts["slen"]):
            return "does not destroy the jobs left in every queue"
        w = z.copy()
        n = len(w.events())
        c.model.finish(w, None)
        if len(w.events()) != n:
            return "does not destroy every job that is left in a queue"
    c.trace("Pool.destroy", c.fn("dtor"), st, [P(c.base)], chk)
    c.shutdown = c.model.found


def ctor(c):
    st = c.begin("ctor")
    st.ts.update(eb=ZERO, jb=ZERO, noev=True)
    started = {}

    def chk(kind, z, r):
        if kind == "die":
            return None
        for x in ops(z, "start"):
            started.setdefault((repr(x[1]), repr(x[2])), (x, z, kind))
        if kind == "again":
            if not z.eq0(P(z.ts["nstart"]) - z.ts["nkeep"]):
                return "does not keep every worker it starts"
            return None
        if not z.ent(P(z.ts["nkeep"]) - z.ts["slen"]) or not z.eq0(z.ts["nstart"] - P(z.ts["nkeep"]) - 1):
            return "does not start and keep one thread per worker and one for events"
        S = ops(z, "start")
        t = c.eng.load(z, P(c.base) + c.lay.evthread, 8, "i64")
        if not S or not z.eq0(t - S[-1][3]):
            return "does not keep the event thread"
    c.trace("Pool.make", c.fn("ctor"), st, [P(c.base)], chk)
    model, eng = c.model, c.eng
    kinds = []
    for x, z, kind in started.values():
        f = None
        for t in x[1].terms():
            if t.op.startswith("fn:"):
                f = c.mod.fns.get(t.op[3:])
        if f is None or f.blocks is None:
            c.ctx.undecided("Pool.threads", "cannot tell what a thread runs")
            continue
        w = z.copy()
        for k in ("q", "sd", "qat", "front", "tlast", "noev"):
            w.ts.pop(k, None)
        m = P(fresh("m", nn=True))
        w.ts.update(held=(), npush=ZERO, ev=(), gone=(), J=())
        model.thread_role = "thread"
        model.problems = []
        w.log = State().log
        seen = set()

        def probe(k, y, r):
            return None
        ctx, c.ctx = c.ctx, Quiet()
        ps = c.trace("probe", f, w.copy(), [x[2]], probe)
        c.ctx = ctx
        model.problems = []
        isev = ps is not None and any(ops(y, "any") for k, y, r in ps)
        kinds.append("events" if isev else "worker")
        if isev:
            w.ts.update(eb=m + 1, jb=m, ep=ZERO, jp=ZERO)
            if not z.ent(x[5] - 1):
                c.ctx.bad("Pool.make", "Pool.make:no-wake-event", "the event thread is started before there is an event to wake it")
            c.trace("Pool.events", f, w, [x[2]], lambda k, y, r: events(c, k, y))
        else:
            c.trace("Pool.worker", f, w, [x[2]], lambda k, y, r: worker(c, k, y, x[4]))
    if set(kinds) != {"events", "worker"}:
        c.ctx.undecided("Pool.threads", "found the threads %r" % (kinds,))
    model.thread_role = None


class Quiet:
    def __getattr__(self, n):
        return lambda *a, **k: None


def worker(c, kind, z, me):
    if kind == "die":
        return "terminates the program"
    O = ops(z) if kind == "ret" else since(z)
    for x in O:
        if x[0] in ("wait", "front", "pop") and not z.eq0(x[1] - me):
            return "a worker uses another worker's queue"
    if kind == "ret":
        O = since(z)
        if ("sd", True) not in O:
            return "a worker ends although the pool is not shutting down"
        if any(x[0] in ("front", "pop") for x in O) and not any(x[0] == "resume" for x in O):
            return "a worker ends with a job it took and did not run"
        return None
    if z.ts["@again"] != c.model.outer:
        if [x for x in O if x[0] in ("front", "pop", "resume")]:
            raise AnalysisError("jobs are run in an inner loop")
        return None
    R, F, Pp = [[x for x in O if x[0] == k] for k in ("resume", "front", "pop")]
    if [x for x in O if x[0] == "destroy"]:
        return "a worker destroys a job"
    if len(Pp) != len(R):
        return "a worker takes %d jobs and runs %d" % (len(Pp), len(R))
    for a, b in zip(Pp, R):
        if a[2] is None or not z.eq0(a[2] - b[1]):
            return "a worker runs another job than the one it takes off its queue"
    return None


def events(c, kind, z):
    if kind == "die":
        return "terminates the program"
    O = since(z) if kind == "again" else ops(z)
    E = z.events()
    A = [i for i, x in enumerate(ops(z)) if x[0] == "any"]
    if kind == "ret":
        if ("sd", True) not in ops(z)[A[-1] if A else 0:]:
            return "the event thread ends although the pool is not shutting down"
        return None
    # an inner loop's iteration, or one of the outer loop
    if z.ts["@again"] != c.model.outer:
        return None
    if z.ts["held"]:
        return "goes on holding a lock"
    O = ops(z)[A[-1]:] if A else []
    if not A:
        return None
    m = z
    n, k = c.model.elen(z), c.model.jlen(z)
    if not z.eq0(n - k - 1) or not z.ent(k):
        return "the pending events and their jobs no longer correspond"
    if O[0][1] == "wake":
        D = [i for i, x in enumerate(O) if x[0] == "cleared"]
        if not D and not (z.ts.get("plen") is not None and z.eq0(z.ts["plen"])):
            return "does not take over the events it was woken for"
        R = [i for i, x in enumerate(O) if x[0] == "ereset" and z.eq0(x[1])]
        if not R:
            return "does not reset the event that woke it"
        if D and not (R[0] < D[-1] or not any(x[0] == "unlock" for x in O[D[-1]:R[0]])):
            return "resets the wake-up event after letting others add events: their wake-up is lost"
        if [x for x in O if x[0] == "push"]:
            return "queues a job no event is ready for"
        if z.ts["ev"] and any(t[0] not in ("none", "pair", "dead", "new") and not z.eq0(P(c.model.off_e(z, a)) - t[1]) for a, t in z.ts["ev"] if t[0] == "E" and c.model.off_e(z, a) is not None):
            return "mixes up pending events"
        return None
    idx = z.ts["idx"]
    J = dict((repr(z.norm(P(i))), v) for i, v in z.ts["J"])
    job = lambda i: next((v for x, v in z.ts["J"] if z.eq0(x - i)), None)
    pb = pushed(z, O, job(idx))
    if pb:
        return pb
    if [x for x in O if x[0] == "ereset"]:
        return "resets an event that is not its own"
    jd = z.ts["jdata"]
    seen = []
    pos = [x for x, v in z.ts["J"]]
    for a, t in z.ts["ev"]:
        j = c.model.off_e(z, a)
        if j is not None and not any(z.eq0(j - x) for x in pos):
            pos.append(j)
    for j in pos:
        if z.ent(j - n):
            continue
        if not z.ent(n - 1 - j):
            raise AnalysisError("cannot tell which events remain")
        t = c.model.tag(z, P(z.ts["edata"]) + j * c.model.ESZ)
        if t[0] != "E":
            return "leaves a dead event among the pending ones"
        if z.eq0(t[1] - idx):
            return "keeps waiting for the event that is done"
        w = job(t[1])
        if w is None:
            raise AnalysisError("cannot tell which job belongs to a pending event")
        v = c.eng.load(z, P(jd) + (j - 1) * c.model.JSZ, 8, "ptr")
        if not z.eq0(v - w):
            return "a pending event no longer goes with its own job"
        seen.append(t[1])
    for x, v in z.ts["J"]:
        if not z.eq0(x - idx) and not any(z.eq0(x - s) for s in seen):
            return "stops waiting for an event that is not done"
    return None


# ---- asynchronous waiting and file access -------------------------------------------------------

class AsyModel(TraceModel):
    def __init__(self):
        super().__init__()
        nop = lambda e, st, I, a: [(st, None)]
        self.h(r"^rpp::Mallocator<.*>::alloc\(", self.alloc)
        self.h(r"^rpp::Mallocator<.*>::free\(", self.free)
        self.h(r"^rpp::Thread::(Atomic|Flag)::(Atomic|Flag|~Flag)\(", nop)
        self.h(r"^rpp::Thread::Flag::signal\(", lambda e, st, I, a: self.op(st, I, ("done",)))
        self.h(r"^rpp::Thread::Atomic::exchange\(", self.xchg)
        self.h(r"^rpp::Log::sys_error", lambda e, st, I, a: [(st, [P(fresh("str", ptr=True, nn=True)), P(fresh("len", nn=True))])])
        self.h(r"rpp::Opt<", self.opt)
        E = r"^rpp::Async::Event::"
        self.h(E + "of_sys", self.of_sys)
        self.h(E + r"Event\(rpp::Async::Event&&\)", self.e_move)
        self.h(E + r"~Event", nop)
        self.h(E + "try_wait", self.try_wait)
        self.h(r"^rpp::Async::Pool<.*>::enqueue_event", self.enq)
        self.h(r"^rpp::Files::read\(", lambda e, st, I, a: self.file(e, st, I, a, "read"))
        self.h(r"^rpp::Files::write\(", lambda e, st, I, a: self.file(e, st, I, a, "write"))
        self.sys(r"^timerfd_create$", "timerfd_create", OK_OR_M1)
        self.h(r"^timerfd_settime$", self.settime)

    def op(self, st, I, what, r=None):
        st = st.copy()
        st.event("op", what, I)
        return [(st, r)]

    def alloc(self, e, st, I, a):
        b = fresh("heap", ptr=True)
        st = st.assume1(c_ge(P(b) - 4096)).copy()
        st.ts["frame"] = b
        return [(st, P(b))]

    def free(self, e, st, I, a):
        return self.op(st, I, ("freed", st.norm(a[0])))

    def xchg(self, e, st, I, a):
        return [(st, P(fresh("state")))]

    def opt(self, e, st, I, a):
        m = plain(e.mod.dname(I["fn"])).split("::")[-1]
        if m == "Opt" and len(a) == 2 or m == "operator=":
            st = st.copy()
            st.ts["opt"] = tuple(x for x in st.ts.get("opt", ()) if not st.eq0(x[0] - a[0])) + tuple((st.norm(a[0]), t) for x, t in st.ts.get("opt", ()) if st.eq0(x - a[1]))
            return [(st, a[0])]
        return [(st, None)]

    def indirect(self, eng, st, I, callee, args):
        return self.op(st, I, ("continue", st.norm(args[0])) if args else ("continue",))

    def of_sys(self, e, st, I, a):
        st = st.copy()
        if I["ty"] == "void":
            st.ts["event"] = (st.norm(a[0]),)
            return self.op(st, I, ("event", st.norm(a[-2]), st.norm(a[-1])))
        raise AnalysisError("of_sys")

    def e_move(self, e, st, I, a):
        st = st.copy()
        if any(st.eq0(x - a[1]) for x in st.ts.get("event", ())):
            st.ts["event"] = (st.norm(a[0]),)
        return [(st, None)]

    def try_wait(self, e, st, I, a):
        v = P(fresh("ready", nn=True, ub=1))
        st = st.copy()
        st.event("op", ("try", any(st.eq0(x - a[0]) for x in st.ts.get("event", ())), v), I)
        return [(s, TRUE if k else FALSE) for c, k in ((c_ge(v - 1), 1), (c_eq(v), 0)) for s in st.assume(c)]

    def enq(self, e, st, I, a):
        return self.op(st, I, ("enqueue", st.norm(a[0]), any(st.eq0(x - a[1]) for x in st.ts.get("event", ())), st.norm(a[2])))

    def settime(self, e, st, I, a):
        w = [st.norm(e.load(st, P(a[2]) + 8 * k, 8, "i64")) for k in range(4)]
        out = []
        r = P(fresh("settime"))
        for c in (c_eq(r), c_eq(r + 1)):
            for s in st.assume(c):
                s = s.copy()
                s.event("op", ("settime", st.norm(a[0]), st.norm(a[1]), w, s.norm(r)), I)
                out.append((s, s.norm(r)))
        return out

    def file(self, e, st, I, a, what):
        st = st.copy()
        if I["ty"] == "void":
            t = P(fresh("result", nn=True))
            st.ts["opt"] = st.ts.get("opt", ()) + ((st.norm(a[0]), what),)
            st.event("op", (what, [st.norm(x) for x in a[1:]], None), I)
            return [(st, None)]
        r = P(fresh("result", nn=True, ub=1))
        st.event("op", (what, [st.norm(x) for x in a], r), I)
        return [(st, c_ne(r))]


ASY = ["^rpp::Vec<", "^rpp::Queue<", "^rpp::Thread::(Mutex|Cond|Atomic|Flag)::", "^rpp::Async::Event::", "^rpp::Mallocator<", "^rpp::Files::", "^rpp::Async::Pool<.*>::enqueue",
       "^rpp::Opt<", "rpp::Log::"]


def asyncio(ctx):
    mod = harness("asyncio", ASY)

    def run(name, args, judge):
        f = mod.fns.get("h_" + name)
        model = AsyModel()
        eng = TraceEngine(mod, model)
        st = State()
        st.ts["opt"] = ()
        for n, v in enumerate(args):
            st.env[n] = P(v)
            if v.terms() and any(t.ptr for t in v.terms()):
                st = st.assume1(c_ge(v - 4096)).copy()
        tag = "Async." + name
        try:
            outs = eng.run(f, st)
        except AnalysisError as e:
            return ctx.undecided(tag, str(e)[:250])
        for o in outs + [x for x in eng.pending_die if x not in outs]:
            z = o[1]
            try:
                pb = judge(eng, model, o[0], z)
            except AnalysisError as e:
                ctx.undecided(tag, str(e)[:200])
                continue
            if pb:
                ctx.bad(tag, "%s:%s" % (tag, re.sub(r"[^a-z]+", "-", pb.lower())[:50]), "%s: %s\n  path %s" % (tag, pb, Path("ret", z, None, z.events()).show()[:800]))
            else:
                ctx.ok(tag)
    o, p, ms = P(fresh("out", ptr=True)), P(fresh("pool", ptr=True)), P(fresh("ms", nn=True))

    def wait(eng, model, kind, z):
        T = z.events()
        cr = [e for e in T if e[0] == "sys" and e[1] == "timerfd_create"]
        S = ops(z, "settime")
        if kind == "die":
            if cr and z.ent(cr[0][3]) and not (S and not z.eq0(S[0][4])):
                return "terminates the program although the timer was created"
            return None
        if len(cr) != 1 or len(S) != 1:
            return "does not create and start one timer"
        fd = cr[0][3]
        if not z.ent(fd) or not z.eq0(S[0][4]):
            return "goes on without a timer"
        if cr[0][2][0].cval() not in (1, 7) or not z.eq0(S[0][1] - fd) or not z.eq0(S[0][2]):
            return "does not start a relative timer on a clock that only advances"
        w = S[0][3]
        if not (z.eq0(w[0]) and z.eq0(w[1])):
            return "starts a repeating timer"
        sec, ns = w[2], w[3]
        for y in z.assume(c_ge(ms - 1)):
            if not y.eq0(sec * 10**9 + ns - ms * 10**6):
                return "waits for %r s %r ns instead of %r ms" % (y.norm(sec), y.norm(ns), ms)
            if not (y.ent(ns) and y.ent(10**9 - 1 - ns)):
                return "the nanoseconds may be out of range"
        for y in z.assume(c_eq(ms)):
            if y.eq0(sec) and y.eq0(ns):
                return "a wait of nothing disarms the timer and never ends"
        E, Q, R = ops(z, "event"), ops(z, "enqueue"), ops(z, "try")
        if len(E) != 1 or not z.eq0(E[0][1] - fd) or not (E[0][2].is_const() and int(E[0][2].cval()) & 1):
            return "does not wait for the timer to become readable"
        if R and not R[0][1]:
            return "asks another event"
        ready = bool(R) and z.ent(R[0][2] - 1)
        if ready != (not Q) or len(Q) > 1:
            return "does not hand the timer to the pool exactly when it is not ready yet"
        if Q and (not z.eq0(Q[0][1] - p) or not Q[0][2] or not z.eq0(Q[0][3] - P(z.ts["frame"]))):
            return "does not hand the timer and the coroutine to the given pool"
        return None
    run("wait", [o, p, ms], wait)

    v, d = P(fresh("path", ptr=True)), P(fresh("data", ptr=True))

    def rw(what):
        def f(eng, model, kind, z):
            if kind == "die":
                return "terminates the program"
            C = ops(z, what)
            if len(C) != 1 or ops(z, "read", "write") != C:
                return "does not %s the file once" % what
            want = [eng.load(z, v + k, 8, "i64" if k else "ptr") for k in (0, 8)]
            if what == "write":
                want += [eng.load(z, d + k, 8, "i64" if k else "ptr") for k in (0, 8)]
            got = C[0][1]
            if len(got) != len(want) or any(not z.eq0(x - y) for x, y in zip(got, want)):
                return "passes another path or other data"
            return None if ops(z, "done") else "does not finish"
        return f
    run("read", [o, p, v], rw("read"))
    run("write", [o, p, v, d], rw("write"))


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("Every path of scheduling, the worker loop, the event loop, construction and destruction of the coroutine pool, for any number of workers, queued jobs and pending events, "
                       "with everything another thread may change made arbitrary whenever its lock is not held: locks, wake-ups and the fate of every handle and event.")
    ctx.assumptions = ["the containers, lock primitives, atomics and events meet their contracts (C01, C02, C16, C17)", "only the event thread changes the lists of pending events, as the code on all paths here confirms",
                       "no coroutine is scheduled on a pool that is being destroyed"]
    mod = harness("pool", OPQ)
    L = layouts(SRC, names=r"(L_\w+|rpp::Async::Pool<>::\w+)$")
    L = {k if k.startswith("L_") else k: v for k, v in L.items()}
    try:
        lay = Lay(L)
    except AnalysisError as e:
        return ctx.undecided("Pool", str(e))
    c = C(ctx, mod, lay)
    dtor(c)
    if c.shutdown is None:
        return ctx.undecided("Pool", "cannot tell how the shutdown is announced")
    schedule(c, L["L_sc"], L["L_se"])
    ctor(c)
    asyncio(ctx)
    ctx.floor("obligations", len(ctx.obs), 20)
