"""The coroutine pool: an abstract account of its queues, lists, events, locks and threads.

Containers, events and lock primitives are opaque here: their contracts are the theorems of C01, C02, C16 and C17.
What is decided is the pool's own code: which lock protects which access, who is woken, and where each handle goes.
"""
import re
from build import *
from trace import *


def plain(dem):
    """a demangled name without template arguments and parameters"""
    out, d = [], 0
    s = dem.replace("operator->", "operator@").replace("operator<=", "operator#").replace("operator<", "operator$") if "operator" in dem else dem
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            if ch == "(" and out and not "".join(out).endswith("operator"):
                break
            out.append(ch)
        i += 1
    return "".join(out).split(" ")[-1] if "operator" not in "".join(out) else "".join(out)


def fields(L, root):
    """the direct members of a record: [(offset, type)]"""
    if root is None:
        return [(o, t) for k, (o, t) in L.items() if "." not in k and k != "#size"]
    return [(o, t) for k, (o, t) in L.items() if k.count(".") == 1 and k.startswith(root + ".")]


class Lay:
    def __init__(self, L):
        P_ = fields(L["L_pool"], "p")
        one = lambda fs, pred, what: self.one([o for o, t in fs if pred(t)], what)
        self.elem = elem = lambda t: re.sub(r"^struct rpp::Vec<(struct )?", "", t) if t.startswith("struct rpp::Vec<") else ""
        self.states = one(P_, lambda t: elem(t).startswith("rpp::Async::Pool<"), "the worker states")
        self.threads = one(P_, lambda t: elem(t).startswith("rpp::Thread::Thread<"), "the worker threads")
        self.events = one(P_, lambda t: elem(t).startswith("rpp::Async::Event,"), "the pending events")
        self.ejobs = one(P_, lambda t: elem(t).startswith("rpp::Async::Handle<"), "the jobs of pending events")
        self.pairs = one(P_, lambda t: elem(t).startswith("rpp::Pair<"), "the events to enqueue")
        self.evthread = one(P_, lambda t: t.startswith("struct rpp::Thread::Thread<"), "the event thread")
        self.emut = one(P_, lambda t: t == "struct rpp::Thread::Mutex", "the events lock")
        st = elem([t for o, t in P_ if o == self.states][0]).split(",")[0]
        if st not in L:
            raise AnalysisError("no layout of the worker states")
        S = fields(L[st], None)
        self.ssize, self.psize = L[st]["#size"][0], L["L_pair"]["#size"][0]
        self.smut = one(S, lambda t: t == "struct rpp::Thread::Mutex", "a state's lock")
        self.scond = one(S, lambda t: t == "struct rpp::Thread::Cond", "a state's condition")
        self.sq = one(S, lambda t: t.startswith("struct rpp::Queue<"), "a state's queue")
        pr = fields(L["L_pair"], "p")
        self.pe = one(pr, lambda t: t == "struct rpp::Async::Event", "a pair's event")
        self.ph = one(pr, lambda t: "Handle" in t, "a pair's handle")

    @staticmethod
    def one(c, what):
        if len(c) != 1:
            raise AnalysisError("cannot tell %s apart in the pool" % what)
        return c[0]


class PoolEngine(TraceEngine):
    pass


class PoolModel(TraceModel):
    relational = True
    ESZ, JSZ, PSZ = 8, 8, 16

    def __init__(self, lay):
        super().__init__()
        self.lay = lay
        self.SS = lay.ssize
        self.PSZ = lay.psize
        self.rel_strides = (1, self.SS, self.PSZ, -1, -self.SS)
        self.problems = []
        self.p = None
        self.shutdown = None        # offset of the shutdown word, when known
        T = r"^rpp::Thread::"
        self.h(T + r"Mutex::lock\(", self.m_lock)
        self.h(T + r"Mutex::unlock\(", self.m_unlock)
        self.h(T + r"Mutex::try_lock\(", self.m_try)
        self.h(T + r"(Mutex|Cond)::~?(Mutex|Cond)\(", lambda e, st, I, a: [(st, None)])
        self.h(T + r"Cond::wait\(", self.c_wait)
        self.h(T + r"Cond::(signal|broadcast)\(", self.c_signal)
        self.h(T + r"Atomic::Atomic\(", lambda e, st, I, a: [(st, None)])
        self.h(T + r"Atomic::load\(", self.a_load)
        self.h(T + r"Atomic::(exchange|store|compare_and_swap)\(", self.a_store)
        self.h(T + r"Atomic::(incr|decr)\(", lambda e, st, I, a: [(st, P(fresh("seq", nn=True)))])
        self.h(T + r"hardware_threads\(", self.hw)
        self.h(T + r"set_affinity\(", lambda e, st, I, a: [(st, None)])
        self.h(T + r"sys_start\(", self.start)
        self.h(T + r"sys_join\(", self.join)
        self.h(T + r"sys_detach\(", self.detach)
        E = r"^rpp::Async::Event::"
        self.h(E + r"Event\(rpp::Async::Event&&\)", self.e_move)
        self.h(E + r"Event\(\)", self.e_new)
        self.h(E + r"operator=\(", self.e_assign)
        self.h(E + r"~Event\(", self.e_drop)
        self.h(E + r"signal\(", lambda e, st, I, a: self.e_op(st, I, "esignal", a))
        self.h(E + r"reset\(", lambda e, st, I, a: self.e_op(st, I, "ereset", a))
        self.h(E + r"try_wait\(", self.e_try)
        self.h(E + r"wait_any\(", self.wait_any)
        self.h(r"^rpp::Mallocator<.*>::alloc\(", self.alloc)
        self.h(r"^rpp::Mallocator<.*>::free\(", lambda e, st, I, a: [(st, None)])
        self.h(r"rpp::Vec<", lambda e, st, I, a: self.cont(e, st, I, a, "Vec"))
        self.h(r"rpp::Queue<", lambda e, st, I, a: self.cont(e, st, I, a, "Queue"))
        self.h(r"rpp::Queue<.*>::Iterator<", self.qiter)

    # ---- problems -----------------------------------------------------------------------------
    def bad(self, st, I, rule, msg):
        st.event("viol", rule, msg, I)

    def unsure(self, st, I, msg):
        st.event("unsure", msg, I)

    @property
    def always_ghost(self):
        return {"ctor": ("nstart", "nkeep"), "dtor": ("nsig", "nq", "d"), "thread": ("ep", "jp")}.get(self.thread_role, ())

    def rel_cands(self, st, item, e0, ghosts):
        if item[0] == "ts":
            return [(g, 1) for g in ghosts if (g, item[1]) in (("nstart", "nkeep"), ("ep", "jp"))]
        b = split_addr(e0)[0]
        c = []
        for g in ghosts:
            if b is not None and b is st.ts.get("sdata"):
                c += [(g, s) for s in (self.SS, -self.SS)]
            elif b is not None and b is st.ts.get("pdata"):
                c += [(g, self.PSZ)]
            else:
                c += [(g, 1), (g, -1)]
        if item[0] == "cell":
            c = c[::-1]
        return c

    # ---- where an address is ------------------------------------------------------------------
    def off(self, st, a):
        """offset within the pool object, or None"""
        d = st.norm(P(a) - self.p)
        return int(d.cval()) if d.is_const() else None

    def state_of(self, st, a, fld):
        """(index of the worker state, None) whose field the address is"""
        b, o = split_addr(st.norm(a))
        if b is not self.sdata(st):
            return None
        o = st.norm(o) - fld
        c = o.const_part() if hasattr(o, "const_part") else None
        q = o.div_exact(self.SS)
        return q

    def sdata(self, st):
        return st.ts["sdata"]

    # ---- locks --------------------------------------------------------------------------------
    def lockname(self, st, a):
        if self.off(st, a) == self.lay.emut:
            return "events"
        if self.state_of(st, a, self.lay.smut) is not None:
            return "state"
        return None

    def held(self, st, a):
        return any(st.eq0(x - a) for x in st.ts["held"])

    def m_lock(self, e, st, I, a):
        st = st.copy()
        m = st.norm(a[0])
        n = self.lockname(st, m)
        if n is None:
            self.unsure(st, I, "a lock that is not one of the pool's")
            n = "state"
        if self.held(st, m):
            self.bad(st, I, "self-deadlock", "takes a lock it already holds")
        for x in st.ts["held"]:
            k = self.lockname(st, x)
            if k == "state":
                self.bad(st, I, "lock-order", "takes the %s lock while holding a worker's lock" % n)
        st.ts["held"] = st.ts["held"] + (m,)
        self.forget(e, st, n, m)
        st.event("op", ("lock", n, m), I)
        return [(st, None)]

    def forget(self, e, st, n, m):
        """what other threads may have changed while the lock was not held"""
        if n == "state":
            st.ts.pop("q", None)
            self.recheck(st)
            st.ts["qat"] = st.norm(m) - self.lay.smut
        elif self.thread_role != "dtor-joined":
            if not st.ts.get("quiet"):
                st.ts["pdata"] = fresh("pairs", ptr=True)
                st.ts["plen"] = P(fresh("npairs", nn=True))
                for s in st.assume(c_ge(P(st.ts["pdata"]) - 1))[:1]:
                    st.facts = s.facts
            st.ts["mv"] = "fresh"

    def recheck(self, st):
        """the pool may be shut down at any time, but not restarted"""
        if st.ts.get("sd") is False:
            st.ts.pop("sd")

    thread_role = None
    outer = None                # the thread's main loop

    def m_unlock(self, e, st, I, a):
        st = st.copy()
        m = st.norm(a[0])
        n = self.lockname(st, m)
        if not self.held(st, m):
            self.bad(st, I, "unlock", "releases a lock that is not held")
        st.ts["held"] = tuple(x for x in st.ts["held"] if not st.eq0(x - m))
        if n is None:
            n = "state"
        if n == "events":
            self.pairs_done(st, I)
            for k in ("pdata", "plen", "mv"):
                st.ts.pop(k, None)
        else:
            st.ts.pop("q", None)
            st.ts.pop("qat", None)
            self.recheck(st)
        st.event("op", ("unlock", n, m), I)
        return [(st, None)]

    def pairs_done(self, st, I):
        if st.ts.get("mv") != "cleared" and not (st.eq0(P(st.ts["ep"])) and st.eq0(P(st.ts["jp"]))):
            self.bad(st, I, "moved-twice", "events that were taken over stay in the list of events to take over")

    def m_try(self, e, st, I, a):
        raise AnalysisError("try_lock")

    def c_wait(self, e, st, I, a):
        st = st.copy()
        c, m = st.norm(a[0]), st.norm(a[1])
        i = self.state_of(st, c, self.lay.scond)
        if i is None:
            raise AnalysisError("a condition that is not one of the pool's")
        if not self.held(st, m):
            self.bad(st, I, "wait-unlocked", "waits with a lock that is not held")
        if not st.eq0((c - self.lay.scond) - (m - self.lay.smut)):
            self.bad(st, I, "wait-lock", "waits on one worker's condition with another worker's lock")
        if len(st.ts["held"]) > 1:
            self.bad(st, I, "wait-holding", "waits while holding another lock")
        q = st.ts.get("q")
        if q is None or not st.eq0(q) or not st.eq0(st.norm(P(st.ts["qat"])) - (c - self.lay.scond)):
            self.bad(st, I, "lost-wakeup", "waits without having found its queue empty under the lock")
        if st.ts.get("sd") is not False:
            self.bad(st, I, "lost-shutdown", "waits without having found, under the lock, that the pool is not shutting down")
        st.ts.pop("q", None)
        self.recheck(st)
        st.event("op", ("wait", i), I)
        return [(st, None)]

    def c_signal(self, e, st, I, a):
        st = st.copy()
        i = self.state_of(st, a[0], self.lay.scond)
        if i is None:
            self.unsure(st, I, "a condition that is not one of the pool's")
            i = P(fresh("i", nn=True))
        m = st.norm(a[0]) - self.lay.scond + self.lay.smut
        st.event("op", ("signal", i, self.held(st, m)), I)
        if self.thread_role == "dtor":
            if not st.ts.get("sdset"):
                self.bad(st, I, "signal-early", "wakes a worker before the shutdown is announced")
            if not self.held(st, m):
                # the worker may be between its test and its wait
                self.bad(st, I, "signal-unlocked", "wakes a worker without its lock: a worker that has just found the pool running is not woken")
            st.ts["nsig"] = self.ordered(st, I, i, st.ts["nsig"], "wakes")
        return [(st, None)]

    def ordered(self, st, I, i, n, what):
        n = P(n)
        if st.eq0(i - n) or st.eq0(i + n + 1 - st.ts["slen"]):
            return st.norm(n + 1)
        self.unsure(st, I, "cannot tell which worker states are visited")
        return st.norm(n + 1)

    # ---- atomics ------------------------------------------------------------------------------
    def a_load(self, e, st, I, a):
        o = self.off(st, a[0])
        if o is None:
            raise AnalysisError("an atomic outside the pool")
        if o != self.shutdown:
            return [(st, P(fresh("seq", nn=True)))]
        out = []
        v = P(fresh("sd", nn=True))
        for c, k in ((c_eq(v), False), (c_ge(v - 1), True)):
            if st.ts.get("sd") is True and not k:
                continue
            for s in st.assume(c):
                s = s.copy()
                s.ts["sd"] = k
                s.event("op", ("sd", k), I)
                out.append((s, s.norm(v)))
        return out

    def a_store(self, e, st, I, a):
        o = self.off(st, a[0])
        st = st.copy()
        if o is not None and (self.shutdown is None or o == self.shutdown) and st.ent(a[-1] - 1):
            st.ts["sdset"] = True
            self.found = o
            st.event("op", ("sdset", o), I)
        else:
            st.event("op", ("sdclear", o), I)
            if o is not None and o == self.shutdown:
                self.bad(st, I, "restart", "withdraws the shutdown")
        return [(st, P(fresh("old")))]

    found = None

    # ---- threads ------------------------------------------------------------------------------
    def hw(self, e, st, I, a):
        if "hw" not in st.ts:
            st = st.copy()
            v = P(fresh("hw", nn=True))
            st = st.assume1(c_ge(v - 1)).copy()
            st.ts["hw"] = v
        return [(st, st.ts["hw"])]

    def start(self, e, st, I, a):
        t = P(fresh("thread", ptr=I["ty"] == "ptr", nn=True))
        st = st.assume1(c_ge(t - 1)).copy()
        st.event("op", ("start", st.norm(a[0]), st.norm(a[1]), t, st.norm(P(st.ts["nstart"])), self.elen(st)), I)
        st.ts["tlast"] = t
        st.ts["nstart"] = st.norm(P(st.ts["nstart"]) + 1)
        return [(st, t)]

    def join(self, e, st, I, a):
        st = st.copy()
        if st.ts["held"]:
            self.bad(st, I, "join-holding", "waits for a thread while holding a lock that thread may need")
        t = st.ts.get("evt")
        if t is not None and st.eq0(a[0] - t):
            self.joined_events(st, I)
        else:
            raise AnalysisError("joins a thread that is not the event thread")
        return [(st, None)]

    def joined_events(self, st, I):
        if st.ts.get("ejoined"):
            self.bad(st, I, "join-twice", "waits for the event thread twice")
        if not st.ts.get("sdset"):
            self.bad(st, I, "join-running", "waits for the event thread before the shutdown is announced")
        if not st.ts.get("e0"):
            self.bad(st, I, "join-asleep", "waits for the event thread without waking it after the shutdown is announced")
        st.ts["ejoined"] = True
        st.event("op", ("ejoin",), I)

    def joined_workers(self, st, I):
        if st.ts["held"]:
            self.bad(st, I, "join-holding", "waits for the workers while holding a lock they may need")
        if not st.ts.get("sdset"):
            self.bad(st, I, "join-running", "waits for the workers before the shutdown is announced")
        if not st.ent(P(st.ts["nsig"]) - st.ts["slen"]):
            self.bad(st, I, "join-asleep", "waits for the workers although not every one of them was woken")
        st.ts["wjoined"] = True
        st.event("op", ("wjoin",), I)

    def detach(self, e, st, I, a):
        st = st.copy()
        self.bad(st, I, "detach", "gives up a thread that still uses the pool")
        return [(st, None)]

    # ---- events -------------------------------------------------------------------------------
    def tag(self, st, a):
        a = st.norm(P(a))
        for x, t in st.ts["ev"]:
            if st.eq0(x - a):
                return t
        b, o = split_addr(a)
        if b is st.ts.get("edata"):
            return ("E", o.div_exact(self.ESZ))
        if b is not None and b is st.ts.get("pdata"):
            q = (o - self.lay.pe).div_exact(self.PSZ)
            return ("pair", q)
        return None

    def settag(self, st, a, t):
        a = st.norm(P(a))
        st.ts["ev"] = tuple((x, y) for x, y in st.ts["ev"] if not st.eq0(x - a)) + ((a, t),)

    def unstable(self, st, a):
        """elements whose address may equal a but need not"""
        a = st.norm(P(a))
        b, o = split_addr(a)
        for x, t in st.ts["ev"]:
            xb, xo = split_addr(x)
            if xb is b and not st.eq0(xo - o) and not (st.ent(xo - o - 1) or st.ent(o - xo - 1)):
                return True
        return False

    def writable(self, st, a, I):
        b, o = split_addr(st.norm(P(a)))
        if b is not None and b is st.ts.get("edata"):
            self.guard(st, I, "events", "changes the pending events")
            if self.unstable(st, a):
                self.unsure(st, I, "cannot tell pending events apart")
        if b is not None and b is st.ts.get("pdata"):
            self.guard(st, I, "events", "changes the events to take over")

    def guard(self, st, I, n, what):
        if n == "events" and not any(self.lockname(st, x) == "events" for x in st.ts["held"]) and not st.ts.get("ejoined") and not st.ts.get("noev"):
            self.bad(st, I, "unlocked", "%s without the events lock" % what)

    def take(self, st, src, I):
        t = self.tag(st, src)
        if t is None:
            self.unsure(st, I, "an unknown event is moved")
            return ("none",)
        if t[0] in ("none", "dead"):
            self.bad(st, I, "event-empty", "uses an event that was moved away")
        return t

    def e_move(self, e, st, I, a):
        st = st.copy()
        t = self.take(st, a[1], I)
        self.writable(st, a[1], I)
        self.settag(st, a[0], t)
        self.settag(st, a[1], ("none",))
        return [(st, None)]

    def e_new(self, e, st, I, a):
        st = st.copy()
        self.settag(st, a[0], ("new",))
        return [(st, None)]

    def e_assign(self, e, st, I, a):
        st = st.copy()
        if st.eq0(a[0] - a[1]):
            return [(st, a[0])]
        t = self.take(st, a[1], I)
        o = self.tag(st, a[0])
        self.writable(st, a[0], I)
        self.writable(st, a[1], I)
        if o is not None and o[0] not in ("none", "dead"):
            st.ts["gone"] = st.ts["gone"] + (o,)
        self.settag(st, a[0], t)
        self.settag(st, a[1], ("none",))
        return [(st, a[0])]

    def e_drop(self, e, st, I, a):
        st = st.copy()
        t = self.tag(st, a[0])
        if t is not None and t[0] not in ("none", "dead"):
            st.ts["gone"] = st.ts["gone"] + (t,)
        self.settag(st, a[0], ("dead",))
        return [(st, None)]

    def e_op(self, st, I, what, a):
        st = st.copy()
        b, o = split_addr(st.norm(a[0]))
        if b is None or b is not st.ts.get("edata"):
            raise AnalysisError("an event that is not one of the pool's")
        i = o.div_exact(self.ESZ)
        lk = any(self.lockname(st, x) == "events" for x in st.ts["held"])
        st.event("op", (what, i, lk), I)
        if what == "esignal":
            if not lk and not st.ts.get("ejoined"):
                self.bad(st, I, "unlocked", "uses the pending events without the events lock: the list may be reallocated meanwhile")
            if st.eq0(i) and st.ts.get("sdset"):
                st.ts["e0"] = True
        if what == "ereset":
            st.ts["wake"] = False
        return [(st, None)]

    def e_try(self, e, st, I, a):
        st = st.copy()
        v = P(fresh("ready", nn=True, ub=1))
        st.event("op", ("try", self.tag(st, a[0]), v), I)
        return [(st, c_ne(v))]

    def elen(self, st):
        return st.norm(P(st.ts["eb"]) + st.ts["ep"])

    def jlen(self, st):
        return st.norm(P(st.ts["jb"]) + st.ts["jp"])

    def wait_any(self, e, st, I, a):
        st = st.copy()
        if st.ts["held"]:
            self.bad(st, I, "wait-holding", "waits for events while holding a lock")
        b, o = split_addr(st.norm(a[0]))
        n = self.elen(st)
        if b is not st.ts.get("edata") or not st.eq0(o) or not st.eq0(a[1] - n):
            self.bad(st, I, "wait-some", "does not wait for all pending events")
        i = P(fresh("idx", nn=True))
        out = []
        for k, cs in (("wake", [c_eq(i)]), ("last", [c_eq(i - n + 1), c_ge(i - 1)]), ("mid", [c_ge(i - 1), c_ge(n - 2 - i)])):
            zs = [st]
            for c in cs:
                zs = [y for x in zs for y in x.assume(c)]
            for s in zs:
                s = s.copy()
                s.ts["ev"] = ()
                s.ts["gone"] = ()
                s.event("op", ("any", k, s.norm(i)), I)
                jd = s.ts["jdata"]
                J = []
                for x in ([] if k == "wake" else [i, n - 1] if k == "mid" else [i]):
                    J.append((s.norm(x), e.load(s, P(jd) + (s.norm(x) - 1) * self.JSZ, 8, "ptr")))
                s.ts["J"] = tuple(J)
                s.ts["idx"] = s.norm(i)
                s.ts["kind"] = k
                out.append((s, s.norm(i)))
        return out

    def alloc(self, e, st, I, a):
        b = fresh("heap", ptr=True)
        st = st.assume1(c_ge(P(b) - 1)).copy()
        return [(st, P(b))]

    # ---- containers ---------------------------------------------------------------------------
    def handle_at(self, e, st, a):
        return st.norm(e.load(st, P(a), 8, "ptr"))

    def cont(self, e, st, I, a, kind):
        nm = plain(e.mod.dname(I["fn"]))
        m = nm.split("::")[-1]
        st = st.copy()
        if m in ("make", "Vec", "Queue") or m.startswith("~"):
            return self.lifetime(e, st, I, a, m)
        if kind == "Queue":
            return self.queue(e, st, I, a, m)
        o = self.off(st, a[0])
        w = {self.lay.states: "states", self.lay.threads: "threads", self.lay.events: "events", self.lay.ejobs: "ejobs", self.lay.pairs: "pairs"}.get(o)
        if w is None:
            # result by value: the object is the second argument
            raise AnalysisError("a list that is not one of the pool's (%s)" % m)
        return getattr(self, "v_" + w)(e, st, I, a, m)

    def lifetime(self, e, st, I, a, m):
        o = self.off(st, a[0])
        if m == "make":
            if o != self.lay.states:
                raise AnalysisError("a list is made that is not the pool's")
            st.ts["slen"] = st.norm(a[1])
            st.event("op", ("made", st.norm(a[1])), I)
        elif m == "Vec":
            st.event("op", ("ctor", o), I)
        elif m == "~Vec":
            if o == self.lay.threads and self.thread_role == "dtor" and not st.ts.get("wjoined"):
                self.joined_workers(st, I)
            if o == self.lay.states and self.thread_role == "dtor" and not st.ts.get("wjoined"):
                self.bad(st, I, "freed-early", "frees the workers' queues while they are running")
            if o in (self.lay.events, self.lay.ejobs, self.lay.pairs) and self.thread_role == "dtor" and not st.ts.get("ejoined"):
                self.bad(st, I, "freed-early", "frees the event lists while the event thread is running")
            st.event("op", ("dtor", o), I)
        return [(st, None)]

    def idx(self, st, I, i, n, what):
        if not st.ent(P(i)) or not st.ent(P(n) - 1 - i):
            self.bad(st, I, "range", "%s may be out of range" % what)

    def common(self, st, I, a, m, data, n, sz):
        if m == "length":
            return [(st, n)]
        if m == "empty":
            return [(s.copy(), v) for c, v in ((c_eq(n), TRUE), (c_ge(n - 1), FALSE)) for s in st.assume(c)]
        if m in ("begin", "data"):
            return [(st, P(data))]
        if m == "end":
            return [(st, P(data) + n * sz)]
        if m == "slice":
            return [(st, [P(data), n])]
        if m == "operator[]":
            self.idx(st, I, a[1], n, "an index")
            return [(st, P(data) + st.norm(a[1]) * sz)]
        if m == "back":
            self.idx(st, I, n - 1, n, "the last element")
            return [(st, P(data) + (n - 1) * sz)]
        if m == "front":
            self.idx(st, I, ZERO, n, "the first element")
            return [(st, P(data))]
        return None

    def v_states(self, e, st, I, a, m):
        r = self.common(st, I, a, m, self.sdata(st), st.ts["slen"], self.SS)
        if r is None:
            raise AnalysisError("the worker states are changed (%s)" % m)
        return r

    def v_threads(self, e, st, I, a, m):
        if m in ("push", "emplace"):
            t = e.load(st, P(a[1]), 8, "i64")
            st.event("op", ("keep", st.norm(t)), I)
            if not (st.ts.get("tlast") is not None and st.eq0(t - st.ts["tlast"])):
                self.bad(st, I, "thread-lost", "does not keep the thread that was just started")
            st.ts["nkeep"] = st.norm(P(st.ts["nkeep"]) + 1)
            b, o = split_addr(st.norm(a[1]))
            e.set_cell(st, b, o, 8, ZERO)
            return [(st, P(fresh("el", ptr=True, nn=True)))]
        if m == "clear":
            self.joined_workers(st, I)
            return [(st, None)]
        if m == "reserve":
            return [(st, None)]
        raise AnalysisError("the worker threads are used (%s)" % m)

    def v_events(self, e, st, I, a, m):
        n = self.elen(st)
        if m in ("push", "emplace"):
            self.guard(st, I, "events", "changes the pending events")
            t = ("new",) if len(a) == 1 else self.take(st, a[1], I)
            if t[0] == "pair":
                if t[1] is None or not st.eq0(t[1] - st.ts["ep"]):
                    self.unsure(st, I, "cannot tell which events are taken over")
                st.ts["ep"] = st.norm(P(st.ts["ep"]) + 1)
            elif t[0] == "new":
                st.ts["eb"] = st.norm(P(st.ts["eb"]) + 1)
                st.event("op", ("enew",), I)
            else:
                self.bad(st, I, "event-other", "adds an event that is not one of those to take over")
            if len(a) > 1:
                self.settag(st, a[1], ("none",))
            return [(st, P(fresh("el", ptr=True, nn=True)))]
        if m == "pop":
            self.guard(st, I, "events", "changes the pending events")
            self.idx(st, I, n - 1, n, "the last event")
            at = P(st.ts["edata"]) + (n - 1) * self.ESZ
            t = self.tag(st, at)
            if t[0] not in ("none", "dead"):
                st.ts["gone"] = st.ts["gone"] + (t,)
            self.settag(st, at, ("dead",))
            st.ts["eb"] = st.norm(P(st.ts["eb"]) - 1)
            return [(st, None)]
        if m == "clear":
            if not st.ts.get("ejoined"):
                self.bad(st, I, "clear-running", "drops the pending events while the event thread is running")
            return [(st, None)]
        if m == "reserve":
            self.guard(st, I, "events", "changes the pending events")
            return [(st, None)]
        r = self.common(st, I, a, m, st.ts["edata"], n, self.ESZ)
        if r is None:
            raise AnalysisError("the pending events are used (%s)" % m)
        return r

    def v_ejobs(self, e, st, I, a, m):
        n = self.jlen(st)
        if m == "push":
            b, o = split_addr(st.norm(a[1]))
            want = None
            if b is not None and b is st.ts.get("pdata"):
                want = (o - self.lay.ph).div_exact(self.PSZ)
            else:
                v = self.handle_at(e, st, a[1])
                pd = st.ts.get("pdata")
                if pd is not None and st.eq0(v - self.handle_at(e, st, P(pd) + P(st.ts["jp"]) * self.PSZ + self.lay.ph)):
                    want = P(st.ts["jp"])
            if want is None or not st.eq0(want - st.ts["jp"]):
                self.unsure(st, I, "cannot tell which jobs are taken over")
            st.ts["jp"] = st.norm(P(st.ts["jp"]) + 1)
            return [(st, P(fresh("el", ptr=True, nn=True)))]
        if m == "pop":
            self.idx(st, I, n - 1, n, "the last job")
            st.ts["jb"] = st.norm(P(st.ts["jb"]) - 1)
            return [(st, None)]
        if m in ("clear", "reserve"):
            if m == "clear" and not st.ts.get("ejoined"):
                raise AnalysisError("the jobs of pending events are dropped")
            return [(st, None)]
        r = self.common(st, I, a, m, st.ts["jdata"], n, self.JSZ)
        if r is None:
            raise AnalysisError("the jobs of pending events are used (%s)" % m)
        return r

    def v_pairs(self, e, st, I, a, m):
        if "plen" not in st.ts:
            if not st.ts.get("ejoined"):
                self.bad(st, I, "unlocked", "uses the events to take over without the events lock")
            st.ts["pdata"] = fresh("pairs", ptr=True)
            st.ts["plen"] = P(fresh("npairs", nn=True))
        if m in ("emplace", "push"):
            if m == "push":
                ev, h = P(a[1]) + self.lay.pe, P(a[1]) + self.lay.ph
            else:
                ev, h = P(a[1]), P(a[2])
            st.event("op", ("queued", self.take(st, ev, I), self.handle_at(e, st, h)), I)
            self.settag(st, ev, ("none",))
            st.ts["plen"] = P(fresh("npairs", nn=True))
            return [(st, P(fresh("el", ptr=True, nn=True)))]
        if m == "clear":
            n = st.ts["plen"]
            if not (st.ent(P(st.ts["ep"]) - n) and st.ent(P(st.ts["jp"]) - n)):
                self.bad(st, I, "event-lost", "drops events that were not all taken over together with their jobs")
            st.ts["plen"] = ZERO
            st.ts["mv"] = "cleared"
            st.event("op", ("cleared",), I)
            return [(st, None)]
        if m == "reserve":
            return [(st, None)]
        r = self.common(st, I, a, m, st.ts["pdata"], P(st.ts["plen"]), self.PSZ)
        if r is None:
            raise AnalysisError("the events to take over are used (%s)" % m)
        return r

    # ---- worker queues ------------------------------------------------------------------------
    def queue(self, e, st, I, a, m):
        at = a[1] if m in ("begin", "end") and len(a) == 2 else a[0]
        i = self.state_of(st, at, self.lay.sq)
        if i is None:
            self.unsure(st, I, "a queue that is not one of the pool's")
            i = P(fresh("i", nn=True))
        S = st.norm(P(self.sdata(st)) + i * self.SS)
        lk = self.held(st, S + self.lay.smut)
        if self.thread_role == "dtor":
            return self.dqueue(e, st, I, a, m, i)
        if m in ("push", "emplace"):
            if not lk:
                self.bad(st, I, "unlocked", "adds to a worker's queue without its lock")
            self.idx(st, I, i, st.ts["slen"], "the worker")
            h = self.handle_at(e, st, a[1])
            st.ts["npush"] = st.norm(P(st.ts["npush"]) + 1)
            st.event("op", ("push", i, h), I)
            st.ts.pop("q", None)
            return [(st, P(fresh("el", ptr=True, nn=True)))]
        mine = lk and st.ts.get("qat") is not None and st.eq0(P(st.ts["qat"]) - S)
        if m in ("empty", "length"):
            if mine and "q" in st.ts:
                n = P(st.ts["q"])
            else:
                n = P(fresh("qlen", nn=True))
            if m == "length" and not mine:
                return [(st, n)]
            out = []
            for c, v in ((c_eq(n), TRUE), (c_ge(n - 1), FALSE)):
                for s in st.assume(c):
                    s = s.copy()
                    if mine:
                        s.ts["q"] = s.norm(n) if v == FALSE else ZERO
                    out.append((s, v if m == "empty" else s.norm(n)))
            return out
        if m in ("front", "pop"):
            if not lk:
                self.bad(st, I, "unlocked", "takes from a worker's queue without its lock")
            if not mine or "q" not in st.ts or not st.ent(P(st.ts["q"]) - 1):
                self.bad(st, I, "empty", "takes from a queue that may be empty")
            if m == "front":
                if "front" not in st.ts:
                    st, h, c = self.job(st)
                    st.ts["front"] = (h, c)
                st.event("op", ("front", i, P(st.ts["front"][0])), I)
                return [(st, P(st.ts["front"][1]))]
            st.event("op", ("pop", i, P(st.ts["front"][0]) if "front" in st.ts else None), I)
            st.ts.pop("front", None)
            if "q" in st.ts:
                st.ts["q"] = st.norm(P(st.ts["q"]) - 1)
            return [(st, None)]
        raise AnalysisError("a worker's queue is used (%s)" % m)

    def dqueue(self, e, st, I, a, m, i):
        """the destructor walks the queues that are left"""
        if not st.ts.get("wjoined"):
            self.bad(st, I, "queue-running", "uses a worker's queue while the workers are running")
        if m in ("begin", "end", "length", "empty"):
            cur = st.ts.get("curq")
            if cur is None or not st.eq0(P(cur) - i):
                self.finish(st, I)
                st.ts["nq"] = self.ordered(st, I, i, st.ts["nq"], "empties")
                st.ts["curq"] = i
                st.ts["d"] = ZERO
                st.ts["dn"] = P(fresh("left", nn=True))
                b = fresh("qdata", ptr=True)
                st.ts["qd"] = b
                for s in st.assume(c_ge(P(b) - 1))[:1]:
                    st = s.copy()
            if m == "length":
                return [(st, P(st.ts["dn"]))]
            if m == "empty":
                n = P(st.ts["dn"])
                return [(s.copy(), v) for c, v in ((c_eq(n), TRUE), (c_ge(n - 1), FALSE)) for s in st.assume(c)]
            v = ZERO if m == "begin" else P(st.ts["dn"])
            it = [st.norm(P(a[-1])), v]
            if I["ty"] == "void":
                b, o = split_addr(st.norm(a[0]))
                e.set_cell(st, b, o, 8, it[0])
                e.set_cell(st, b, o + 8, 8, it[1])
                return [(st, None)]
            return [(st, it)]
        raise AnalysisError("a worker's queue is used in the destructor (%s)" % m)

    def finish(self, st, I):
        if st.ts.get("curq") is not None:
            if not st.ent(P(st.ts["d"]) - st.ts["dn"]):
                self.bad(st, I, "job-leaked", "does not destroy every job that is left in a queue")
            for k in ("curq", "d", "dn", "qd"):
                st.ts.pop(k, None)

    def job(self, st):
        """an element of a queue: a cell holding the handle of some coroutine"""
        c = fresh("cell", ptr=True)
        h = term("jobof", c, ptr=True)
        st = st.assume1(c_ge(P(h) - 4096)).copy()
        return st.assume1(c_ge(P(c) - 4096)).copy(), h, c

    def on_load(self, eng, st, base, off, size, ty, inst):
        if base.op.startswith("cell#") and off.is_const() and off.cval() == 0:
            return P(term("jobof", base, ptr=True))
        if base.op == "jobof" and off.is_const() and off.cval() in (0, 8):
            return P(term("destroy_fn" if off.cval() else "resume_fn", base, ptr=True))
        return None

    def qiter(self, e, st, I, a):
        m = plain(e.mod.dname(I["fn"])).split("::")[-1]
        b, o = split_addr(st.norm(a[0]))
        i = e.load(st, P(a[0]) + 8, 8, "i64")
        if m in ("operator==", "operator!="):
            j = e.load(st, P(a[1]) + 8, 8, "i64")
            return [(st, c_eq(st.norm(i - j)) if m == "operator==" else c_ne(st.norm(i - j)))]
        st = st.copy()
        if m == "operator++":
            e.set_cell(st, b, o + 8, 8, st.norm(i + 1))
            return [(st, P(a[0]))]
        if m in ("operator*", "operator@"):
            if not st.ent(P(i)) or not st.ent(P(st.ts["dn"]) - 1 - i):
                self.bad(st, I, "range", "reads a job outside the queue")
            if not st.eq0(i - st.ts["d"]):
                self.unsure(st, I, "cannot tell which jobs are destroyed")
            st, h, c = self.job(st)
            st.ts["left"] = h
            return [(st, P(c))]
        raise AnalysisError("a queue iterator is used (%s)" % m)

    # ---- coroutines ---------------------------------------------------------------------------
    def indirect(self, eng, st, I, callee, args):
        for t in callee.terms():
            if t.op in ("resume_fn", "destroy_fn") and callee == P(t):
                st = st.copy()
                what = t.op[:-3]
                if st.ts["held"]:
                    self.bad(st, I, "run-holding", "%ss a coroutine while holding a lock" % what.rstrip("e"))
                if not st.eq0(args[0] - P(t.args[0])):
                    self.bad(st, I, "run-other", "mixes up coroutines")
                if what == "destroy" and self.thread_role == "dtor":
                    if st.ts.get("left") is not t.args[0]:
                        self.bad(st, I, "job-twice", "destroys a job twice")
                    else:
                        st.ts["d"] = st.norm(P(st.ts["d"]) + 1)
                        st.ts.pop("left")
                st.event("op", (what, P(t.args[0]), st.ts.get("front") is not None), I)
                return [(st, None)]
        return None

    # ---- loops --------------------------------------------------------------------------------
    GHOST = ("nsig", "nq", "ep", "jp", "d", "nstart", "nkeep")

    def loop_head(self, eng, H, fn, L):
        if self.thread_role == "thread" and self.outer is None:
            self.outer = (fn, L.header)
        if self.outer == (fn, L.header):
            H = H.copy()
            m = P(fresh("m", nn=True))
            H.ts.update(eb=m + 1, jb=m, ep=ZERO, jp=ZERO, ev=(), gone=(), J=(), npush=ZERO)
            return H
        return None

    def loop_change(self, eng, H, T, k, fn, L):
        if k in ("ev", "J", "idx", "kind", "gone", "hw", "front", "tlast", "left"):
            return "drop" if k in H.ts and k not in ("ev", "J", "gone") else "ok"
        if self.outer == (fn, L.header) and k in ("eb", "jb", "ep", "jp", "npush"):
            return "ok"         # judged on the path; arbitrary again at the head
        if k in ("d", "curq", "dn", "qd"):
            a, b = H.ts.get("curq"), T.ts.get("curq")
            if a is not None and b is not None and T.eq0(P(a) - b):
                return "ghost" if k == "d" else "no"
            if b is not None:
                if not T.ent(P(T.ts["d"]) - T.ts["dn"]):
                    self.problems.append(("job-leaked", "does not destroy every job that is left in a queue"))
            return "drop"
        if k in self.GHOST and k in H.ts and T.ts.get(k) is not None:
            return "ghost"
        if k == "npush":
            self.problems.append(("push-twice", "goes on after it added the job to a queue"))
            return "ok"
        if k in ("q", "sd", "qat", "plen", "pdata", "mv"):
            return "drop"
        if k == "held":
            self.problems.append(("lock-leaked", "goes round a loop holding different locks"))
            return "ok"
        if k in ("wake",):
            return "drop"
        return "no" if k in H.ts else "ok"

    def off_e(self, st, a):
        """the index of a pending event"""
        b, o = split_addr(st.norm(P(a)))
        return o.div_exact(self.ESZ) if b is st.ts.get("edata") else None
