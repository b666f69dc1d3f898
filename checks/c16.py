"""Synchronisation primitives: effect traces of every path against the contract of each operation."""
from build import *
from trace import *
from seq import fld

ACQ = ("acquire", "acq_rel", "seq_cst")
REL = ("release", "acq_rel", "seq_cst")


class SyncModel(TraceModel):
    def __init__(self):
        super().__init__()
        self.shared = {}
        self.h(r"^__errno_location$", lambda e, st, I, a: [(st, P(self.errno(st)))])
        Z = ZERO_OR_NOT
        self.sys(r"^pthread_(mutex|cond)_", split=Z)
        self.sys(r"^pthread_(join|detach)$", split=Z)
        self.sys(r"^pthread_setaffinity_np$", split=Z)
        self.sys(r"^pthread_create$", split=Z, effect=self.created)
        self.sys(r"^(pthread_self|pthread_equal|sysconf|usleep|sched_yield)$")
        self.sys(r"^(clock_gettime)$", split=ZERO_OR_M1, effect=self.clock)
        self.sys(r"^(nanosleep)$", split=ZERO_OR_M1, effect=self.nano)
        self.sys(r"^(clock_nanosleep)$", split=Z, effect=self.nano4)
        self.sys(r"^syscall$", split=OK_OR_M1, effect=self.errset)

    # errno: a fresh value after every failing call
    def errno(self, st):
        b = st.ts.get("errno")
        if b is None:
            b = term("errno", ptr=True)
            st.ts["errno"] = b
        return b

    def errset(self, e, st, I, a, r):
        b = self.errno(st)
        st.mem[b] = Obj(cells={ZERO: (4, P(fresh("errno")))})

    def created(self, e, st, I, a, r):
        e.store(st, a[0], P(fresh("tid", nn=True)), 8, I, "i64")

    def clock(self, e, st, I, a, r):
        e.store(st, a[1], P(fresh("sec", nn=True)), 8, I, "i64")
        e.store(st, a[1] + 8, P(fresh("nsec", nn=True)), 8, I, "i64")
        self.errset(e, st, I, a, r)

    def nano(self, e, st, I, a, r):
        t = (st.norm(e.load(st, a[0], 8, "i64", I)), st.norm(e.load(st, a[0] + 8, 8, "i64", I)))
        st.event("req", t[0], t[1], I)
        if split_addr(a[1])[0] is not None and not st.eq0(r):
            # the kernel writes the remaining time on interruption
            rs, rn = P(fresh("rem_s", nn=True)), P(fresh("rem_ns", nn=True))
            st.ts[("rem", split_addr(a[1])[0])] = (rs, rn)
            e.store(st, a[1], rs, 8, I, "i64")
            e.store(st, a[1] + 8, rn, 8, I, "i64")
        self.errset(e, st, I, a, r)

    def nano4(self, e, st, I, a, r):
        raise AnalysisError("clock_nanosleep")

    def peel(self, fn, L):
        return True

    def loop_change(self, eng, H, T, k, fn, L):
        return "ok" if k == "errno" or k[0] == "rem" else "no"

    def on_load(self, eng, st, base, off, size, ty, inst):
        if base in self.shared and inst is not None:
            st.event("plain-load", base, off, inst)
        return None

    def on_store(self, eng, st, base, off, size, v, inst):
        if base in self.shared and inst is not None:
            st.event("plain-store", base, off, v, inst)
        return False

    def on_atomic(self, eng, st, kind, I, p, v, cmp_):
        p = st.norm(p)
        od = I.get("ord", "")
        if kind == "load":
            x = P(fresh("cur", nn=I["size"] < 8, ub=None))
            st.event("atomic", "load", p, x, x, od, I)
            return [(st, x)]
        if kind == "store":
            st.event("atomic", "store", p, None, st.norm(v), od, I)
            return [(st, None)]
        old = P(fresh("old"))
        if kind == "cmpxchg":
            out = []
            s = st.copy()
            for s in s.assume(c_eq(old - st.norm(cmp_))):
                s = s.copy()
                s.event("atomic", "rmw", p, old, s.norm(v), od, I)
                out.append((s, [old, TRUE]))
            if I.get("weak"):
                s = st.copy()
                s.event("atomic", "load", p, old, old, I.get("ford", od), I)
                out.append((s, [old, FALSE]))
            else:
                for s in st.assume(c_ne(old - st.norm(cmp_))):
                    s = s.copy()
                    s.event("atomic", "load", p, old, old, I.get("ford", od), I)
                    out.append((s, [old, FALSE]))
            return out
        v = st.norm(v)
        new = {"add": lambda: old + v, "sub": lambda: old - v, "xchg": lambda: v}.get(kind)
        if new is None:
            raise AnalysisError("atomicrmw " + kind)
        st.event("atomic", "rmw", p, old, new(), od, I)
        return [(st, old)]


def same(p, a, b):
    return isinstance(a, Poly) and p.st.eq0(P(a) - P(b))


# ---- contracts: function of (path, args) returning a problem or None ---------------------------------------------

def call1(name, args):
    """exactly one call of `name` with these arguments, which succeeds; the program ends if it fails"""
    def chk(p, a):
        c = p.calls()
        want = args(a)
        if p.kind == "die":
            if all(p.st.eq0(x[3]) for x in c if x[3] is not None):
                return "dies although every system call succeeded"
            return None
        if p.kind == "again":
            return "a loop around %s" % name
        if len(c) != 1 or c[0][1] != name:
            return "%s expected once, found %s" % (name, [x[1] for x in c])
        if len(c[0][2]) < len(want) or any(w is not None and not same(p, g, w) for g, w in zip(c[0][2], want)):
            return "%s is applied to %r, expected %r" % (name, c[0][2], want)
        if c[0][3] is not None and not p.st.eq0(c[0][3]):
            return "continues after %s failed" % name
    return chk


def seqcalls(names):
    """these calls, in order, all successful"""
    def chk(p, a):
        c = p.calls()
        want = names(a)
        if p.kind == "die":
            return "dies although every system call succeeded" if all(p.st.eq0(x[3]) for x in c) else None
        if p.kind != "ret":
            return "unexpected loop"
        if [x[1] for x in c] != [w[0] for w in want] or not all(same(p, x[2][0], w[1]) for x, w in zip(c, want)):
            return "lock operations %s, expected %s" % ([(x[1], x[2][0]) for x in c], want)
    return chk


def balanced(p, a):
    """every mutex locked is unlocked exactly once and only while held"""
    c = p.calls()
    if p.kind == "die":
        return None
    held = []
    for x in c:
        if x[1] == "pthread_mutex_lock":
            held.append(x[2][0])
        elif x[1] == "pthread_mutex_unlock":
            h = [y for y in held if same(p, y, x[2][0])]
            if not h:
                return "unlocks %r, which is not held" % (x[2][0],)
            held.remove(h[0])
    if held:
        return "still holds %r at scope exit" % (held,)


def try_lock(p, a):
    c = p.calls()
    if len(c) != 1 or c[0][1] != "pthread_mutex_trylock" or not same(p, c[0][2][0], a[0]):
        return "one pthread_mutex_trylock expected, found %s" % [x[1] for x in c]
    r = c[0][3]
    if p.kind == "die":
        return "dies although the lock was taken or busy" if not (p.st.ne0(r) and p.st.ne0(r - 16)) else None
    if p.kind != "ret":
        return "unexpected loop"
    v = p.st.decide(p.ret) if is_cond(p.ret) else p.st.decide(c_ne(p.ret))
    if v is True and not p.st.eq0(r):
        return "reports success although the lock was not taken"
    if v is False and not p.st.eq0(r - 16):
        return "reports failure although the mutex was not busy"
    if v is None:
        return "result does not follow from pthread_mutex_trylock"


def flag_word(off):
    def acc(p, a):
        for e in p.of("plain-load", "plain-store"):
            if same(p, P(e[1]) + e[2], a[0] + off):
                return "non-atomic access to the flag"
        return None
    return acc


def futex(e):
    """(op, addr, val) of a futex system call"""
    g = e[2]
    if e[1] != "syscall" or not g[0].is_const() or g[0].cval() != 202:
        return None
    op = g[2]
    return (int(op.cval()) & ~128 & ~256 if op.is_const() else None, int(op.cval()) & 128, g[1], g[3], g[4])


def flag_block(p, a):
    at = [e for e in p.of("atomic") if same(p, e[2], a[0])]
    r = flag_word(0)(p, a)
    if r:
        return r
    for e in at:
        if e[1] != "load":
            return "block modifies the flag"
        if e[5] not in ACQ:
            return "flag is read with %s ordering" % e[5]
    last = None
    for e in p.ev:
        if e[0] == "sys":
            f = futex(e)
            if f is None:
                return "unexpected system call %s" % e[1]
            if f[0] != 0:
                return "futex operation %r while waiting" % (f[0],)
            if not same(p, f[2], a[0]):
                return "waits on %r, not on the flag" % (f[2],)
            if not p.st.eq0(f[3]):
                return "waits while the flag is %r (the unsignalled value is 0)" % (f[3],)
            if not p.st.eq0(f[4]):
                return "waits with a timeout"
            last = e
    if p.kind == "die":
        if last is None:
            return "dies without a failing wait"
        if not p.st.eq0(last[3] + 1):
            return "dies although the wait returned normally"
        en = p.st.mem.get(p.st.ts.get("errno"))
        v = en.cells[ZERO][1] if en else None
        for code, nm in ((11, "EAGAIN"), (4, "EINTR")):
            if v is None or not p.st.ne0(v - code):
                return "dies when the wait ends with %s" % nm
        return None
    if p.kind == "ret":
        if not at or not p.st.ne0(at[-1][3]):
            return "returns without having seen the flag set"
    return None


def flag_signal(p, a):
    r = flag_word(0)(p, a)
    if r:
        return r
    setat = None
    wake = None
    for n, e in enumerate(p.ev):
        if e[0] == "atomic" and same(p, e[2], a[0]) and e[1] in ("store", "rmw"):
            if not p.st.ne0(e[4]):
                return "stores %r, which does not mark the flag signalled" % (e[4],)
            if e[5] not in REL:
                return "flag is set with %s ordering" % e[5]
            if setat is None:
                setat = n
        if e[0] == "sys":
            f = futex(e)
            if f is None:
                return "unexpected system call %s" % e[1]
            if f[0] != 1 or not same(p, f[2], a[0]):
                return "futex operation %r on %r" % (f[0], f[2])
            if not (f[3].is_const() and f[3].cval() >= 2 ** 31 - 1):
                return "wakes at most %r waiters" % (f[3],)
            if setat is None:
                return "waiters are woken before the flag is set"
            wake = e
    if p.kind == "die":
        return None if wake is not None and p.st.eq0(wake[3] + 1) else "dies although the wake up succeeded"
    if p.kind == "ret":
        seen = [e for e in p.of("atomic") if e[1] == "load" and same(p, e[2], a[0]) and p.st.ne0(e[3])]
        if setat is None and seen:
            return None  # it was set before: whoever set it wakes the waiters
        if setat is None:
            return "returns without setting the flag"
        if wake is None:
            old = [e for e in p.of("atomic") if e[1] == "rmw" and same(p, e[2], a[0])]
            if not (old and p.st.ne0(old[0][3])):
                return "returns without waking waiters"
    return None


def flag_ready(p, a):
    r = flag_word(0)(p, a)
    if r:
        return r
    at = [e for e in p.of("atomic") if same(p, e[2], a[0])]
    if p.kind != "ret" or p.calls():
        return "does more than read the flag"
    if len(at) != 1 or at[0][1] != "load" or at[0][5] not in ACQ:
        return "the flag is not read once, atomically"
    v = p.ret if is_cond(p.ret) else c_ne(p.ret)
    x = at[0][3]
    for want, c in ((True, c_ne(x)), (False, c_eq(x))):
        for s in p.st.assume(c):
            if s.decide(v) is not want:
                return "result %r does not tell whether the flag (%r) is set" % (v, x)


def rmw(newf, retf):
    def chk(p, a):
        for e in p.of("plain-load", "plain-store"):
            if same(p, P(e[1]) + e[2], a[0]):
                return "non-atomic access to the value"
        at = p.of("atomic")
        if p.calls():
            return "system call"
        if any(not same(p, e[2], a[0]) for e in at):
            return "atomic access to something else"
        if p.kind == "again":
            return "modifies the value on a retry path" if any(e[1] != "load" for e in at) else None
        if p.kind != "ret":
            return "terminates the program"
        mod = [e for e in at if e[1] != "load"]
        want = newf(a)
        if want is None:
            if mod:
                return "load modifies the value"
            if not at or at[-1][5] not in ACQ:
                return "value is not read atomically with acquire ordering"
            old = at[-1][3]
        else:
            if not mod and at:
                # a failed compare and swap
                old = at[-1][3]
                if not want(old, p) is None:
                    return "no modification although the condition holds"
                if at[-1][5] not in ACQ:
                    return "value is read with %s ordering" % at[-1][5]
            else:
                if len(mod) != 1 or mod[0][1] != "rmw":
                    return "%d separate modifications instead of one atomic update" % len(mod)
                if mod[0][5] not in ("acq_rel", "seq_cst"):
                    return "updates with %s ordering" % mod[0][5]
                old = mod[0][3]
                w = want(old, p)
                if w is None or not same(p, mod[0][4], w):
                    return "stores %r where the contract says %r" % (mod[0][4], w)
        if not same(p, p.ret, retf(old, a)):
            return "returns %r, expected %r" % (p.ret, retf(old, a))
    return chk


def cas_new(a):
    def f(old, p):
        if p.st.eq0(old - a[1]):
            return a[2]
        return None if p.st.ne0(old - a[1]) else P(fresh("undecided"))
    return f


def clock(p, a):
    c = p.calls()
    if p.kind == "die":
        return None if any(x[3] is not None and p.st.eq0(x[3] + 1) for x in c) else "dies"
    g = [x for x in c if x[1] == "clock_gettime"]
    if len(g) != 1 or not p.st.eq0(g[0][2][0] - 1):
        return "the monotonic clock is not read once"
    o = p.st.mem.get(split_addr(p.st.norm(g[0][2][1]))[0])
    off = split_addr(p.st.norm(g[0][2][1]))[1]
    s, n = o.cells[off][1], o.cells[off + 8][1]
    if not same(p, p.ret, s * 1000000000 + n):
        return "returns %r, expected %r" % (p.ret, s * 1000000000 + n)


def sleeping(p, a):
    """returns only after a wait of ms milliseconds completed; interrupted waits continue with the remaining time"""
    total = a[0] * 1000000
    us = p.calls("usleep")
    if us:
        for x in us:
            if not same(p, x[2][0], a[0] * 1000):
                return "waits %r microseconds, expected %r" % (x[2][0], a[0] * 1000)
        return "an interrupted wait is not resumed"
    ns = p.calls("nanosleep")
    req = p.of("req")
    if p.kind == "die":
        return "terminates the program"
    if not ns:
        return "returns without waiting"
    if not same(p, req[0][1] * 1000000000 + req[0][2], total):
        return "first waits %r s + %r ns, expected %r ns" % (req[0][1], req[0][2], total)
    if not p.st.ent(999999999 - req[0][2]):
        return "nanoseconds may exceed a second"
    if p.kind == "ret" and not p.st.eq0(ns[-1][3]):
        en = p.st.mem.get(p.st.ts.get("errno"))
        v = en.cells[ZERO][1] if en else None
        if v is None or not p.st.ne0(v - 4):
            return "returns although the wait was interrupted"
    if p.kind == "again":
        if not p.st.ts.get(("rem", split_addr(p.st.norm(ns[-1][2][0]))[0])):
            return "an interrupted wait is not resumed with the remaining time"
    return None


def join(name, args):
    one = call1(name, args)

    def chk(p, a):
        if p.st.eq0(a[0]):
            return "system call for an empty handle" if p.calls(name) else None
        c = p.calls(name)
        others = [x for x in p.calls() if x[1] not in (name, "pthread_self", "pthread_equal")]
        if others:
            return "unexpected call %s" % others[0][1]
        if p.kind == "die":
            q = p.calls("pthread_equal")
            if c and p.st.ne0(c[0][3]) or q and p.st.ne0(q[0][3]):
                return None
            return "dies although nothing failed"
        if p.kind != "ret":
            return "unexpected loop"
        if len(c) != 1 or any(w is not None and not same(p, g, w) for g, w in zip(c[0][2], args(a))):
            return "%s expected once on this thread, found %s" % (name, [(x[1], x[2]) for x in c])
        if not p.st.eq0(c[0][3]):
            return "continues after %s failed" % name
    return chk


def start(p, a):
    c = p.calls()
    if p.kind == "die":
        if c and not p.st.eq0(c[0][3]):
            return None
        tid = created_tid(p)
        return None if tid is not None and p.st.eq0(tid) else "dies although the thread was created"
    if [x[1] for x in c] != ["pthread_create"]:
        return "calls %s" % [x[1] for x in c]
    g = c[0][2]
    if not same(p, g[2], a[0]) or not same(p, g[3], a[1]) or not p.st.eq0(g[1]):
        return "the thread does not run the given function on the given data"
    if not p.st.eq0(c[0][3]):
        return "continues after pthread_create failed"
    if not same(p, p.ret, created_tid(p)):
        return "does not return the created thread"


def created_tid(p):
    c = p.calls("pthread_create")
    b, off = split_addr(p.st.norm(c[0][2][0]))
    return p.st.mem[b].cells[off][1] if b in p.st.mem and off in p.st.mem[b].cells else None


def hw(p, a):
    c = p.calls("sysconf")
    if len(c) != 1 or not p.st.eq0(c[0][2][0] - 84):
        return "the number of online processors is not asked once"
    if p.kind == "die":
        return None if not p.st.ent(c[0][3] - 1) else "dies although the answer is positive"
    if not p.st.ent(c[0][3] - 1):
        return "a non-positive processor count is returned"
    if not same(p, p.ret, c[0][3]):
        return "returns something else"


def affinity(p, a):
    c = p.calls("pthread_setaffinity_np")
    h = p.calls("sysconf")
    if p.kind == "die":
        if c and not p.st.eq0(c[0][3]):
            return None
        if h and (not p.st.ent(h[0][3] - 1) or p.st.ent(a[0] - h[0][3])):
            return None
        return "dies on a valid core"
    if len(c) != 1 or not p.st.eq0(c[0][3]):
        return "affinity is not set"
    if h and not p.st.ent(h[0][3] - a[0] - 1):
        return "an unavailable core is accepted"


def const(v):
    def chk(p, a):
        return None if p.kind == "ret" and same(p, p.ret, P(v)) and not p.calls() else "returns %r, expected %d" % (p.ret, v)
    return chk


def ret_self(p, a):
    c = p.calls()
    return None if p.kind == "ret" and [x[1] for x in c] == ["pthread_self"] and same(p, p.ret, c[0][3]) else "not the calling thread's identity"


def ret_arg(p, a):
    return None if p.kind == "ret" and same(p, p.ret, a[0]) and not p.calls() else "not the thread's identity"


def flag_ctor(p, a):
    o = p.st.mem.get(split_addr(a[0])[0])
    if p.kind != "ret" or p.calls():
        return "unexpected effects"
    c = o and o.cells.get(ZERO)
    return None if c and isinstance(c[1], Poly) and p.st.eq0(c[1]) else "a new flag is not unset"


def nothing(p, a):
    return None if p.kind == "ret" and not p.calls() and not p.of("atomic") else "unexpected effects"


def table(L):
    mm, cc = fld(L["L_mutex"], "lock_", 0), fld(L["L_cond"], "cond_", 0)
    m0 = lambda i=0: (lambda a: [a[i] + mm])
    T = [
        ("h_mutex_ctor", call1("pthread_mutex_init", lambda a: [a[0] + mm, ZERO])),
        ("h_mutex_dtor", call1("pthread_mutex_destroy", m0())),
        ("h_mutex_lock", call1("pthread_mutex_lock", m0())),
        ("h_mutex_unlock", call1("pthread_mutex_unlock", m0())),
        ("h_mutex_try_lock", try_lock),
        ("h_cond_ctor", call1("pthread_cond_init", lambda a: [a[0] + cc, ZERO])),
        ("h_cond_dtor", call1("pthread_cond_destroy", lambda a: [a[0] + cc])),
        ("h_cond_signal", call1("pthread_cond_signal", lambda a: [a[0] + cc])),
        ("h_cond_broadcast", call1("pthread_cond_broadcast", lambda a: [a[0] + cc])),
        ("h_cond_wait", call1("pthread_cond_wait", lambda a: [a[0] + cc, a[1] + mm])),
        ("h_flag_ctor", flag_ctor),
        ("h_flag_dtor", nothing),
        ("h_flag_block", flag_block),
        ("h_flag_signal", flag_signal),
        ("h_flag_ready", flag_ready),
        ("h_atomic_load", rmw(lambda a: None, lambda o, a: o)),
        ("h_atomic_incr", rmw(lambda a: (lambda o, p: o + 1), lambda o, a: o + 1)),
        ("h_atomic_decr", rmw(lambda a: (lambda o, p: o - 1), lambda o, a: o - 1)),
        ("h_atomic_exchange", rmw(lambda a: (lambda o, p: a[1]), lambda o, a: o)),
        ("h_atomic_cas", rmw(cas_new, lambda o, a: o)),
        ("h_lock_scope", seqcalls(lambda a: [("pthread_mutex_lock", a[0] + mm), ("pthread_mutex_unlock", a[0] + mm)])),
        ("h_lock_move", seqcalls(lambda a: [("pthread_mutex_lock", a[0] + mm), ("pthread_mutex_unlock", a[0] + mm)])),
        ("h_lock_assign", balanced),
        ("h_join", join("pthread_join", lambda a: [a[0], ZERO])),
        ("h_detach", join("pthread_detach", lambda a: [a[0]])),
        ("h_start", start),
        ("h_sysid", ret_arg),
        ("h_this_id", ret_self),
        ("h_perf_counter", clock),
        ("h_perf_frequency", const(1000000000)),
        ("h_hardware_threads", hw),
        ("h_sleep", sleeping),
        ("h_set_affinity", affinity),
    ]
    return T


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("Effect traces of every path of every primitive in pos/thread_pos.cpp (loops: first and generic iteration) against the "
                       "contract of the operation; atomics by instruction, operand, ordering and returned value.")
    ctx.assumptions = ["the kernel's futex and the C library's pthread functions meet their documentation",
                       "the Linux configuration is the one analysed"]
    mod = harness("thread")
    L = layouts(VERIF + "/harness/thread.cpp")
    n = 0
    for fname, chk in table(L):
        if fname not in mod.fns:
            ctx.fail("harness function %s vanished" % fname)
            continue
        model = SyncModel()
        nm = fname[2:]

        def prep(eng, st, syms):
            for s in syms:
                b = split_addr(s)[0]
                if b is not None and nm.startswith(("flag", "atomic")):
                    model.shared[b] = True
            return st
        try:
            eng, a, ps = traces(mod, model, fname, prep)
        except AnalysisError as e:
            ctx.undecided(nm, str(e)[:300])
            continue
        if nm in ("flag_ctor",):
            pass
        n += 1
        rets = 0
        for p in ps:
            ctx.count("paths")
            rets += p.kind == "ret"
            try:
                w = chk(p, a)
            except (AnalysisError, KeyError) as e:
                ctx.undecided(nm, "path not understood: %r" % (e,))
                continue
            if w:
                ctx.bad(nm, "%s:%s" % (nm, w.split("%")[0][:60]), "Thread %s: %s\n  at %s\n  path (%s): %s\n  facts %r" % (
                    nm, w, p.where(), p.kind, p.show()[:500], p.st.facts[:10]))
            else:
                ctx.ok(nm, "%s path" % p.kind)
        if not rets:
            ctx.bad(nm, nm + ":never returns", "%s has no returning path" % nm)
    ctx.floor("operations", n, 30)
