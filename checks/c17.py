"""Threads, promises and futures: ownership of the closure, order of filling and signalling, joined or detached once."""
from build import *
from specs import *
from objs import *
from trace import TraceEngine

OPQ = ["^rpp::Mallocator<", "^rpp::Thread::sys_"]


class ThreadModel(RcModel):
    """closures, results and handles; the thread primitives are events"""

    def __init__(self, f_refs):
        super().__init__(False, f_refs, True)
        self.h(r"rpp::Thread::sys_start", self.start)
        for n in ("join", "detach"):
            self.h(r"rpp::Thread::sys_" + n, lambda e, st, I, a, n=n: self.ev(st, (n, st.norm(a[0])), I))
        self.h(r"rpp::Thread::sys_id", lambda e, st, I, a: [(st, P(term("sysid", st.norm(a[0]))))])
        self.h(r"rpp::Thread::Flag::signal", lambda e, st, I, a: self.flag(st, "signal", a, I))
        self.h(r"rpp::Thread::Flag::block", lambda e, st, I, a: self.flag(st, "block", a, I))
        self.h(r"rpp::Thread::Flag::ready", self.ready)
        self.h(r"^Job::operator\(\)", self.run_job)
        self.h(r"^Fn::operator\(\)", self.run_fn)
        self.h(r"^FnV::operator\(\)", self.run_fnv)
        self.h(r"^rpp::Mallocator<.*::alloc\(", self.a_alloc)
        self.h(r"^rpp::Mallocator<.*::free\(", self.a_free)

    def alid(self, eng, I):
        m = re.search(r"Al<(\d+)", eng.mod.dname(I["fn"]))
        return m.group(1) if m else I["fn"].split("E")[0] + re.sub(r"\D", "", eng.mod.dname(I["fn"]))

    def ev(self, st, what, I):
        st.event("op", what, I)
        return [(st, None)]

    def start(self, e, st, I, a):
        f = st.norm(a[0])
        nm = None
        if len(f.t) == 1:
            (m, c), = f.t.items()
            if c == 1 and len(m) == 1 and m[0].op.startswith("fn:"):
                nm = m[0].op[3:]
        t = P(fresh("tid", nn=True))
        st = st.assume1(c_ge(t - 1)).copy()
        st.event("op", ("start", nm, st.norm(a[1]), t), I)
        return [(st, t)]

    def flag(self, st, what, a, I):
        b, o = split_addr(st.norm(a[0]))
        if b is not None:
            self.check_access(st, b, o, 4, I, "flag " + what)
        st.event("op", (what, st.norm(a[0])), I)
        return [(st, None)]

    def ready(self, e, st, I, a):
        c = c_ne(P(term("isset", st.norm(a[0]), nn=True, ub=1)))
        st.event("op", ("ready", st.norm(a[0])), I)
        return [(st, c)]

    def run_job(self, e, st, I, a):
        g = self.get(e, st, a[0], I, "running the closure")
        st.event("op", ("run", st.norm(a[0]), None, self.who(st, g, I)), I)
        return [(st, None)]

    def who(self, st, g, I):
        """the closure that is run: the one it was made from"""
        if g is None:
            return None
        if g[2][2] == "M":
            self.viol(st, "use-moved", "a moved-from closure is run", I)
            return None
        return self.tag_at(g[2], g[1])[:2]

    def run_fn(self, e, st, I, a):
        g = self.get(e, st, a[1], I, "running the closure")
        st.event("op", ("run", st.norm(a[1]), st.norm(a[2]), self.who(st, g, I)), I)
        self.put(e, st, a[0], "L", (("result", P(0)), None, ZERO), I, "the result")
        return [(st, None)]

    def run_fnv(self, e, st, I, a):
        g = self.get(e, st, a[0], I, "running the closure")
        st.event("op", ("run", st.norm(a[0]), st.norm(a[1]), self.who(st, g, I)), I)
        return [(st, None)]

    def t_massign(self, eng, st, I, a):
        r = super().t_massign(eng, st, I, a)
        st.event("op", ("massign", st.norm(a[0])), I)
        return r

    def t_move(self, eng, st, I, a):
        r = super().t_move(eng, st, I, a)
        st.event("op", ("move", st.norm(a[0]), st.norm(a[1])), I)
        return r


def ops(st, *names):
    return [e[1] for e in st.events() if e[0] == "op" and (not names or e[1][0] in names)]


class Run:
    def __init__(self, ctx, mod, mk, name, fn):
        self.ctx, self.mod, self.name = ctx, mod, name
        self.model = mk()
        self.eng = Engine(mod, self.model)
        self.fn = mod.fns.get(fn)
        if self.fn is None:
            ctx.fail("harness function %s vanished" % fn)

    def obj(self, st, i, size=None):
        b = fresh("o%d" % i, ptr=True, nn=True)
        st.env[i] = P(b)
        return b, st.assume1(c_ge(P(b) - 1)).copy()

    def paths(self, st, fn=None):
        try:
            outs = self.eng.run(fn or self.fn, st)
        except (AnalysisError, NeedSplit) as e:
            self.ctx.undecided(self.name, str(e)[:300])
            return
        if not outs:
            self.ctx.undecided(self.name, "no feasible path")
        for o in outs:
            vs = all_viols(o[1])
            if vs:
                for v in vs[:3]:
                    self.bad(o[1], "%s (%s) at %s" % (v[2], v[1], ir.where(v[3]) if v[3] else "?"), v[1])
                continue
            yield o

    def bad(self, st, text, key=None):
        self.ctx.bad(self.name, "%s:%s" % (self.name, key or text[:60]), "%s: %s\n  effects: %s\n  path facts %r" % (
            self.name, text, "; ".join(" ".join(map(str, x)) for x in ops(st)), st.facts[:10]))

    def verdict(self, st, text):
        if text:
            self.bad(st, text)
        else:
            self.ctx.ok(self.name)


def live_left(run, st, skip=()):
    """blocks and objects left over on a finished state"""
    for k, v in st.ts.items():
        if isinstance(k, tuple) and k[0] == "buf" and v != "freed" and k[1] not in skip:
            return "storage %r is never released" % (k[1],)
    return None


def handles(ctx, mod, mk, ft):
    """thread handle: start/join/detach/move"""
    for name, slots in (("thread_ctor", 1), ("thread_dtor", 1), ("thread_move", 2), ("thread_assign", 2), ("thread_join", 1), ("thread_detach", 1), ("thread_id", 1)):
        r = Run(ctx, mod, mk, name, "h_" + name)
        if r.fn is None:
            continue
        st = State()
        bs = []
        for i in range(slots):
            b, st = r.obj(st, i)
            bs.append(b)
        fresh_out = name in ("thread_ctor", "thread_move")
        cases = [(st, [])]
        for i, b in enumerate(bs):
            if i == 0 and fresh_out:
                cases = [(s, v + [None]) for s, v in cases]
                continue
            nxt = []
            for s, v in cases:
                s0 = s.copy()
                r.eng.store(s0, P(b) + ft, ZERO, 8, None, "i64")
                nxt.append((s0, v + [ZERO]))
                t = P(fresh("tid", nn=True))
                s1 = s.assume1(c_ge(t - 1)).copy()
                r.eng.store(s1, P(b) + ft, t, 8, None, "i64")
                nxt.append((s1, v + [t]))
            cases = nxt
        for s, v in cases:
            for o in r.paths(s):
                z = o[1]
                got = [z.norm(r.eng.load(z, P(b) + ft, 8, "i64")) for b in bs] if name != "thread_dtor" else []
                J, D, all_ = ops(z, "join"), ops(z, "detach"), ops(z, "join", "detach", "start")
                w = None
                want_die = name in ("thread_join", "thread_detach", "thread_id") and v[0] == ZERO
                if o[0] == "die":
                    w = None if want_die else "terminates the program on a valid handle"
                elif want_die:
                    w = "an empty handle is used"
                elif name == "thread_ctor":
                    w = None if z.eq0(got[0]) and not all_ else "a new handle is not empty"
                elif name == "thread_dtor":
                    n = 0 if v[0] == ZERO else 1
                    w = None if len(all_) == n and (not n or len(J) == 1 and z.eq0(J[0][1] - v[0])) else "the running thread is not joined exactly once (%s)" % all_
                elif name == "thread_move":
                    w = None if z.eq0(got[0] - v[1]) and z.eq0(got[1]) and not all_ else "move does not transfer the thread and empty the source"
                elif name == "thread_assign":
                    n = 0 if v[0] == ZERO else 1
                    if not (z.eq0(got[0] - v[1]) and z.eq0(got[1])):
                        w = "assignment does not transfer the thread and empty the source"
                    elif len(all_) != n or n and not (len(J) == 1 and z.eq0(J[0][1] - v[0])):
                        w = "the thread previously held is not joined exactly once"
                elif name in ("thread_join", "thread_detach"):
                    E = J if name == "thread_join" else D
                    if len(all_) != 1 or len(E) != 1 or not z.eq0(E[0][1] - v[0]):
                        w = "expected exactly one %s of the thread, found %s" % (name[7:], all_)
                    elif not z.eq0(got[0]):
                        w = "the handle still names the thread afterwards"
                elif name == "thread_id":
                    w = None if not all_ and z.eq0(o[2] - P(term("sysid", v[0]))) and z.eq0(got[0] - v[0]) else "not the identity of the thread"
                r.verdict(z, w)


def starting(ctx, mod, mk, ft):
    r = Run(ctx, mod, mk, "thread_start", "h_thread_start")
    if r.fn is None:
        return
    st = State()
    out, st = r.obj(st, 0)
    j, st = r.obj(st, 1)
    for k, d in expected(24, j, [Seg(1, "o", j, 0)]).items():
        st.meas[k] = d
    n = 0
    for o in r.paths(st):
        z = o[1]
        if o[0] == "die":
            r.bad(z, "terminates the program")
            continue
        S = ops(z, "start")
        got = z.norm(r.eng.load(z, P(out) + ft, 8, "i64"))
        if len(S) != 1 or ops(z, "run"):
            r.bad(z, "the thread is not started exactly once")
            continue
        _, f, data, tid = S[0]
        if not z.eq0(got - tid):
            r.bad(z, "the handle does not name the started thread")
            continue
        if f is None or f not in mod.fns or mod.fns[f].blocks is None:
            ctx.undecided(r.name, "thread entry not resolved")
            continue
        ctx.ok(r.name, "started once")
        n += 1
        body(ctx, r, mod, z, f, data, lambda y, runs: "the closure is run %d times" % len(runs) if len(runs) != 1 else
             None if runs[0][3] == ("o", j) else "another closure than the given one is run", j)
    ctx.floor("thread entries followed", n, 1)


def body(ctx, r, mod, st, f, data, chk, j, skip=(), pre=None):
    """run the started thread's entry on the state that started it: everything handed over is used once and released"""
    s = st.copy()
    s.env = {0: data}
    mark = len(ops(s))
    eng0 = r.fn
    r2 = Run.__new__(Run)
    r2.__dict__.update(r.__dict__)
    r2.name = r.name + ".entry"
    for o in r2.paths(s, mod.fns[f]):
        z = o[1]
        if o[0] == "die":
            r2.bad(z, "the new thread terminates the program")
            continue
        runs = [x for x in ops(z)[mark:] if x[0] == "run"]
        w = chk(z, runs) or live_left(r2, z, skip)
        if not w:
            # nothing live remains outside the caller's own objects
            for k in list(z.meas):
                if k[0] == "c" and k[2] == "L" and r.model.keys(z, split_addr(z.norm(k[1]))[0]) and not r.model.surely_zero(z, z.meas[k]):
                    b = split_addr(z.norm(k[1]))[0]
                    if b not in skip:
                        w = "an object of the closure is never destroyed"
        r2.verdict(z, w)


def promises(ctx, mod, mk, fflag, fval):
    for name in ("promise_fill", "promise_block", "promise_ready", "vpromise_fill", "vpromise_block", "vpromise_ready"):
        r = Run(ctx, mod, mk, name, "h_" + name)
        if r.fn is None:
            continue
        st = State()
        void = name.startswith("v")
        pi = 1 if name == "promise_block" else 0
        a, st = r.obj(st, 0)
        bs = [a]
        if name in ("promise_fill", "promise_block"):
            b, st = r.obj(st, 1)
            bs.append(b)
        p = bs[pi]
        if not void:
            for k, d in expected(24, p, [Seg(1, "o", p, fval)], fval).items():
                st.meas[k] = d
        if name == "promise_fill":
            for k, d in expected(24, bs[1], [Seg(1, "o", bs[1], 0)]).items():
                st.meas[k] = d
        for o in r.paths(st):
            z = o[1]
            if o[0] == "die":
                r.bad(z, "terminates the program")
                continue
            O = ops(z)
            w = None
            fl = P(p) + (0 if void else fflag)
            kind = name.split("_")[1]
            if kind == "fill":
                sg = [n for n, x in enumerate(O) if x[0] == "signal" and z.eq0(x[1] - fl)]
                if len(sg) != 1:
                    w = "the flag is signalled %d times" % len(sg)
                elif not void:
                    if any(x[0] in ("massign", "move") and split_addr(x[1])[0] is p for x in O[sg[0]:]):
                        w = "the value is stored after the waiters were released"
                    else:
                        h = [k for k, v in r.model.holds(z, p, P(fval))]
                        if [r.model.tag_at(k, P(fval))[:2] for k in h] != [("o", bs[1])]:
                            w = "the promise does not hold the given value"
            elif kind == "block":
                bl = [n for n, x in enumerate(O) if x[0] == "block" and z.eq0(x[1] - fl)]
                known_set = z.decide(c_ne(P(term("isset", z.norm(fl), nn=True, ub=1)))) is True
                if not bl and not known_set:
                    w = "the flag is not waited for"
                elif not bl:
                    bl = [0]
                if w:
                    pass
                elif not void:
                    if any(x[0] in ("massign", "move") and split_addr(x[-1])[0] is p for x in O[:bl[0]]):
                        w = "the value is taken before the promise is known to be filled"
                    else:
                        h = [k for k, v in r.model.holds(z, bs[0], ZERO)]
                        if [r.model.tag_at(k, ZERO)[:2] for k in h] != [("o", p)]:
                            w = "does not return the promised value"
            else:
                v = o[2] if is_cond(o[2]) else c_ne(o[2])
                want = c_ne(P(term("isset", z.norm(fl), nn=True, ub=1)))
                if any(y.decide(v) is not x for x, c in ((True, want), (False, c_not(want))) for y in z.assume(c)):
                    w = "result does not tell whether the flag is set"
            r.verdict(z, w)


def spawns(ctx, mod, mk, frefs, fv, fflag, fval):
    n = 0
    for name in ("spawn", "spawn_void"):
        void = name == "spawn_void"
        r = Run(ctx, mod, mk, name, "h_" + name)
        if r.fn is None:
            continue
        st = State()
        out, st = r.obj(st, 0)
        f, st = r.obj(st, 1)
        x = P(fresh("x", nn=True))
        st.env[2] = x
        for k, d in expected(24, f, [Seg(1, "o", f, 0)]).items():
            st.meas[k] = d
        for o in r.paths(st):
            z = o[1]
            if o[0] == "die":
                r.bad(z, "terminates the program")
                continue
            S = ops(z, "start")
            if len(S) != 1 or ops(z, "run"):
                r.bad(z, "the thread is not started exactly once")
                continue
            _, e, data, tid = S[0]
            D = ops(z, "detach", "join")
            if len(D) != 1 or D[0][0] != "detach" or not z.eq0(D[0][1] - tid):
                r.bad(z, "the new thread is not detached exactly once")
                continue
            fut = z.norm(r.eng.load(z, P(out), 8, "ptr"))
            blk = split_addr(fut)[0]
            if blk is None or z.ts.get(("buf", blk)) != "live":
                r.bad(z, "the returned future does not own a live promise")
                continue
            r.model.in_atomic = True
            c = z.norm(r.eng.load(z, P(blk) + frefs, 8, "i64"))
            r.model.in_atomic = False
            if not z.eq0(c - 2):
                r.bad(z, "the promise counts %r owners; the caller and the new thread hold one each" % (c,))
                continue
            if e is None or e not in mod.fns or mod.fns[e].blocks is None:
                ctx.undecided(r.name, "thread entry not resolved")
                continue
            ctx.ok(r.name, "started, detached, future shared")
            n += 1
            z = z.copy()
            z.ts[("ext", blk)] = P(1)
            mark = len(ops(z))
            fl = P(blk) + fv + (0 if void else fflag)

            def chk(y, runs, mark=mark, blk=blk, fl=fl):
                O = ops(y)[mark:]
                if len(runs) != 1:
                    return "the function is run %d times" % len(runs)
                if runs[0][3] != ("o", f):
                    return "another function object than the given one is run"
                if not y.eq0(runs[0][2] - x):
                    return "the function is run with argument %r, given %r" % (runs[0][2], x)
                k = O.index(runs[0])
                sg = [i for i, q in enumerate(O) if q[0] == "signal" and y.eq0(q[1] - fl)]
                if len(sg) != 1:
                    return "the future is completed %d times" % len(sg)
                if sg[0] < k:
                    return "the future is completed before the function ran"
                if not void:
                    if any(q[0] in ("massign", "move") and split_addr(q[1])[0] is blk for q in O[sg[0]:]):
                        return "the result is stored after the future was completed"
                    h = [q for q, v in r.model.holds(y, blk, P(fv + fval))]
                    if [r.model.tag_at(q, ZERO)[0] for q in h] != [("result", P(0))]:
                        return "the future does not hold the function's result"
                if y.ts.get(("buf", blk)) == "freed":
                    return "the thread frees the promise although the caller still holds the future"
                r.model.in_atomic = True
                y.ts[("buf", blk)] = "live"
                c = y.norm(r.eng.load(y, P(blk) + frefs, 8, "i64"))
                r.model.in_atomic = False
                if not y.eq0(c - 1):
                    return "the thread leaves %r owners instead of the caller's one" % (c,)
            body(ctx, r, mod, z, e, data, chk, f, skip=(blk, out))
    ctx.floor("spawned entries followed", n, 2)


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("Abstract interpretation of thread handles, promises and spawn: the started entry function is followed on the very state that "
                       "started it, so the closure's ownership, the number of calls, the order of storing and signalling and the counts are decided end to end.")
    ctx.assumptions = ["the primitives of C16 meet their contracts", "an allocator returns a fresh block"]
    mod = harness("spawn", opaque=OPQ, roots="^h_|6invoke")
    L = layouts(VERIF + "/harness/spawn.cpp")
    ft = fld(L["L_th"], "thread", 0)
    fflag, fval = fld(L["L_p"], "value_", 0), L["L_p"]["p.value"][0] if "p.value" in L["L_p"] else None
    if fval is None:
        fval = [v[0] for k, v in L["L_p"].items() if "Tok" in v[1]][0]
    frefs = fld(L["L_fd"], "value_", 0)
    fv = [v[0] for k, v in L["L_fd"].items() if "Storage<" in v[1]][0]
    mk = lambda: ThreadModel(frefs)
    handles(ctx, mod, mk, ft)
    starting(ctx, mod, mk, ft)
    promises(ctx, mod, mk, fflag, fval)
    spawns(ctx, mod, mk, frefs, fv, fflag, fval)
    ctx.floor("obligations", len(ctx.obs), 25)
