"""The log: what is printed, who is called back, under which lock; indentation; the macros that end the program."""
import itertools
from mini import *

BASE = [x for x in OPAQUE if not x.startswith(("rpp::Log::", "rpp::Region_Alloc"))] + ["rpp::Region_Allocator::(begin|end|alloc|free|depth|size)\\("]
FULL = BASE + ["rpp::Log::Location::operator==", "rpp::Log::log<", "rpp::Log::debug_break"]
MACRO = FULL + ["rpp::Log::output"]
INNER = BASE + ["rpp::Log::output", "^(rpp::String<.*> )?rpp::format<", "rpp::Mregion<.*>::(alloc|free)", "^rpp::String<.*>::~String"]
FN = "rpp::detail::Function<4ul, void ()>"
LEVELS = ["info", "warn", "fatal"]


class Setup:
    def __init__(self, ctx):
        x = ["-fno-access-control"]
        self.mod = harness("log", default_opaque=False, extra=x, opaque=FULL)
        self.macro = harness("log", default_opaque=False, extra=x, opaque=MACRO)
        self.inner = harness("log", default_opaque=False, extra=x, opaque=INNER)
        src = os.path.join(VERIF, "harness", "log.cpp")
        L = layouts(src, names=r".*", extra=x)
        self.sizes = {k: v["#size"][0] for k, v in L.items() if "#size" in v}
        fl = layouts(src, extra=x)
        f = lambda s: {k[2:]: v for k, v in fl[s].items() if k.count(".") == 1}
        D = f("L_data")
        one = lambda pred, what: self.only([v[0] for k, v in D.items() if pred(v[1])], what)
        self.o_map = one(lambda t: "Map<" in t, "the callbacks")
        self.o_lock = one(lambda t: t.endswith("Mutex"), "the lock")
        self.o_file = one(lambda t: "FILE" in t, "the file")
        self.o_next = one(lambda t: t in ("u64", "Token", "rpp::Log::Token", "unsigned long"), "the next token")
        self.runs = self.insts = 0

    only = staticmethod(lambda c, what: c[0] if len(c) == 1 else (_ for _ in ()).throw(AnalysisError("cannot tell %s apart" % what)))


def guard(m, o, off, mode):
    S, d = m.S, m.data
    if o == d[1] and off - d[2] in (S.o_map, S.o_file, S.o_next) or o in {c.store for k, c in m.conts.items() if k == (d[1], d[2] + S.o_map)}:
        if "log" not in m.held:
            raise Bad("lock", "%s the log's shared data without holding its lock" % {"r": "reads", "w": "changes", "c": "uses"}[mode])


def machine(S, w, mod):
    m = Mini(mod, w, S.sizes)
    m.S = S
    m.data = m.run(mod.fns["h_data"], [])
    m.ind = m.run(mod.fns["h_indent"], [])
    m.lk[(m.data[1], m.data[2] + S.o_lock)] = "log"
    m.mem["@stdout"] = {0: (8, ("p", "FILE-stdout", 0))}
    m.guards = guard
    A = m.A
    ev = m.ev
    m.ev_print = []

    def pr(mm, a, i, file=("p", "FILE-stdout", 0)):
        mm.ev.append(("print", file, render(mm, a), tuple(mm.held)))
        return 1
    m.calls.update({
        "printf": pr, "fprintf": lambda mm, a, i: pr(mm, a[1:], i, a[0]),
        "fflush": lambda mm, a, i: (mm.ev.append(("flush", a[0], tuple(mm.held))), 0)[1],
        "time": clock, "localtime_r": local, "strftime": fmt_time,
        "next": lambda mm, a, i: (mm.ev.append(("next", a[0])), mm.answer(a[0]))[1],
        "body": lambda mm, a, i: mm.ev.append(("body", a[0], mm.mem[mm.ind[1]].get(mm.ind[2], (8, None))[1], tuple(mm.held))),
        "fopen": lambda mm, a, i: (mm.ev.append(("open", mm.text(a[0]), mm.text(a[1]))), ("p", "FILE-new", 0))[1],
        "fclose": lambda mm, a, i: (mm.ev.append(("close", a[0])), 0)[1],
        "raise": lambda mm, a, i: (mm.ev.append(("raise", a[0])), 0)[1],
        "__errno_location": lambda mm, a, i: ("p", "errno", 0),
        "strerror_r": lambda mm, a, i: (mm.ev.append(("strerror", a[0], a[2])), ("p", "errtext", 0))[1],
    })
    m.mem["errno"] = {0: (4, 77)}
    m.mem["errtext"] = {0: (8, int.from_bytes(b"no file\0", "little"))}
    return m


def clock(m, a, i):
    m.nclock += 1
    t = m.A.atom("clock%d" % m.nclock)
    m.ev.append(("clock", t))
    return t


def local(m, a, i):
    t = m.get(a[0][1], a[0][2], 8)
    m.mem[a[1][1]][a[1][2]] = (4, ("tm", str(t)))
    m.ev.append(("localtime", t))
    return a[1]


def fmt_time(m, a, i):
    buf, size, f, tm = a
    if m.text(f) != "[%H:%M:%S]" or not isinstance(size, int):
        raise AnalysisError("a time format of another length at %s" % where(i))
    got = m.mem[tm[1]].get(tm[2], (4, None))[1]
    m.mem[buf[1]][buf[2]] = (8, ("time-text", got[1] if got else None))
    m.ev.append(("strftime", buf, size, got))
    return 10 if size > 10 else 0


def render(m, a):
    """a printf call as a list of pieces"""
    f = m.text(a[0])
    args = list(a[1:])
    out, k = [], 0
    for t in re.finditer(r"%(\*)?(\.\*)?(z|l|ll)?([su%dc])|[^%]+|%", f):
        s = t.group(0)
        if not s.startswith("%"):
            out.append(("lit", s))
            continue
        if t.group(4) == "%":
            out.append(("lit", "%"))
            continue
        if t.group(4) is None:
            raise AnalysisError("the conversion %s" % s)
        need = 1 + bool(t.group(1)) + bool(t.group(2))
        if len(args) < need:
            raise Bad("format", "the format string takes more arguments than it is given")
        w = args.pop(0) if t.group(1) else None
        p = args.pop(0) if t.group(2) else None
        v = args.pop(0)
        if t.group(4) == "s":
            if not (isinstance(v, tuple) and v[0] == "p"):
                raise Bad("format", "prints %s as a text" % (v,))
            if p is not None:
                if isinstance(p, tuple):
                    raise Bad("format", "uses a pointer as a length")
                out.append(("view", v, p))
                if w is not None:
                    out.append(("pad", w))
            else:
                s = m.text(v)
                if not s and not m.mem.get(v[1]):
                    raise Bad("format", "prints a text that has no end")
                if w is not None:
                    if s:
                        raise AnalysisError("a padded text")
                    out.append(("pad", w))
                else:
                    out.append(("text", s))
        else:
            if t.group(3) != "z" and t.group(3) not in ("l", "ll"):
                raise AnalysisError("a number printed as %s" % s)
            if isinstance(v, tuple) and v[1] != "thread-id":
                raise Bad("format", "prints a pointer as a number")
            out.append(("num", v))
    if args:
        raise Bad("format", "the format string leaves %d arguments unused" % len(args))
    return out


class Case:
    def __init__(self, ctx, S, name, what):
        self.ctx, self.S, self.name, self.what = ctx, S, name, what
        self.bad, self.unsure, self.n = [], [], 0

    def go(self, mod, fn, prep, post, label, args=lambda m: []):
        A = Alg()

        def body(w):
            m = machine(self.S, w, mod)
            m.answer = lambda k: int(w.choose(2))
            st = prep(m) if prep else None
            m.setup = False
            self.n += 1
            self.S.runs += 1
            try:
                m.ret = m.run(mod.fns[fn], args(m))
                m.setup = True
                self.S.insts += m.insts
                msgs = list(post(m, st))
                if m.held and m.trap is None:
                    msgs.append("keeps the %s lock" % m.held[0])
                self.bad += ["%s: %s" % (label, x) for x in msgs]
            except Bad as e:
                self.bad.append("%s: %s" % (label, e.msg))
            except AnalysisError as e:
                self.unsure.append("%s: %s" % (label, e))
        explore(A, body)

    def done(self):
        if self.bad:
            b = list(dict.fromkeys(self.bad))
            self.ctx.bad(self.name, self.name, "%s\n  %s%s" % (self.what, "\n  ".join(b[:6]), "\n  and %d more" % (len(b) - 6) if len(b) > 6 else ""))
        elif self.unsure:
            self.ctx.undecided(self.name, self.unsure[0])
        elif not self.n:
            self.ctx.undecided(self.name, "nothing was analysed")
        else:
            self.ctx.ok(self.name, "%d situations" % self.n)


def put_loc(m, o, tag):
    m.mem[o] = {}
    for k, v in ((0, ("p", "s:fn" + tag, 0)), (8, 7), (16, ("p", "s:file" + tag, 0)), (24, 9), (32, m.A.atom("line" + tag))):
        m.mem[o][k] = (8, v)


def put_callbacks(m, n, first=1):
    S, d = m.S, m.data
    vo, es = m.pairinfo("unsigned long", FN)[4:]
    c = m.cont(("p", d[1], d[2] + S.o_map), "Map", es)
    for j in range(n):
        m.mem[c.store][j * c.es] = (8, first + j)
        m.mem[c.store][j * c.es + vo] = (8, "cb%d" % j)
        c.keys.append((first + j,))
    c.n = n
    return c


def eq(m, x, y):
    if isinstance(x, Rat) or isinstance(y, Rat):
        if isinstance(x, tuple) or isinstance(y, tuple) or x is None or y is None:
            return False
        f = lambda v: v if isinstance(v, Rat) else m.A.const(v)
        return not f(x).diff(f(y))
    return x == y


def check_output(ctx, S):
    c = Case(ctx, S, "output", "a message is printed once with its time, level, thread, place, indentation and text, passed once to every callback and written once to the file if there is one, all under the log's lock")
    for lv in range(3):
        for ncb in range(3):
            for file in (0, 1):
                for ind in (0, 1, 5):
                    def prep(m, ncb=ncb, file=file, ind=ind):
                        put_loc(m, "loc", "A")
                        put_callbacks(m, ncb)
                        m.mem[m.data[1]][m.data[2] + S.o_file] = (8, ("p", "FILE-log", 0) if file else 0)
                        m.mem[m.data[1]][m.data[2] + S.o_next] = (8, 9)
                        m.mem[m.ind[1]][m.ind[2]] = (8, ind)
                        m.mem["msg"] = {}
                        m.w.assume(m.A.atom("len"), {0, 1})

                    def post(m, st, lv=lv, ncb=ncb, file=file, ind=ind):
                        out = []
                        if m.trap is not None:
                            return ["stops the program"]
                        prints = [e for e in m.ev if e[0] == "print"]
                        want = [("p", "FILE-stdout", 0)] + ([("p", "FILE-log", 0)] if file else [])
                        if sorted(e[1][1] for e in prints) != sorted(x[1] for x in want):
                            out.append("prints to %s" % [e[1][1] if isinstance(e[1], tuple) else e[1] for e in prints])
                        clocks = [e[1] for e in m.ev if e[0] == "localtime"]
                        for e in prints:
                            if "log" not in e[3]:
                                out.append("prints without holding the lock")
                            P = e[2]
                            texts = [x for x in P if x[0] == "text"]
                            nums = [x[1] for x in P if x[0] == "num"]
                            views = [x for x in P if x[0] == "view"]
                            pads = [x[1] for x in P if x[0] == "pad"]
                            lits = "".join(x[1] for x in P if x[0] in ("lit", "text"))
                            if LEVELS[lv] not in [x[1] for x in texts] and LEVELS[lv] not in lits or any(q in lits for q in LEVELS if q != LEVELS[lv]):
                                out.append("does not print the level %s" % LEVELS[lv])
                            if sum(1 for x in nums if x == ("p", "thread-id", 0)) != 1 or sum(1 for x in nums if eq(m, x, m.A.atom("lineA"))) != 1 or len(nums) != 2:
                                out.append("does not print thread and line once each")
                            if pads != [ind * 4] and not (ind == 0 and not pads):
                                out.append("indents by %s instead of %d" % (pads, ind * 4))
                            msgv = [x for x in views if x[1] == ("p", "msg", 0) and eq(m, x[2], m.A.atom("len"))]
                            filev = [x for x in views if x[1] == ("p", "s:fileA", 0) and x[2] == 9]
                            timev = [x for x in views if isinstance(m.mem.get(x[1][1], {}).get(x[1][2], (8, None))[1], tuple) and m.mem[x[1][1]][x[1][2]][1][0] == "time-text" and x[2] == 10]
                            if len(msgv) != 1 or len(filev) != 1 or len(timev) != 1 or len(views) != 3:
                                out.append("does not print time, file and text once each")
                            elif P.index(msgv[0]) != max(P.index(x) for x in P if x[0] in ("view", "num", "text", "pad")):
                                out.append("prints more after the text")
                            tail = "".join(x[1] for x in P if x[0] == "lit")
                            if not tail.endswith("\n") or tail.count("\n") != 1:
                                out.append("does not print one line")
                        if len(prints) == 2 and prints[0][2] != prints[1][2]:
                            out.append("prints another line to the file")
                        for e in prints:
                            k = m.ev.index(e)
                            if not any(f[0] == "flush" and (f[1] == e[1] or f[1] == 0) for f in m.ev[k:]):
                                out.append("does not flush %s" % e[1][1])
                        calls = [e for e in m.ev if e[0] == "call"]
                        if sorted(e[1] for e in calls) != ["cb%d" % j for j in range(ncb)]:
                            out.append("calls the callbacks %s" % [e[1] for e in calls])
                        for e in calls:
                            if "log" not in e[2]:
                                out.append("calls a callback without holding the lock")
                            a, snap = e[3], e[4]
                            flat = []
                            for x, s in zip(a, snap):
                                flat += [s.get(k) for k in (0, 8, 16, 24, 32)] if s and len(s) >= 5 else [s.get(0), s.get(8)] if s and len(s) == 2 else [x]
                            want = [lv, ("p", "thread-id", 0), clocks[0] if clocks else None, ("p", "s:fnA", 0), 7, ("p", "s:fileA", 0), 9, m.A.atom("lineA"), ("p", "msg", 0), m.A.atom("len")]
                            if len(flat) != len(want) or not all(eq(m, x, y) for x, y in zip(flat, want)):
                                out.append("passes a callback %s" % (flat,))
                        if len(clocks) != 1:
                            out.append("computes %d times" % len(clocks))
                        if not any(e[0] == "clock" and clocks and eq(m, e[1], clocks[0]) for e in m.ev):
                            out.append("the time is not the current time")
                        return out
                    c.go(S.mod, "h_output", prep, post, "%s, %d callbacks, %s, indentation %d" % (LEVELS[lv], ncb, "a file" if file else "no file", ind),
                         lambda m, lv=lv: [lv, ("p", "loc", 0), ("p", "msg", 0), m.A.atom("len")])
    c.done()


def callbacks(m):
    c = m.conts.get((m.data[1], m.data[2] + m.S.o_map))
    vo = m.pairinfo("unsigned long", FN)[4]
    return {c.keys[j][0]: m.mem[c.store].get(j * c.es + vo, (8, None))[1] for j in range(c.n)} if c else {}


def check_subscribe(ctx, S):
    c = Case(ctx, S, "subscribe", "subscribing adds the callback under a token never used before and keeps the others")
    for n in range(4):
        for gap in (0, 3):
            def prep(m, n=n, gap=gap):
                put_callbacks(m, n)
                m.mem[m.data[1]][m.data[2] + S.o_next] = (8, 1 + n + gap)
                m.mem["fn"] = {0: (8, "new")}

            def post(m, st, n=n, gap=gap):
                t = 1 + n + gap
                nx = m.mem[m.data[1]][m.data[2] + S.o_next][1]
                want = {1 + j: "cb%d" % j for j in range(n)}
                got = callbacks(m)
                tok = m.ret
                out = []
                if not isinstance(tok, int) or tok in range(1, t) or not tok:
                    out.append("returns the token %s, which was given out before" % tok)
                want[tok] = "new"
                if got != want:
                    out.append("the callbacks are %s" % got)
                if not isinstance(nx, int) or nx <= tok or nx < t:
                    out.append("the next token is %s" % nx)
                return out
            c.go(S.mod, "h_subscribe", prep, post, "%d callbacks, %d tokens given back" % (n, gap), lambda m: [("p", "fn", 0)])
    c.done()
    c = Case(ctx, S, "unsubscribe", "unsubscribing removes that callback alone; with the last one the table gives its memory back")
    for n in range(1, 4):
        for k in range(n):
            def prep(m, n=n):
                put_callbacks(m, n)
                m.mem[m.data[1]][m.data[2] + S.o_next] = (8, n + 4)

            def post(m, st, n=n, k=k):
                out = []
                want = {1 + j: "cb%d" % j for j in range(n) if j != k}
                if callbacks(m) != want:
                    out.append("the callbacks are %s" % callbacks(m))
                if m.mem[m.data[1]][m.data[2] + S.o_next][1] != n + 4:
                    out.append("changes the next token")
                drops = [e for e in m.ev if e[0] in ("drop", "assign") and e[1] == (m.data[1], m.data[2] + S.o_map)]
                if n == 1 and not drops:
                    out.append("keeps the table's memory")
                if n > 1 and drops:
                    out.append("drops the table")
                return out
            c.go(S.mod, "h_unsubscribe", prep, post, "callback %d of %d" % (k + 1, n), lambda m, k=k: [1 + k])
    c.done()


def check_static(ctx, S):
    c = Case(ctx, S, "lifetime", "the log starts with token 1, no callbacks and the file debug.log opened for writing; it closes the file it has")

    def post(m, st):
        out = []
        if m.mem["d"].get(S.o_next, (8, None))[1] != 1:
            out.append("the first token is %s" % (m.mem["d"].get(S.o_next, (8, None))[1],))
        if [e for e in m.ev if e[0] == "open"] != [("open", "debug.log", "w")]:
            out.append("opens %s" % [e[1:] for e in m.ev if e[0] == "open"])
        if m.mem["d"].get(S.o_file, (8, None))[1] != ("p", "FILE-new", 0):
            out.append("does not keep the file")
        return out

    def prep(m):
        m.mem["d"] = {}
    c.go(S.mod, "h_init", prep, post, "start", lambda m: [("p", "d", 0)])
    for file in (0, 1):
        def prep(m, file=file):
            m.mem["d"] = {S.o_file: (8, ("p", "FILE-log", 0) if file else 0), S.o_next: (8, 4)}
            m.cont(("p", "d", S.o_map), "Map", m.pairinfo("unsigned long", FN)[5])
        c.go(S.mod, "h_drop", prep, lambda m, st, file=file: [] if [e[1] for e in m.ev if e[0] == "close"] == [("p", "FILE-log", 0)] * file else ["closes %s" % [e[1] for e in m.ev if e[0] == "close"]],
             "end, %s" % ("a file" if file else "no file"), lambda m: [("p", "d", 0)])
    c.done()


def check_scope(ctx, S):
    c = Case(ctx, S, "indent", "the body of an indented block runs once, one level deeper, and the level is restored however the block is left")
    bodies = {
        "h_scope": lambda a: [(1, 1), (2, 0)],
        "h_scope_return": lambda a: [(1, 1)] if a[0] else [(1, 1), (2, 1), (3, 0)],
        "h_scope_loop": None,
    }

    def loop(a):
        a, out = list(a), []
        for _ in range(2):
            out.append((1, 1))
            if a.pop(0):
                continue
            if a.pop(0):
                break
            out.append((2, 1))
        return out + [(3, 0)]
    bodies["h_scope_loop"] = loop
    for fn, f in bodies.items():
        for start in (0, 1, 7):
            def prep(m, start=start):
                m.mem[m.ind[1]][m.ind[2]] = (8, start)
                m.said = []
                ch = m.answer
                m.answer = lambda k: (m.said.append(ch(k)), m.said[-1])[1]

            def post(m, st, f=f, start=start):
                if m.trap is not None:
                    return ["stops the program"]
                got = [(e[1], e[2]) for e in m.ev if e[0] == "body"]
                want = [(k, start + d) for k, d in f(m.said)]
                out = [] if got == want else ["runs (body, level) %s instead of %s" % (got, want)]
                if m.mem[m.ind[1]][m.ind[2]][1] != start:
                    out.append("leaves level %s instead of %d" % (m.mem[m.ind[1]][m.ind[2]][1], start))
                return out
            c.go(S.mod, fn, prep, post, "%s from level %d" % (fn[2:], start))
    c.done()


def check_macros(ctx, S):
    c = Case(ctx, S, "macros", "an assertion evaluates its expression once and does nothing when it holds; failing, like die and unreachable code, it logs one fatal message, breaks and ends the program with status 1, in that order")
    LV = {"h_info": 0, "h_warn": 1}
    text = {"h_assert": "Assert: %", "h_assert_if": "Assert: %", "h_die": "at %", "h_unreachable": "Unreachable", "h_info": "at %", "h_warn": "at %"}
    src = open(os.path.join(VERIF, "harness", "log.cpp")).read().splitlines()
    line = {fn: next(k + 1 for k, l in enumerate(src) if " %s(" % fn in l) for fn in text}
    for fn in text:
        def prep(m):
            m.mem["x"] = {0: (8, m.A.atom("x"))}
            m.mem[m.ind[1]][m.ind[2]] = (8, 0)
            m.said = []
            ch = m.answer
            m.answer = lambda k: (m.said.append(ch(k)), m.said[-1])[1]

        def post(m, st, fn=fn):
            s = m.said
            fatal = ["log", "break", "exit"]
            b = lambda k: "body%d" % k
            n = lambda k: "next%d" % k
            if fn == "h_assert":
                want = [n(1)] + ([b(1)] if s[0] else fatal)
            elif fn == "h_assert_if":
                want = [n(1)] + ([n(2)] + ([b(2)] if s[1] else fatal) if s[0] else [b(1), b(2)])
            elif fn in ("h_die", "h_unreachable"):
                want = [n(1)] + (fatal if s[0] else [b(1)])
            else:
                want = [n(1)] + (["log", b(2)] if s[0] else [b(1), b(2)])
            got = [e[0] + (str(e[1]) if e[0] in ("body", "next") else "") for e in m.ev if e[0] in ("log", "break", "exit", "body", "next")]
            out = [] if got == want else ["does %s instead of %s" % (got, want)]
            for e in m.ev:
                if e[0] == "exit" and e[1] != 1:
                    out.append("exits with %s" % e[1])
                if e[0] == "log":
                    if e[1] != LV.get(fn, 2):
                        out.append("logs at level %s" % e[1])
                    a = e[3]
                    loc = m.mem.get(a[1][1], {})
                    if loc.get(a[1][2] + 32, (8, None))[1] != line[fn]:
                        out.append("logs line %s instead of %d" % (loc.get(a[1][2] + 32, (8, None))[1], line[fn]))
                    fp, fl = loc.get(a[1][2] + 16, (8, None))[1], loc.get(a[1][2] + 24, (8, None))[1]
                    if not (isinstance(fp, tuple) and isinstance(fl, int) and m.text(fp, fl) == "log.cpp"):
                        out.append("logs another file")
                    np, nl = loc.get(a[1][2], (8, None))[1], loc.get(a[1][2] + 8, (8, None))[1]
                    if not (isinstance(np, tuple) and isinstance(nl, int) and fn in m.text(np, nl)):
                        out.append("logs another function")
                    if not (isinstance(a[3], int) and m.text(a[2], a[3]) == text[fn]):
                        out.append("logs the text %s" % m.text(a[2]))
                    if text[fn].startswith("Assert"):
                        v = m.mem.get(a[4][1], {}) if len(a) > 4 else {}
                        q, k = (v.get(a[4][2], (8, None))[1], v.get(a[4][2] + 8, (8, None))[1]) if v else (None, None)
                        if not (isinstance(q, tuple) and isinstance(k, int) and m.text(q, k) == "next(%d)" % (1 if fn == "h_assert" else 2)):
                            out.append("does not log the expression")
                    if "%" in text[fn] and not text[fn].startswith("Assert"):
                        if len(a) != 5 or a[4] != ("p", "x", 0) and not eq(m, m.mem.get(a[4][1], {}).get(a[4][2], (8, None))[1], m.A.atom("x")):
                            out.append("does not log the argument")
            return out
        c.go(S.macro, fn, prep, post, fn[2:], lambda m, fn=fn: [("p", "x", 0)] if fn in ("h_die", "h_info", "h_warn") else [])
    c.done()


def check_log(ctx, S):
    c = Case(ctx, S, "format", "logging formats the message with the arguments given, in memory of its own that is released afterwards, and outputs it once with level and place")
    for fn in ("h_log", "h_log0"):
        for lv in range(3):
            def prep(m):
                put_loc(m, "loc", "A")
                m.mem["f"] = {0: (8, ("p", "ftext", 0)), 8: (8, m.A.atom("flen"))}
                m.mem["x"] = {0: (8, m.A.atom("x"))}

                def fmt(a, i, d):
                    m.ev.append(("format", a[1:], i))
                    m.mem[a[0][1]].update({a[0][2]: (8, ("p", "formatted", 0)), a[0][2] + 8: (8, m.A.atom("n")), a[0][2] + 16: (8, m.A.atom("cap"))})

                def reg(a, i, d):
                    m.ev.append((short(d).split("::")[-1], list(a)))
                m.handlers = [(r"rpp::format<", fmt), (r"rpp::Region_Allocator::", reg), (r"rpp::Log::output\(", lambda a, i, d: m.ev.append(("output", list(a)))),
                              (r"::~String\(", lambda a, i, d: m.ev.append(("free", m.mem[a[0][1]].get(a[0][2], (8, None))[1]))),
                              (r"rpp::Mregion<.*>::free", lambda a, i, d: m.ev.append(("free", a[0])))] + m.handlers

            def post(m, st, fn=fn, lv=lv):
                names = [e[0] for e in m.ev]
                out = []
                o = [e for e in m.ev if e[0] == "output"]
                f = [e for e in m.ev if e[0] == "format"]
                if len(f) != 1 or len(o) != 1:
                    return ["formats %d times and outputs %d times" % (len(f), len(o))]
                a = f[0][1]
                if a[0] != ("p", "ftext", 0) or not eq(m, a[1], m.A.atom("flen")):
                    out.append("formats another text")
                if fn == "h_log" and (len(a) != 3 or not (a[2] == ("p", "x", 0) or eq(m, m.mem.get(a[2][1], {}).get(a[2][2], (8, None))[1], m.A.atom("x")))) or fn == "h_log0" and len(a) != 2:
                    out.append("formats other arguments")
                a = o[0][1]
                if a[0] != lv or [m.mem.get(a[1][1], {}).get(a[1][2] + k, (8, None))[1] for k in (0, 8, 16, 24)] != [("p", "s:fnA", 0), 7, ("p", "s:fileA", 0), 9]:
                    out.append("outputs another level or place")
                if a[2] != ("p", "formatted", 0) or not eq(m, a[3], m.A.atom("n")):
                    out.append("does not output the formatted text")
                if "begin" not in names or "end" not in names or names.count("begin") != names.count("end"):
                    out.append("does not open and close a region")
                elif not names.index("begin") < names.index("format") < names.index("output") < len(names) - 1 - names[::-1].index("end"):
                    out.append("the region does not cover the message: %s" % names)
                elif "free" in names[: names.index("output")]:
                    out.append("releases the text before it is output")
                return out
            c.go(S.inner, fn, prep, post, "%s, level %s" % (fn[2:], LEVELS[lv]), lambda m, fn=fn, lv=lv: [lv, ("p", "loc", 0), ("p", "f", 0)] + ([("p", "x", 0)] if fn == "h_log" else []))
    c.done()


def check_small(ctx, S):
    c = Case(ctx, S, "helpers", "the system error is the text of errno, the time the system's, a time string the local time of its argument, and two places are the same when function, file and line are")

    def prep(m):
        m.mem["o"] = {}

    def post(m, st):
        st = [e for e in m.ev if e[0] == "strerror"]
        o = m.mem["o"]
        return [] if len(st) == 1 and st[0][1] == 77 and st[0][2] <= 256 and o.get(0, (8, None))[1] == ("p", "errtext", 0) and o.get(8, (8, None))[1] == 7 else ["gives %s" % o]
    c.go(S.mod, "h_sys_error", prep, post, "sys_error", lambda m: [("p", "o", 0)])
    c.go(S.mod, "h_sys_time", None, lambda m, st: [] if eq(m, m.ret, m.A.atom("clock1")) else ["gives %s" % m.ret], "sys_time")

    def post(m, st):
        s = [e for e in m.ev if e[0] == "strftime"]
        o = m.mem["o"]
        ok = len(s) == 1 and s[0][3] == ("tm", str(m.A.atom("t"))) and o.get(0, (8, None))[1] == s[0][1] and o.get(8, (8, None))[1] == 10
        return [] if ok and m.trap is None else ["gives %s" % o]
    c.go(S.mod, "h_time_string", prep, post, "sys_time_string", lambda m: [m.A.atom("t"), ("p", "o", 0)])
    for df, dl, dn in itertools.product((0, 1), repeat=3):
        def prep(m, df=df, dl=dl, dn=dn):
            put_loc(m, "a", "A")
            put_loc(m, "b", "A")
            if df:
                m.mem["b"][0] = (8, ("p", "s:other", 0))
            if dl:
                m.mem["b"][16] = (8, ("p", "s:other", 0))
            for o in "ab":
                m.mem[o][32] = (8, 5 + (dn and o == "b"))
        c.go(S.inner, "h_same", prep, lambda m, st, d=(df, dl, dn): [] if m.ret == int(not any(d)) else ["places %s compare %s" % ("that differ" if any(d) else "that agree", m.ret)], "comparison", lambda m: [("p", "a", 0), ("p", "b", 0)])
    c.go(S.inner, "h_break", None, lambda m, st: [] if [e for e in m.ev if e[0] == "raise"] == [("raise", 5)] else ["raises %s" % [e[1] for e in m.ev if e[0] == "raise"]], "debug_break")
    c.done()


def check(ctx):
    ctx.level = "bounded"
    ctx.explanation = ("each operation of the log is followed over exact terms with containers, locks, libc and callbacks opaque; the calls it makes, their arguments, their order and the locks held "
                       "at each are compared with the specification")
    ctx.assumptions = ["the table of callbacks keeps the contract of C11 and the callables that of C07", "the C library prints what it is given"]
    S = Setup(ctx)
    check_output(ctx, S)
    check_subscribe(ctx, S)
    check_static(ctx, S)
    check_scope(ctx, S)
    check_macros(ctx, S)
    check_log(ctx, S)
    check_small(ctx, S)
    ctx.count("situations analysed", S.runs)
    ctx.count("instructions followed", S.insts)
