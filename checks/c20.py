"""Lock order and lock discipline of the whole library, over its call graph."""
import re
from build import *
from engine import AnalysisError

BLOCKING = {"pthread_join", "pthread_cond_wait", "pthread_cond_timedwait", "poll", "ppoll", "select", "nanosleep", "usleep", "sleep", "recv", "recvfrom", "accept", "waitpid", "sem_wait", "epoll_wait"}
USER = {"user_code"}


def plain(d):
    """a demangled name without template arguments, parameters and lambda numbers"""
    d = d.replace("operator()", "operator-call").replace("operator->", "operator-arrow").replace("operator<=>", "operator-cmp").replace("operator<<", "operator-shl").replace("operator<", "operator-less").replace("operator>", "operator-more")
    out, k = "", 0
    for ch in d:
        if ch == "<":
            k += 1
        elif ch == ">":
            k -= 1
        elif k == 0:
            if ch == "(" and "anonymous" not in d[:d.index("(") + 11]:
                break
            out += ch
    out = out.strip().split(" ")[-1]
    return re.sub(r"\$_?\d+", "lambda", out)


def where(i):
    l = i.get("loc")
    return "%s:%d" % (l[0][0].replace(REPO + "/", "").replace("/repo/", ""), l[0][1]) if l else "?"


class Fn:
    def __init__(self, A, f):
        self.A, self.f = A, f
        self.name = A.mod.dname(f.name)
        self.short = plain(self.name)
        self.defs = {i["id"]: i for i in f.insts() if "id" in i}
        self.nargs = len(f.args)
        self.acq = {}           # lock -> how it is reached
        self.user = {}          # "user code" reached without an intervening lock of its own
        self.block = {}
        self.susp = {}
        self.calls = []         # (callee, instruction, locks held)
        self.events = []        # (kind, what, instruction, locks held)
        self.end = []

    def lock_id(self, o):
        """which mutex does an operand name"""
        for _ in range(12):
            if o[0] == "g":
                g = self.A.mod.globals.get(o[1], {}).get("dem", o[1])
                return plain(g) + ("+%d" % o[2] if len(o) > 2 and o[2] else "")
            if o[0] == "a":
                return ("arg", o[1])
            if o[0] != "v":
                break
            d = self.defs.get(o[1])
            if d is None:
                return ("arg", o[1]) if isinstance(o[1], int) and o[1] < self.nargs else None
            if d["op"] == "getelementptr":
                if d.get("sty"):
                    t = re.sub(r"\.\d+$", "", d["sty"])
                    return re.sub(r"<.*>", "", t.replace("struct.", "").replace("class.", "")) + "+%d" % d["off"] + ("[]" if d.get("vars") else "")
                o = d["base"]
            elif d["op"] in ("bitcast", "addrspacecast"):
                o = d["a"][0]
            elif d["op"] == "call" and (d.get("fn") or "").startswith("llvm.threadlocal"):
                o = d["args"][0]
            elif d["op"] == "call" and "fn" in d:
                return plain(self.A.mod.dname(d["fn"])) + "()"
            elif d["op"] == "load":
                return "*" + str(self.lock_id(d["p"])) if d.get("p") else None
            else:
                break
        raise AnalysisError("cannot tell which mutex is meant in %s" % self.short)

    def analyse(self):
        """the locks held at every instruction"""
        f = self.f
        locks = {}
        for i in f.insts():
            if i["op"] == "call" and self.A.kind(i.get("fn")) == "ctor":
                locks[tuple(i["args"][0])] = self.lock_id(i["args"][1])
            if i["op"] == "call" and self.A.kind(i.get("fn")) == "move":
                locks.setdefault(tuple(i["args"][0]), locks.get(tuple(i["args"][1])))
        inn = {0: frozenset()}
        todo = [0]
        seen = set()
        while todo:
            b = todo.pop()
            H = inn[b]
            H, succ = self.flow(f.blocks[b], H, locks, None)
            for s in succ:
                n = inn.get(s, frozenset()) | H
                if s not in inn or n != inn[s]:
                    inn[s] = n
                    todo.append(s)
        for b in sorted(inn):
            self.flow(f.blocks[b], inn[b], locks, self)

    def flow(self, insts, H, locks, rec):
        succ = []
        for i in insts:
            op = i["op"]
            if op == "ret" and rec:
                self.end.append((i, H))
            if op in ("br", "switch", "indirectbr"):
                succ = list(i.get("succ", [])) or [x for x in [i.get("default")] + [c[1] for c in i.get("cases", [])] if x is not None]
            if op != "call":
                continue
            fn = i.get("fn")
            k = self.A.kind(fn)
            if k == "fatal" or k == "log" and self.A.const(i["args"][0]) == 2:
                return H, []
            if k == "ctor" or k == "lock":
                l = locks[tuple(i["args"][0])] if k == "ctor" else self.lock_id(i["args"][0])
                if rec:
                    self.events.append(("acquire", l, i, H))
                H = H | {l}
            elif k == "dtor":
                l = locks.get(tuple(i["args"][0]))
                if l is None:
                    raise AnalysisError("a lock of unknown origin is released in %s" % self.short)
                H = H - {l}
            elif k == "unlock":
                l = self.lock_id(i["args"][0])
                if rec and l not in H:
                    self.events.append(("unheld", l, i, H))
                H = H - {l}
            elif k == "wait":
                l = self.lock_id(i["args"][1])
                if rec:
                    self.events.append(("wait", l, i, H))
            elif k == "suspend":
                if rec:
                    self.events.append(("suspend", None, i, H))
            elif k == "user" or fn is None and "asm" not in i:
                if rec:
                    self.events.append(("user", self.A.flavour(self, i), i, H))
            elif k == "block":
                if rec:
                    self.events.append(("block", fn, i, H))
            elif fn is not None and rec and not fn.startswith("llvm."):
                self.calls.append((fn, i, H))
            if i.get("noret"):
                return H, []
        return H, succ


class Analysis:
    def __init__(self, mod):
        self.mod = mod
        self.kinds = {}
        self.fns = {}
        self.unsure = []
        for n, f in mod.fns.items():
            if not f.blocks or self.kind(n) in ("ctor", "dtor", "move", "lock", "unlock", "wait"):
                continue
            x = Fn(self, f)
            try:
                x.analyse()
            except AnalysisError as e:
                self.unsure.append("%s: %s" % (x.short, e))
            self.fns[n] = x
        self.close()

    def const(self, o):
        return int(o[1]) if o[0] == "i" else None

    def kind(self, n):
        if n is None:
            return None
        if n not in self.kinds:
            d = self.mod.dname(n)
            k = None
            if re.match(r"^rpp::Thread::Lock::Lock\(rpp::Thread::Mutex&\)", d):
                k = "ctor"
            elif d.startswith("rpp::Thread::Lock::Lock(rpp::Thread::Lock&&)"):
                k = "move"
            elif d.startswith("rpp::Thread::Lock::~Lock("):
                k = "dtor"
            elif d.startswith("rpp::Thread::Mutex::lock("):
                k = "lock"
            elif d.startswith("rpp::Thread::Mutex::unlock("):
                k = "unlock"
            elif d.startswith("rpp::Thread::Cond::wait("):
                k = "wait"
            elif re.match(r"^void rpp::Log::log<", d):
                k = "log"
            elif d.startswith("rpp::Libc::exit("):
                k = "fatal"
            elif n in USER or n.startswith("llvm.coro.resume") or n.startswith("llvm.coro.destroy"):
                k = "user"
            elif n.startswith("llvm.coro.suspend"):
                k = "suspend"
            elif n in BLOCKING:
                k = "block"
            self.kinds[n] = k
        return self.kinds[n]

    def flavour(self, x, i):
        """what an indirect call runs: a callable, or the moving and destruction of one's captures"""
        if i.get("fn") is not None:
            return "code of the user"
        n = x.name
        if "detail::Function<" in n or "Function<" in x.short:
            return "captures" if re.search(r"::(destruct|destroy|move|~Function|Function|operator-call=|operator=|clear|reset)$", x.short) else "callable"
        return "indirect"

    def close(self):
        """what each function may reach through its calls"""
        for x in self.fns.values():
            for kind, what, i, H in x.events:
                if kind == "acquire":
                    x.acq.setdefault(what, (i, None))
                elif kind == "user":
                    x.user.setdefault(what, (i, None))
                elif kind == "block":
                    x.block.setdefault(what, (i, None))
                elif kind == "wait":
                    x.block.setdefault("Cond::wait", (i, None))
        self.log = next((l for x in self.fns.values() if x.short == "rpp::Log::output" for k, l, i, H in x.events if k == "acquire"), None)
        callers = {}
        for n, x in self.fns.items():
            for c, i, H in x.calls:
                callers.setdefault(c, set()).add(n)
        todo = list(self.fns)
        while todo:
            c = todo.pop()
            y = self.fns.get(c)
            if y is None:
                continue
            for n in callers.get(c, ()):
                x = self.fns[n]
                ch = False
                for cc, i, H in x.calls:
                    if cc != c:
                        continue
                    for l in list(y.acq):
                        m = self.subst(x, i, l)
                        if m is not None and m not in x.acq:
                            x.acq[m] = (i, c)
                            ch = True
                    for s, t in ((y.user, x.user), (y.block, x.block)):
                        for l in list(s):
                            l = "log callback" if l == "callable" and self.log in H else l
                            if l == "log callback" and y.short == "rpp::Profile::alloc":
                                continue    # a warning of misused memory
                            if l not in t:
                                t[l] = (i, c)
                                ch = True
                if ch:
                    todo.append(n)

    def subst(self, x, i, l):
        if isinstance(l, tuple) and l[0] == "arg":
            try:
                return x.lock_id(i["args"][l[1]])
            except (AnalysisError, IndexError):
                return None
        return l

    def path(self, fn, table, l, depth=14):
        """how a function reaches an event"""
        out = []
        while fn is not None and depth:
            x = self.fns.get(fn)
            if x is None:
                break
            t = getattr(x, table)
            if l not in t:
                break
            i, c = t[l]
            out.append("%s (%s)" % (x.short, where(i)))
            fn = c
            depth -= 1
        return " -> ".join(out)


def check(ctx):
    ctx.level = "proof"
    ctx.explanation = ("the locks held at every instruction of every function, and through the call graph everything a call may acquire, run or wait for; "
                       "the acquisition order over all functions must have no cycle")
    ctx.trusted = ["clang 18 front end", "irdump"]
    ctx.assumptions = ["two mutexes of one class are taken to be the same mutex", "code that ends the program (a failed assertion) is not followed",
                       "a log callback allocates, formats and releases, but does not use the log itself"]
    bc = compile_bc(os.path.join(VERIF, "harness", "locks.cpp"), ["-fno-access-control", "-Xclang", "-disable-llvm-passes", "-w"], "locks")
    mod = dump(bc, [".*"], ".*", "function(sroa)", False)
    A = Analysis(mod)
    mine = {n: x for n, x in A.fns.items() if not n.startswith("h_") and not x.short.startswith("h_")}
    nl = sum(1 for x in mine.values() for e in x.events if e[0] == "acquire")
    ctx.floor("functions analysed", len(mine), 600)
    ctx.floor("lock acquisitions", nl, 25)
    ctx.count("call sites", sum(len(x.calls) for x in mine.values()))
    ctx.count("calls with a lock held", sum(1 for x in mine.values() for c in x.calls if c[2]))
    for u in A.unsure:
        ctx.undecided("locks", u)
    LOG = A.log
    if LOG is None:
        ctx.undecided("locks", "no lock is taken in rpp::Log::output")
    cb = set(A.fns["h_callback"].acq) - {LOG}
    # released
    for n, x in sorted(mine.items()):
        if not any(e[0] in ("acquire", "unheld") for e in x.events):
            continue
        bad = ["%s is still held when it returns" % l for i, H in x.end for l in H] + ["%s is released at %s without being held" % (l, where(i)) for k, l, i, H in x.events if k == "unheld"]
        if bad:
            ctx.bad("release " + x.short, "release:" + x.short, "%s: %s" % (x.short, "; ".join(sorted(set(bad)))))
        else:
            ctx.ok("release " + x.short)
    # order
    edges = {}
    for n, x in mine.items():
        for k, l, i, H in x.events:
            if k == "acquire":
                for h in H:
                    edges.setdefault((h, l), "%s at %s" % (x.short, where(i)))
            elif k == "user" and l in ("callable", "captures"):
                for h in H:
                    for m in cb:
                        edges.setdefault((h, m), "a callback from %s at %s that allocates" % (x.short, where(i)))
        for c, i, H in x.calls:
            y = A.fns.get(c)
            if y is None or not H:
                continue
            for l in y.acq:
                m = A.subst(x, i, l)
                for h in H:
                    edges.setdefault((h, m), "%s at %s -> %s" % (x.short, where(i), A.path(c, "acq", l)))
            for w in y.user:
                if w in ("callable", "captures"):
                    for m in cb:
                        for h in H:
                            edges.setdefault((h, m), "a callback from %s at %s -> %s that allocates" % (x.short, where(i), A.path(c, "user", w)))
    edges = {e: s for e, s in edges.items() if not any(isinstance(l, tuple) or l is None for l in e)}
    ctx.count("pairs of locks in order", len(edges))
    nodes = sorted({l for e in edges for l in e} | {l for x in mine.values() for k, l, i, H in x.events if k == "acquire" and isinstance(l, str)})
    ctx.floor("mutexes", len(nodes), 7)
    adj = {}
    for a, b in edges:
        adj.setdefault(a, set()).add(b)

    def reach(a):
        seen, st = {}, [(b, (a, b)) for b in adj.get(a, ())]
        while st:
            b, e = st.pop()
            if b not in seen:
                seen[b] = e
                st += [(c, (b, c)) for c in adj.get(b, ())]
        return seen
    done = set()
    for a in nodes:
        r = reach(a)
        if a in r:
            cyc, at = [], a
            while True:
                e = r[at]
                cyc.append(e)
                at = e[0]
                if at == a:
                    break
            ks = "|".join(sorted({e[0] for e in cyc}))
            if ks not in done:
                done.add(ks)
                ctx.bad("order " + a, "order:" + ks, "threads can wait for each other forever:\n  " + "\n  ".join("with %s held, %s is taken: %s" % (e[0], e[1], edges[e]) for e in reversed(cyc)))
        else:
            ctx.ok("order " + a, "%d locks may be taken while it is held" % len(r))
    # code of the user, waiting and suspension under a lock
    def held(kind, table, names, okay):
        out = {}
        for n, x in mine.items():
            for k, w, i, H in x.events:
                if k == kind and H and (names is None or w in names) and not okay(x, w, H):
                    out.setdefault(x.short, "%s at %s while %s is held" % (x.short, where(i), ", ".join(map(str, sorted(map(str, H))))))
            for c, i, H in x.calls:
                y = A.fns.get(c)
                if y is None or not H:
                    continue
                for w in getattr(y, table):
                    if (names is None or w in names) and not okay(y, w, H):
                        out.setdefault(x.short, "%s at %s -> %s while %s is held" % (x.short, where(i), A.path(c, table, w), ", ".join(sorted(map(str, H)))))
        return out
    u = held("user", "user", {"callable", "code of the user", "indirect", "log callback"}, lambda x, w, H: w == "callable" and H == {LOG} or w == "log callback" and x.short == "rpp::Profile::alloc")
    for s, t in u.items():
        ctx.bad("user code " + s, "user:" + s, "code of the user runs under a lock of the library, which it may need itself: " + t)
    if not u:
        ctx.ok("user code", "none runs under a lock but log callbacks")
    w = held("block", "block", None, lambda x, w, H: False)
    for s, t in w.items():
        ctx.bad("waiting " + s, "wait:" + s, "waits for another thread with a lock held: " + t)
    bad = [(x, l, i, H) for x in mine.values() for k, l, i, H in x.events if k == "wait" and H != {l}]
    for x, l, i, H in bad:
        ctx.bad("waiting " + x.short, "cond:" + x.short, "%s at %s waits on %s while holding %s" % (x.short, where(i), l, ", ".join(sorted(map(str, H))) or "nothing"))
    if not w and not bad:
        ctx.ok("waiting", "%d waits, each holding its own mutex alone" % sum(1 for x in mine.values() for e in x.events if e[0] == "wait"))
    s = [(x, i, H) for x in mine.values() for k, l, i, H in x.events if k == "suspend" and H]
    for x, i, H in s:
        ctx.bad("suspension " + x.short, "suspend:" + x.short, "%s suspends at %s with %s held" % (x.short, where(i), ", ".join(sorted(map(str, H)))))
    n = sum(1 for x in A.fns.values() for e in x.events if e[0] == "suspend")
    ctx.floor("suspension points", n, 6)
    if not s:
        ctx.ok("suspension", "%d suspension points, none with a lock held" % n)
