"""Profiling: frames, timing trees, allocation accounts and their locks."""
import itertools
from mini import *

NOW = "now"


class Setup:
    def __init__(self, ctx):
        self.mod = harness("profile", default_opaque=False, extra=["-fno-access-control"], opaque=OPAQUE)
        src = os.path.join(VERIF, "harness", "profile.cpp")
        L = layouts(src, names=r".*", extra=["-fno-access-control"])
        self.sizes = {k: v["#size"][0] for k, v in L.items() if "#size" in v}
        self.sizes["rpp::detail::Function<4ul, void ()>"] = L["L_fn"]["#size"][0]
        fl = layouts(src, extra=["-fno-access-control"])
        f = lambda s: {k[2:]: v for k, v in fl[s].items() if k.count(".") == 1}
        one = lambda d, pred: [v[0] for k, v in d.items() if pred(k, v[1])]
        F, N, T, A = f("L_frame"), f("L_node"), f("L_thread"), f("L_aprof")
        self.f_nodes = self.only(one(F, lambda k, t: "Vec<" in t and "Timing_Node" in t), "the nodes")
        self.f_allocs = self.only(one(F, lambda k, t: "Vec<" in t and "Timing_Node" not in t), "a frame's allocations")
        self.f_cur = self.only(one(F, lambda k, t: t == "u64"), "the current node")
        self.N = {k: v[0] for k, v in N.items()}
        self.A = {k: v[0] for k, v in A.items()}
        self.t_frames = self.only(one(T, lambda k, t: "Queue<" in t), "a thread's frames")
        self.t_lock = self.only(one(T, lambda k, t: t.endswith("Mutex")), "a thread's lock")
        self.t_reg, self.t_dur = T["registered"][0], T["during_frame"][0]
        self.al = {k: v[0] for k, v in f("L_alloc").items()}
        self.nsize, self.fsize, self.asize = (self.sizes[x] for x in ("L_node", "L_frame", "L_aprof"))
        for a, b in (("rpp::Profile::Timing_Node", "L_node"), ("rpp::Profile::Frame_Profile", "L_frame"), ("rpp::Profile::Alloc_Profile", "L_aprof"), ("rpp::Profile::Alloc", "L_alloc"),
                     ("rpp::String_View", None)):
            self.sizes[a] = self.sizes[b] if b else 16
        self.runs = self.insts = 0

    @staticmethod
    def only(c, what):
        if len(c) != 1:
            raise AnalysisError("cannot tell %s apart" % what)
        return c[0]


def machine(S, w):
    m = Mini(S.mod, w, S.sizes, {"rpp::Profile::Frame_Profile": "h_new_frame", "rpp::Profile::Alloc_Profile": "h_new_aprof", "unsigned long": "zero"})
    g = lambda n: m.run(S.mod.fns[n], [])
    m.tt, m.threads, m.allocs, m.fins = g("h_this_thread"), g("h_threads"), g("h_allocs"), g("h_finalizers")
    for n in ("threads", "allocs", "finalizers"):
        p = g("h_%s_lock" % n)
        m.lk[(p[1], p[2])] = n
    m.lk[(m.tt[1], m.tt[2] + S.t_lock)] = "frames"
    m.S = S
    m.guards = guard
    m.published = False
    return m


def root(m, o):
    """which shared structure an object belongs to"""
    for _ in range(8):
        up = next((k for k, c in m.conts.items() if c.store == o), None)
        if up is None:
            return (o, None)
        if up == (m.threads[1], m.threads[2]):
            return ("threads", None)
        if up == (m.allocs[1], m.allocs[2]):
            return ("allocs", None)
        if up == (m.fins[1], m.fins[2]):
            return ("finalizers", None)
        if up in m.frameconts:
            return ("frames", m.frameconts[up])
        o = up[0]
    return (o, None)


def guard(m, o, off, mode):
    if m.exempt:
        return
    k = (o, off)
    if k in m.frameconts:
        r = ("frames", m.frameconts[k])
        mode = "r" if mode == "c" else mode
    elif k == (m.threads[1], m.threads[2]):
        r = ("threads", None)
    elif k == (m.allocs[1], m.allocs[2]):
        r = ("allocs", None)
    elif k == (m.fins[1], m.fins[2]):
        r = ("finalizers", None)
    else:
        r = root(m, o)
    if r[0] in ("threads", "allocs", "finalizers"):
        if r[0] not in m.held:
            raise Bad("lock-" + r[0], "touches %s without holding its lock" % {"threads": "the list of threads", "allocs": "the allocation accounts", "finalizers": "the finalizers"}[r[0]])
    elif r[0] == "frames":
        who = r[1]
        lock = "frames" if who == "this" else "frames-" + who
        if who == "this" and (mode == "r" or not published(m)):
            return
        if lock not in m.held:
            raise Bad("lock-frames", "%s a thread's frames without holding their lock" % {"r": "reads", "w": "changes", "c": "uses"}[mode])
    elif mode == "w" and o == m.tt[1] and off == m.tt[2] + m.S.t_dur and published(m):
        if "frames" not in m.held:
            raise Bad("lock-frames", "changes whether a frame is going on without holding the frames' lock")
    elif mode == "r" and o in m.others and off == m.S.t_dur:
        if "frames-" + o not in m.held:
            raise Bad("lock-frames", "reads whether a frame is going on without holding the frames' lock")


def published(m):
    c = m.conts.get((m.threads[1], m.threads[2]))
    return c is not None and any(m.mem[c.store].get(j * c.es + 8, (0, None))[1] == m.tt for j in range(c.n))


LOC = 40


def put_loc(m, o, off, tag):
    """a source location; tag = (function, file, line)"""
    if isinstance(tag, float):
        tag = ("fn%d" % tag, "", 0)
    if isinstance(tag, int):
        tag = ("fn%d" % tag, "file%d" % tag, 1000 + tag)
    for k, v in ((0, ("p", "s:" + str(tag[0]), 0)), (8, 7), (16, ("p", "s:" + str(tag[1]), 0)), (24, 9), (32, tag[2])):
        m.mem[o][off + k] = (8, v)


def get_loc(m, o, off):
    v = [m.mem[o].get(off + k, (8, None))[1] for k in range(0, 40, 8)]
    return tuple(v)


def put_frame(m, o, off, parents, locs, cur, tag):
    """a frame whose tree has the given parents"""
    S = m.S
    m.mem[o][off + S.f_cur] = (8, cur)
    c = m.cont(("p", o, off + S.f_nodes), "Vec", S.nsize)
    c.n = len(parents)
    A = m.A
    for i, p in enumerate(parents):
        b = i * S.nsize
        put_loc(m, c.store, b + S.N["loc"], locs[i])
        for f in ("begin", "end", "self_time", "heir_time", "calls"):
            m.mem[c.store][b + S.N[f]] = (8, A.atom("%s%s%d" % (tag, f, i)))
        m.mem[c.store][b + S.N["parent"]] = (8, p)
        k = m.cont(("p", c.store, b + S.N["children"]), "Vec", 8)
        ch = [j for j in range(1, len(parents)) if parents[j] == i]
        k.n = len(ch)
        for q, j in enumerate(ch):
            m.mem[k.store][8 * q] = (8, j)
    m.cont(("p", o, off + S.f_allocs), "Vec", m.sizes["rpp::Profile::Alloc"])


def read_frame(m, o, off):
    S = m.S
    c = m.conts.get((o, off + S.f_nodes))
    out = {"cur": m.mem[o].get(off + S.f_cur, (8, None))[1], "nodes": []}
    for i in range(c.n if c else 0):
        b = i * S.nsize
        k = m.conts.get((c.store, b + S.N["children"]))
        nd = {f: m.mem[c.store].get(b + S.N[f], (8, None))[1] for f in ("begin", "end", "self_time", "heir_time", "calls", "parent")}
        nd["loc"] = get_loc(m, c.store, b + S.N["loc"])
        nd["children"] = [m.mem[k.store].get(8 * q, (8, None))[1] for q in range(k.n)] if k else []
        out["nodes"].append(nd)
    a = m.conts.get((o, off + S.f_allocs))
    out["allocs"] = [tuple(m.mem[a.store].get(j * a.es + q, (8, None))[1] for q in range(0, 32, 8)) for j in range(a.n)] if a else []
    return out


def put_thread(m, p, who, registered, during, frames):
    """frames: list of (parents, locs, current)"""
    S = m.S
    m.mem[p[1]][p[2] + S.t_reg] = (1, int(registered))
    m.mem[p[1]][p[2] + S.t_dur] = (1, int(during))
    c = m.cont(("p", p[1], p[2] + S.t_frames), "Queue", S.fsize)
    c.n = len(frames)
    m.frameconts[(p[1], p[2] + S.t_frames)] = who
    for j, (pa, lo, cu) in enumerate(frames):
        put_frame(m, c.store, j * S.fsize, pa, lo, cu, "%s%d." % (who, j))
    if registered:
        t = m.cont(m.threads, "Map", 16)
        key = ("p", "thread-id", 0) if who == "this" else ("p", "id-" + who, 0)
        m.mem[t.store][t.n * 16] = (8, key)
        m.mem[t.store][t.n * 16 + 8] = (8, p)
        t.keys.append((key,))
        t.n += 1


def read_thread(m, p):
    S = m.S
    c = m.conts[(p[1], p[2] + S.t_frames)]
    return {"reg": m.mem[p[1]].get(p[2] + S.t_reg, (1, None))[1], "dur": m.mem[p[1]].get(p[2] + S.t_dur, (1, None))[1],
            "frames": [read_frame(m, c.store, j * S.fsize) for j in range(c.n)],
            "listed": published(m)}


def isnow(m, x):
    return isinstance(x, Rat) and any(e[0] == "clock" and not e[1].diff(x) for e in m.ev)


def eq(x, y):
    if isinstance(x, Rat) or isinstance(y, Rat):
        try:
            X = x if isinstance(x, Rat) else None
            Y = y if isinstance(y, Rat) else None
            A = (X or Y).A
            return not (X or A.const(x)).diff(Y or A.const(y))
        except Exception:
            return False
    return x == y


def diff_node(g, e):
    return [f for f in e if not (g.get(f) == e[f] if f in ("children", "loc") else eq(g.get(f), e[f]))]


def diff_frame(g, e, names):
    """differences between two frames"""
    out = []
    if g["cur"] != e["cur"]:
        out.append("the current node is %s, not %s" % (g["cur"], e["cur"]))
    if len(g["nodes"]) != len(e["nodes"]):
        out.append("there are %d nodes, not %d" % (len(g["nodes"]), len(e["nodes"])))
    for j, (a, b) in enumerate(zip(g["nodes"], e["nodes"])):
        d = diff_node(a, b)
        if d:
            out.append("node %d (%s) has other %s" % (j, names(j), ", ".join(d)))
    if g["allocs"] != e["allocs"]:
        out.append("other recorded allocations")
    return out


def trees(nmax):
    for n in range(1, nmax + 1):
        for t in itertools.product(*[range(i) if i else [0] for i in range(n)]):
            yield list(t)


class Case:
    """runs one operation in every branch and collects what is wrong"""

    def __init__(self, ctx, S, name, key, what):
        self.ctx, self.S, self.name, self.key, self.what = ctx, S, name, key, what
        self.bad, self.unsure, self.n = [], [], 0

    def go(self, prep, fn, post, label, args=lambda m: [], dies=None, died=None):
        """dies(m): must this end in the assertion handler? post(m, before): list of complaints"""
        A = Alg()

        def body(w):
            m = machine(self.S, w)
            m.frameconts, m.others, m.exempt = {}, set(), False
            st = prep(m)
            m.setup = False
            self.n += 1
            self.S.runs += 1
            try:
                m.ret = m.run(self.S.mod.fns[fn], args(m) if args else [])
                m.setup = True
                self.S.insts += m.insts
                dead = m.trap is not None
                if dead and not (m.fatal or getattr(m, "quit", False)):
                    self.bad.append("%s: stops without a message" % label)
                elif dies is not None and dead != dies(m):
                    self.bad.append("%s: %s" % (label, "stops the program" if dead else "goes on although it must stop the program"))
                elif dead and died:
                    self.bad += ["%s: %s" % (label, x) for x in died(m)]
                elif not dead:
                    msgs = post(m, st)
                    if m.held:
                        msgs = list(msgs) + ["keeps the %s lock" % x for x in m.held]
                    self.bad += ["%s: %s" % (label, x) for x in msgs]
            except Bad as e:
                self.bad.append("%s: %s" % (label, e.msg))
            except AnalysisError as e:
                self.unsure.append("%s: %s" % (label, e))
        explore(A, body)

    def done(self):
        if self.bad:
            self.ctx.bad(self.name, self.key, "%s\n  %s%s" % (self.what, "\n  ".join(list(dict.fromkeys(self.bad))[:6]),
                                                           "\n  and %d more" % (len(self.bad) - 6) if len(self.bad) > 6 else ""))
        elif self.unsure:
            self.ctx.undecided(self.name, self.unsure[0])
        elif not self.n:
            self.ctx.undecided(self.name, "nothing was analysed")
        else:
            self.ctx.ok(self.name, "%d situations" % self.n)


def two(m, tree, cur, during=1, reg=1, named=0):
    """this thread in its second frame, another thread listed as well"""
    put_thread(m, m.tt, "this", reg, during, [([0, 0], [("Frame", "", 0), 50], 1), (tree, [float(j) if named else j for j in range(len(tree))], cur)])
    m.mem["other"] = {}
    m.others.add("other")
    m.lk[("other", m.S.t_lock)] = "frames-other"
    put_thread(m, ("p", "other", 0), "other", 1, 0, [([0], [7], 0)])
    return read_thread(m, m.tt)


def check(ctx):
    ctx.level = "bounded"
    ctx.explanation = ("each operation is followed over exact terms for every shape of the timing tree up to a bound, every state of the thread and every outcome of the maps; "
                       "containers, locks, log and clock are opaque; the resulting state must be the specified one and every shared access must be under its lock")
    ctx.assumptions = ["vectors, queues and maps keep their contracts (C01, C02, C11)", "u64 and i64 counters do not wrap"]
    S = Setup(ctx)
    root_name = lambda tree: (lambda j: "root" if j == 0 else "child of %d" % tree[j] if j < len(tree) else "new")

    # entering
    c = Case(ctx, S, "enter", "enter", "entering a scope opens the child of that name under the current scope, or a new one, and nothing else")
    locs = lambda n: [(i, "as node %d" % i) for i in range(n)] + [(("fn99", "file99", 5), "a new name")]
    for tree, named in [(t, 0) for t in trees(4)] + [(t, 1) for t in trees(3)]:
        n = len(tree)
        for cur in range(n):
            cand = [(float(i), "the name of node %d" % i) for i in range(n)] + [(99.0, "a new name")] if named else locs(n)
            kids = [j for j in range(1, n) if tree[j] == cur]
            if kids and not named:
                k = kids[-1]
                cand += [(("fn%d" % k, "file%d" % k, 77), "as node %d but for the line" % k), (("fn%d" % k, "other", 1000 + k), "as node %d but for the file" % k),
                         (("other", "file%d" % k, 1000 + k), "as node %d but for the function" % k)]
            for loc, what in cand:
                def prep(m, tree=tree, cur=cur, loc=loc, named=named):
                    m.mem["loc"] = {}
                    put_loc(m, "loc", 0, loc)
                    return two(m, tree, cur, named=named)

                def post(m, st, tree=tree, cur=cur, loc=loc, kids=kids):
                    g = read_thread(m, m.tt)
                    e = st["frames"][1]
                    hit = [j for j in kids if j == loc]
                    G = g["frames"][1] if len(g["frames"]) == 2 else None
                    if G is None:
                        return ["changes the number of frames"]
                    out = []
                    if hit:
                        k = hit[0]
                        if not isnow(m, G["nodes"][k]["begin"]):
                            out.append("node %d does not begin now" % k)
                        e["nodes"][k]["begin"] = G["nodes"][k]["begin"]
                        e["nodes"][k]["calls"] = e["nodes"][k]["calls"] + 1
                        e["cur"] = k
                    else:
                        e["cur"] = len(tree)
                        e["nodes"][cur]["children"] = e["nodes"][cur]["children"] + [len(tree)]
                        new = G["nodes"][-1]
                        if len(G["nodes"]) == len(tree) + 1:
                            if not isnow(m, new["begin"]):
                                out.append("the new node does not begin now")
                            e["nodes"].append({"begin": new["begin"], "heir_time": 0, "self_time": new["self_time"], "calls": 1, "parent": cur, "children": [], "loc": get_loc(m, "loc", 0)})
                        else:
                            out.append("there is no new node")
                    return out + diff_frame(G, e, root_name(tree)) + diff_frame(g["frames"][0], st["frames"][0], lambda j: "earlier frame") + thread_same(g, st)
                c.go(prep, "h_p_enter", post, "tree %s at %d, %s" % (tree, cur, what), lambda m: [("p", "loc", 0)], lambda m: False)
    c.done()
    c = Case(ctx, S, "exit", "exit", "leaving a scope adds the time since it was entered to it, ends it now and returns to its parent")
    for tree in trees(4):
        for cur in range(len(tree)):
            def post(m, st, tree=tree, cur=cur):
                g = read_thread(m, m.tt)
                if len(g["frames"]) != 2:
                    return ["changes the number of frames"]
                G, e = g["frames"][1], st["frames"][1]
                nd, out = e["nodes"][cur], []
                t = G["nodes"][cur]["end"]
                if not isnow(m, t):
                    out.append("the scope does not end now")
                else:
                    nd["end"], nd["heir_time"] = t, nd["heir_time"] + (t - nd["begin"])
                    e["cur"] = nd["parent"]
                return out + diff_frame(G, e, root_name(tree)) + diff_frame(g["frames"][0], st["frames"][0], lambda j: "earlier frame") + thread_same(g, st)
            c.go(lambda m, tree=tree, cur=cur: two(m, tree, cur), "h_p_exit", post, "tree %s at %d" % (tree, cur), None, lambda m: False)
    c.done()
    # outside a frame
    c = Case(ctx, S, "outside", "outside", "outside a frame entering and leaving change nothing (the thread may become listed)")
    for reg in (0, 1):
        for fr in (0, 1, 2):
            for fn in ("h_p_enter", "h_p_exit", "h_p_enter_name"):
                def prep(m, reg=reg, fr=fr):
                    m.mem["loc"] = {}
                    put_loc(m, "loc", 0, 3)
                    put_thread(m, m.tt, "this", reg, 0, [([0, 0], [0, 3], 0)] * fr)
                    return read_thread(m, m.tt)

                def post(m, st):
                    g = read_thread(m, m.tt)
                    out = []
                    if len(g["frames"]) != len(st["frames"]):
                        out.append("changes the number of frames")
                    for a, b in zip(g["frames"], st["frames"]):
                        out += diff_frame(a, b, str)
                    if g["dur"] != 0:
                        out.append("starts a frame")
                    return out + listed(m, g)
                c.go(prep, fn, post, "%s with %d frames, %s" % (fn[4:], fr, "listed" if reg else "not listed"), (lambda m: [("p", "loc", 0)]) if "enter" in fn else None, lambda m: False)
    c.done()
    # by name
    c = Case(ctx, S, "enter-name", "enter-name", "entering by name opens a scope whose location is the name alone")

    def prep(m):
        m.mem["nm"] = {0: (8, ("p", "text", 0)), 8: (8, 5)}
        return two(m, [0, 0], 0)

    def post(m, st):
        g = read_thread(m, m.tt)["frames"][1]["nodes"]
        if len(g) != 3:
            return ["there is no new node"]
        l = g[-1]["loc"]
        return [] if l[0] == ("p", "text", 0) and l[1] == 5 and l[3] == 0 and l[4] == 0 else ["its location is %s" % (l,)]
    c.go(prep, "h_p_enter_name", post, "a name", lambda m: [("p", "nm", 0)], lambda m: False)
    c.done()
    # frames
    c = Case(ctx, S, "begin_frame", "begin-frame", "a frame begins with one root node that begins now; the oldest frame goes only when the queue is full; the result is the time since the previous frame began")
    for reg in (0, 1):
        for dur in (0, 1):
            for fr in (0, 1, 2, 3):
                if dur and not fr or fr and not reg:
                    continue

                def prep(m, reg=reg, dur=dur, fr=fr):
                    put_thread(m, m.tt, "this", reg, dur, [([0, 0], [("Frame", "", 0), j], 0) for j in range(fr)])
                    return read_thread(m, m.tt)

                def post(m, st, fr=fr):
                    g = read_thread(m, m.tt)
                    c = m.conts[(m.tt[1], m.tt[2] + S.t_frames)]
                    full = c.cap is not None and fr >= c.cap and fr > 0
                    out = []
                    keep = st["frames"][1:] if full else st["frames"]
                    if len(g["frames"]) != len(keep) + 1:
                        return ["there are %d frames instead of %d" % (len(g["frames"]), len(keep) + 1)]
                    for a, b in zip(g["frames"], keep):
                        out += diff_frame(a, b, lambda j: "earlier frame")
                    F = g["frames"][-1]
                    if F["cur"] != 0 or len(F["nodes"]) != 1 or F["allocs"]:
                        return out + ["the new frame does not start with the root alone"]
                    r = F["nodes"][0]
                    if not isnow(m, r["begin"]) or r["calls"] != 1 or r["parent"] != 0 or r["children"] or not eq(r["heir_time"], 0):
                        out.append("the root is not fresh")
                    if m.text(r["loc"][0], r["loc"][1] if isinstance(r["loc"][1], int) else None) != "Frame":
                        out.append("the root is not called Frame")
                    want = m.A.const(0) if not keep else (r["begin"] - keep[-1]["nodes"][0]["begin"]) / m.A.atom("freq")
                    if not eq(m.ret, want):
                        out.append("it returns %s instead of %s" % (m.ret, want))
                    if g["dur"] != 1:
                        out.append("no frame is going on afterwards")
                    return out + listed(m, g)
                c.go(prep, "h_begin_frame", post, "%d frames%s%s" % (fr, ", one going on" if dur else "", "" if reg else ", not listed"), None, lambda m, dur=dur: bool(dur))
    c.done()
    c = Case(ctx, S, "end_frame", "end-frame", "a frame that ends gets its duration; each scope's own time is its time less its children's; without a frame, or inside a scope, the program stops")
    for tree in trees(5):
        for cur, dur, reg in [(0, 1, 1)] + ([(len(tree) - 1, 1, 1)] if len(tree) > 1 else []) + ([(0, 0, 1), (0, 0, 0)] if len(tree) < 3 else []):
            def post(m, st, tree=tree):
                g = read_thread(m, m.tt)
                if len(g["frames"]) != 2:
                    return ["changes the number of frames"]
                G, e = g["frames"][1], st["frames"][1]
                out = []
                r = G["nodes"][0]
                if not isnow(m, r["end"]):
                    return ["the root does not end now"]
                ns = e["nodes"]
                ns[0]["end"], ns[0]["heir_time"] = r["end"], r["end"] - ns[0]["begin"]
                for j, nd in enumerate(ns):
                    nd["self_time"] = nd["heir_time"]
                    for k in nd["children"]:
                        nd["self_time"] = nd["self_time"] - ns[k]["heir_time"]
                if g["dur"] != 0:
                    out.append("the frame is still going on")
                g["dur"] = st["dur"]
                return out + diff_frame(G, e, root_name(tree)) + diff_frame(g["frames"][0], st["frames"][0], lambda j: "earlier frame") + thread_same(g, st)
            c.go(lambda m, tree=tree, cur=cur, dur=dur, reg=reg: two(m, tree, cur, dur, reg), "h_end_frame", post, "tree %s at %d%s" % (tree, cur, "" if dur else ", no frame"), None,
                 lambda m, cur=cur, dur=dur, reg=reg: bool(cur or not dur or not reg))
    c.done()
    accounts(ctx, S)
    threads(ctx, S)
    ending(ctx, S)
    ctx.count("situations analysed", S.runs)
    ctx.count("instructions followed", S.insts)


def thread_same(g, st):
    return [] if (g["reg"], g["dur"], g["listed"]) == (st["reg"], st["dur"], st["listed"]) else ["the thread's registration changes"]


def listed(m, g):
    """registered, and in the list once under its own id"""
    c = m.conts.get((m.threads[1], m.threads[2]))
    mine = [k for k in (c.keys if c else []) if k == (("p", "thread-id", 0),)]
    return [] if g["reg"] == 1 and g["listed"] and len(mine) == 1 else ["the thread is not listed"]


ACC = ("allocates", "frees", "allocate_size", "free_size", "high_water", "current_set_size")


def put_account(m, name, known):
    """an account with arbitrary totals; known: [(address, size)]"""
    S = m.S
    c = m.cont(m.allocs, "Map", (16 + S.asize + 7) // 8 * 8)
    b = c.n * c.es
    key = (("p", name, 0), 5)
    m.mem[c.store][b], m.mem[c.store][b + 8] = (8, key[0]), (8, key[1])
    c.keys.append(key)
    c.n += 1
    for f in ACC:
        m.mem[c.store][b + 16 + S.A[f]] = (8, m.A.atom("%s.%s" % (name, f)))
    k = m.cont(("p", c.store, b + 16 + S.A["current_set"]), "Map", 16)
    for a, s in known:
        m.mem[k.store][k.n * 16], m.mem[k.store][k.n * 16 + 8] = (8, a), (8, s)
        k.keys.append((a,))
        k.n += 1


def read_accounts(m):
    S = m.S
    c = m.conts.get((m.allocs[1], m.allocs[2]))
    out = {}
    for j in range(c.n if c else 0):
        b = j * c.es
        k = m.conts.get((c.store, b + 16 + S.A["current_set"]))
        d = {f: m.mem[c.store].get(b + 16 + S.A[f], (8, None))[1] for f in ACC}
        d["set"] = {k.keys[q][0]: m.mem[k.store].get(q * 16 + 8, (8, None))[1] for q in range(k.n)} if k else {}
        out[c.keys[j]] = d
    return out


def accounts(ctx, S):
    c = Case(ctx, S, "alloc", "alloc", "an allocation or release is booked on its allocator's account and recorded in the frame going on; the log is used with no lock held")
    addr, other = ("p", "block", 0), ("p", "block2", 0)
    for free in (0, 1):
        for acct in (0, 1, 2):
            for known in ((), (addr,), (other,), (other, addr), (addr, other)):
                if acct == 0 and known:
                    continue
                for dur in (0, 1):
                    def prep(m, free=free, acct=acct, known=known, dur=dur):
                        A = m.A
                        if acct == 2:
                            put_account(m, "Other", [(addr, A.atom("x"))])
                        if acct:
                            put_account(m, "Mine", [(a, A.atom("size-" + a[1])) for a in known])
                        m.mem["rec"] = {}
                        sz = A.atom("request")
                        if not free:
                            m.w.assume(sz, {1})
                        for k, v in ((0, ("p", "Mine", 0)), (8, 5), (16, addr), (24, 0 if free else sz)):
                            m.mem["rec"][k] = (8, v)
                        put_thread(m, m.tt, "this", 1, dur, [([0], [0], 0)])
                        m.lockfree_log = True
                        return read_accounts(m), read_thread(m, m.tt)

                    def post(m, st, free=free, known=known, dur=dur):
                        A = m.A
                        acc, th = st
                        g, t = read_accounts(m), read_thread(m, m.tt)
                        key = (("p", "Mine", 0), 5)
                        e = acc.get(key, dict({f: A.const(0) for f in ACC}, set={}))
                        out = []
                        sz = A.atom("request")
                        logs = [x for x in m.ev if x[0] == "log"]
                        if not free:
                            e = dict(e, set=dict(e["set"]))
                            e["set"][addr] = sz
                            e["allocates"], e["allocate_size"], e["current_set_size"] = e["allocates"] + 1, e["allocate_size"] + sz, e["current_set_size"] + sz
                            hw = g.get(key, {}).get("high_water")
                            if hw is None or not (eq(hw, e["high_water"]) or eq(hw, e["current_set_size"])):
                                out.append("the high-water mark is %s" % hw)
                            elif not m.w.equal(hw, m.w.max(sym(A, e["high_water"]), sym(A, e["current_set_size"]))):
                                out.append("the high-water mark is not the larger of mark and current size")
                            e["high_water"] = hw
                            warned = addr in known
                        elif addr in known:
                            e = dict(e, set=dict(e["set"]))
                            s = e["set"].pop(addr)
                            e["frees"], e["free_size"], e["current_set_size"] = e["frees"] + 1, e["free_size"] + s, e["current_set_size"] - s
                            warned = False
                        else:
                            warned = True
                        acc[key] = e
                        if [x[1] for x in logs] != ([1] if warned else []):
                            out.append("logs %s" % (["level %s" % x[1] for x in logs] or "nothing") + (", but it must warn once" if warned else ", but it must not"))
                        for x in logs:
                            if x[2]:
                                out.append("logs at %s while holding the %s lock: a log callback that allocates waits for it forever" % (x[4], ", ".join(x[2])))
                        if set(g) != set(acc):
                            out.append("the accounts are %s" % [k[0][1] for k in g])
                        for k in acc:
                            for f in ACC:
                                if k in g and not eq(g[k][f], acc[k][f]):
                                    out.append("%s of %s becomes %s instead of %s" % (f, k[0][1], g[k][f], acc[k][f]))
                            if k in g and (set(g[k]["set"]) != set(acc[k]["set"]) or any(not eq(g[k]["set"][q], v) for q, v in acc[k]["set"].items())):
                                out.append("the live blocks of %s are wrong" % k[0][1])
                        want = th["frames"][0]["allocs"] + ([(("p", "Mine", 0), 5, addr, 0 if free else sz)] if dur else [])
                        got = t["frames"][0]["allocs"]
                        if len(got) != len(want) or any(not all(eq(a, b) for a, b in zip(x, y)) for x, y in zip(got, want)):
                            out.append("the frame's record is wrong")
                        return out
                    c.go(prep, "h_alloc", post, "%s, %s, block %s%s" % ("release" if free else "allocation", ["no account", "the only account", "the second account"][acct],
                                                                        "known" if addr in known else "not known", ", in a frame" if dur else ""), lambda m: [("p", "rec", 0)], lambda m: False)
    c.done()


def sym(A, x):
    return x if isinstance(x, Rat) else A.const(x)


def threads(ctx, S):
    c = Case(ctx, S, "iterate", "iterate", "iterating visits the last finished frame of every thread that has one, each node once, in order, under the locks")
    shapes = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (1, 3)]
    for s1 in shapes:
        for s2 in shapes[1:4:2] + shapes[4:5]:
            def prep(m, s1=s1, s2=s2):
                for who, (dur, k) in (("this", s1), ("other", s2)):
                    p = m.tt
                    if who == "other":
                        m.mem["other"] = {}
                        m.others.add("other")
                        m.lk[("other", m.S.t_lock)] = "frames-other"
                        p = ("p", "other", 0)
                    put_thread(m, p, who, 1, dur, [([0] * (j + 1), list(range(j + 1)), 0) for j in range(k)])
                m.seen = []

                def sink(mm, a, i):
                    mm.seen.append((a[0], a[1], tuple(mm.held)))
                m.calls["sink"] = sink
                return None

            def post(m, st, s1=s1, s2=s2):
                want = []
                for who, (dur, k) in (("this", s1), ("other", s2)):
                    p = m.tt if who == "this" else ("p", "other", 0)
                    j = k - 1 - dur
                    if j < 0:
                        continue
                    q = m.conts[(p[1], p[2] + S.t_frames)]
                    nd = m.conts[(q.store, j * S.fsize + S.f_nodes)]
                    for x in range(nd.n):
                        want.append((("p", "thread-id" if who == "this" else "id-other", 0), ("p", nd.store, x * S.nsize)))
                out = []
                if [x[:2] for x in m.seen] != want:
                    out.append("visits %d nodes, but %d are to be visited" % (len(m.seen), len(want)) if len(m.seen) != len(want) else "visits the wrong nodes")
                for x in m.seen:
                    if "threads" not in x[2]:
                        out.append("visits without holding the list's lock")
                return out
            c.go(prep, "h_iterate", post, "threads with %s" % " and ".join("%d frames%s" % (k, ", one going on" if d else "") for d, k in (s1, s2)), None, lambda m: False)
    c.done()
    c = Case(ctx, S, "thread-exit", "thread-exit", "a thread that ends leaves the list, ends the frame going on, and drops its frames only when no one can look at them")
    for reg, dur, fr in ((0, 0, 0), (1, 0, 0), (1, 0, 2), (1, 1, 1), (1, 1, 2)):
        def prep(m, reg=reg, dur=dur, fr=fr):
            put_thread(m, m.tt, "this", reg, dur, [([0, 0], [0, 1], 0) for j in range(fr)])

        def post(m, st):
            out = []
            if published(m):
                out.append("stays in the list of threads")
            c = m.conts.get((m.tt[1], m.tt[2] + S.t_frames))
            if c is not None and c.n:
                out.append("keeps its frames")
            for e in m.ev:
                if e[0] == "log":
                    out.append("logs at %s" % e[4])
            return out
        c.go(prep, "h_drop_thread", post, "%s%s, %d frames" % ("listed" if reg else "not listed", ", a frame going on" if dur else "", fr), lambda m: [m.tt], lambda m: False)
    c.done()
    c = Case(ctx, S, "conversion", "conversion", "ms and s convert ticks by the clock's frequency")
    for fn, k in (("h_ms", 1000), ("h_s", 1)):
        c.go(lambda m: None, fn, lambda m, st, k=k: [] if eq(m.ret, m.A.atom("t") * k / m.A.atom("freq")) else ["gives %s" % m.ret], fn[2:], lambda m: [m.A.atom("t")], lambda m: False)
    c.done()
    c = Case(ctx, S, "scope", "scope", "a traced scope enters once before its body and leaves once after it")
    for fn in ("h_scope_loc", "h_trace"):
        def prep(m, fn=fn):
            m.mem["loc"] = {}
            if fn == "h_trace":
                m.mem["loc"] = {0: (8, ("p", "text", 0)), 8: (8, 5)}
            else:
                put_loc(m, "loc", 0, 60)
            two(m, [0, 0], 1)

            def sink(mm, a, i):
                mm.inside = read_thread(mm, mm.tt)
            m.calls["sink"] = sink
            m.inside = None
            return read_thread(m, m.tt)

        def post(m, st):
            g = read_thread(m, m.tt)
            if m.inside is None:
                return ["the body does not run"]
            out = []
            if m.inside["frames"][1]["cur"] != 2:
                out.append("the body does not run inside the scope")
            if g["frames"][1]["cur"] != 1 or len(g["frames"][1]["nodes"]) != 3:
                out.append("the scope is not left once")
            return out
        c.go(prep, fn, post, fn[2:], lambda m: [("p", "loc", 0)], lambda m: False)
    c.done()


def ending(ctx, S):
    c = Case(ctx, S, "finalizer", "finalizer", "registering a finalizer keeps the earlier ones and adds it last, under the lock")
    for n in range(4):
        def prep(m, n=n):
            put_finalizers(m, n)
            m.mem["fn"] = {0: (8, "fin-new")}

        def post(m, st, n=n):
            k = m.conts[(m.fins[1], m.fins[2])]
            got = [m.mem[k.store].get(j * k.es, (8, None))[1] for j in range(k.n)]
            return [] if got == ["fin%d" % j for j in range(n)] + ["fin-new"] else ["the finalizers are %s" % got]
        c.go(prep, "h_finalizer", post, "%d finalizers" % n, lambda m: [("p", "fn", 0)], lambda m: False)
    c.done()
    c = Case(ctx, S, "finalize", "finalize", "finalizing runs each finalizer once, lists the accounts with no lock held, frees everything, and stops the program exactly when memory has leaked")
    for n in range(3):
        for acct in range(3):
            for reg, dur in ((0, 0), (1, 0), (1, 1)):
                if n == 2 and acct == 2 and reg:
                    continue

                def prep(m, n=n, acct=acct, reg=reg, dur=dur):
                    put_finalizers(m, n)
                    for j in range(acct):
                        put_account(m, "Acc%d" % j, [(("p", "block", 0), m.A.atom("x"))])
                    m.cont(m.allocs, "Map", (16 + S.asize + 7) // 8 * 8)
                    m.cont(m.threads, "Map", 16)
                    put_thread(m, m.tt, "this", reg, dur, [([0], [0], 0)] * reg)
                    m.end_check = lambda mm, n=n, acct=acct: summary(mm, n, acct)
                    return None

                def dies(m):
                    return not zero(m, "net")

                c.go(prep, "h_finalize", lambda m, st: m.end_check(m), "%d finalizers, %d accounts, %s" % (n, acct, ["thread not listed", "thread listed"][reg] + (", in a frame" if dur else "")), None, dies,
                     died=lambda m: m.end_check(m) + ([] if [e[1] for e in m.ev if e[0] == "exit"] == [1] else ["stops with another status"]))
    c.done()


def put_finalizers(m, n):
    k = m.cont(m.fins, "Vec", m.sizes["rpp::detail::Function<4ul, void ()>"])
    k.n = n
    for j in range(n):
        m.mem[k.store][j * k.es] = (8, "fin%d" % j)


def zero(m, name):
    """what this branch knows about a quantity being zero"""
    return m.w.sign_in(m.A.atom(name), {0})


def summary(m, n, acct):
    out = []
    S = m.S
    calls = [e[1] for e in m.ev if e[0] == "call"]
    if calls != ["fin%d" % j for j in range(n)]:
        out.append("calls the finalizers %s" % calls)
    k = m.conts.get((m.fins[1], m.fins[2]))
    if k is not None and k.n:
        out.append("keeps the finalizers")
    for p, what in ((m.threads, "list of threads"), (m.allocs, "accounts")):
        k = m.conts.get((p[1], p[2]))
        if k is not None and k.n:
            out.append("keeps the %s" % what)
    k = m.conts.get((m.tt[1], m.tt[2] + S.t_frames))
    if k is not None and k.n:
        out.append("keeps this thread's frames")
    for e in m.ev:
        if e[0] == "log" and e[2]:
            out.append("logs at %s while holding the %s lock: a log callback that allocates waits for it forever" % (e[4], ", ".join(e[2])))
    seen = [v for e in m.ev if e[0] == "log" for v in e[5]]
    has = lambda v: any(eq(v, x) for x in seen if not isinstance(x, tuple))
    for j in range(acct):
        if ("p", "Acc%d" % j, 0) not in seen:
            out.append("does not name account %d" % j)
        for f in ("allocates", "frees", "high_water", "allocate_size", "free_size"):
            if not has(m.A.atom("Acc%d.%s" % (j, f))):
                out.append("does not list %s of account %d" % (f, j))
        z = zero(m, "Acc%d.current_set_size" % j)
        if has(m.A.atom("Acc%d.current_set_size" % j)) != (not z):
            out.append("warns of an unbalanced account %d although it is balanced" % j if z else "does not warn of an unbalanced account %d" % j)
    for q, what in (("net", "leaked memory"), ("region-size", "leaked region memory"), ("region-depth", "open regions")):
        if has(m.A.atom(q)) != (not zero(m, q)):
            out.append("warns of %s although there is none" % what if zero(m, q) else "does not warn of %s" % what)
    return out
