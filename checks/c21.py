"""Files, sockets and events: descriptors, transfers and results of system calls."""
from build import *
from trace import *
from cont import split_addr
from specs import fld
import polls

OPQ = ["^rpp::Mallocator<", "^rpp::Region_Allocator::(begin|end|alloc|free|depth|size)\\(", "::terminate<", "rpp::String<.*::~String"]
M1 = 2 ** 32 - 1


class SysModel(TraceModel):
    relational = True
    always_ghost = ("S",)
    rel_strides = (1, -1, 8, -8)

    def __init__(self):
        super().__init__()
        nop = lambda e, st, I, a: [(st, None)]
        self.h(r"String_View::terminate<", self.terminate)
        self.h(r"^rpp::String<.*::~String", nop)
        self.h(r"Region_Allocator::begin\(", lambda e, st, I, a: self.region(st, 1))
        self.h(r"Region_Allocator::end\(", lambda e, st, I, a: self.region(st, -1))
        self.h(r"^rpp::Log::sys_error", self.sys_error)
        self.h(r"^rpp::Mallocator<.*::alloc\(", self.alloc)
        self.h(r"^rpp::Mallocator<.*::free\(", nop)
        self.h(r"^__bswap_16$|^htons$|^ntohs$|^llvm\.bswap\.i16", lambda e, st, I, a: [(st, P(term("htons", st.norm(a[0]), nn=True, ub=65535)))])
        self.h(r"^htonl$|^ntohl$|^llvm\.bswap\.i32", lambda e, st, I, a: [(st, ZERO if st.norm(a[0]) == ZERO else P(term("htonl", st.norm(a[0]), nn=True)))])
        for n in ("open", "open64", "socket", "eventfd", "epoll_create1", "timerfd_create"):
            self.scall(n, OK_OR_M1, opens=True)
        for n in ("close", "bind", "stat", "stat64", "epoll_ctl", "fstat"):
            self.scall(n, ZERO_OR_M1)
        self.scall("lseek", OK_OR_M1)
        self.scall("lseek64", OK_OR_M1)
        self.scall("sendto", OK_OR_M1)
        self.scall("epoll_wait", [lambda r: c_eq(r + 1), lambda r: c_eq(r - 1)])
        self.scall("recvfrom", OK_OR_M1)
        self.scall("inet_pton", [lambda r: c_eq(r), lambda r: c_eq(r - 1), lambda r: c_eq(r + 1)])
        for n in ("read", "write"):
            self.scall(n, OK_OR_M1)

    def peel(self, fn, L):
        return True

    def on_load(self, eng, st, base, off, size, ty, inst):
        r = st.ts.get("readyfd")
        if r is not None and base is self.events and size == 4 and inst is not None:
            S = P(st.ts.get("S", ZERO))
            if st.eq0(off - S * 8):
                st.ts["S"] = S + 1
                st.event("look", st.norm(eng.load(st, P(base) + off, 4, "i32")), r)
        return None

    events = None

    def loop_change(self, eng, H, T, k, fn, L):
        if k in ("G", "K", "S"):
            return "ghost"
        if k == "errno":
            return "ok"
        return "no"

    def region(self, st, d):
        st = st.copy()
        st.ts["region"] = st.ts.get("region", 0) + d
        st.event("region", d)
        return [(st, None)]

    def terminate(self, e, st, I, a):
        b, o = split_addr(st.norm(a[1]))
        p = self.word(e, st, st.norm(a[1]), 8, "ptr")
        n = self.word(e, st, st.norm(a[1]) + 8, 8, "i64")
        st = st.copy()
        c = P(term("cstr", p, n, ptr=True))
        db, do = split_addr(st.norm(a[0]))
        for k, v in ((0, c), (8, n + 1), (16, n + 1)):
            e.set_cell(st, db, do + k, 8, v)
        st = st.assume1(c_ge(c - 1)).copy()
        st.event("terminate", c, st.ts.get("region", 0), I)
        return [(st, None)]

    def sys_error(self, e, st, I, a):
        if I["ty"] == "void":
            return [(st, None)]
        return [(st, [P(fresh("msg", ptr=True)), P(fresh("msglen", nn=True))])]

    def word(self, e, st, p, sz, ty):
        return st.norm(e.load(st, p, sz, ty))

    def alloc(self, e, st, I, a):
        out = []
        for s in st.assume(c_eq(a[0])):
            out.append((s.copy(), ZERO))
        for s in st.assume(c_ge(a[0] - 1)):
            b = fresh("heap", ptr=True)
            s = s.assume1(c_ge(P(b) - 1)).copy()
            s.event("alloc", b, s.norm(a[0]), I)
            out.append((s, P(b)))
        return out

    def fail_errno(self, e, s):
        b = term("errno", ptr=True)
        e.set_cell(s, b, ZERO, 4, P(fresh("errno", nn=True)))

    def scall(self, name, outs, opens=False):
        def hd(e, st, I, a):
            r = P(fresh(name))
            a = [st.norm(x) if isinstance(x, Poly) else x for x in a]
            res = []
            for mk_ in outs:
                for s in st.assume(mk_(r)):
                    s = s.copy()
                    bad = s.eq0(r + 1)
                    extra = None
                    if bad:
                        self.fail_errno(e, s)
                    if name in ("read", "write"):
                        extra = (s.ts.get("G", ZERO), s.ts.get("pos", None))
                        if bad:
                            extra += (s.mem[term("errno", ptr=True)].cells[ZERO][1],)
                        if not bad:
                            for s in s.assume(c_ge(a[2] - r)):
                                s = s.copy()
                                s.ts["G"] = P(s.ts.get("G", ZERO)) + r
                                break
                            if name == "read":
                                b, o = split_addr(a[1])
                                if b is not None:
                                    e.havoc(s, b)
                            else:
                                extra += (self.peek(e, s, a[1], a[2]),)
                    if name in ("lseek", "lseek64") and not bad and a[2].is_const():
                        w = a[2].cval()
                        s.ts["pos"] = (a[1] if w == 0 else r) - P(s.ts.get("G", ZERO))
                        if w == 2:
                            s.ts["size"] = r
                    if name in ("open", "open64") and not bad:
                        s.ts["pos"] = ZERO - P(s.ts.get("G", ZERO))
                    if name in ("stat", "stat64", "fstat") and not bad:
                        b, o = split_addr(a[1])
                        e.havoc(s, b)
                        v = P(fresh("mtime", nn=True))
                        e.set_cell(s, b, o + MT, 8, v)
                        z = P(fresh("fsize", nn=True))
                        e.set_cell(s, b, o + SZ, 8, z)
                        s.ts["size"] = z
                        extra = v
                    if name in ("bind", "sendto"):
                        p = a[1] if name == "bind" else a[4]
                        extra = [self.word(e, s, p, 8, "i64")]
                    if name == "recvfrom":
                        extra = self.word(e, s, a[5], 4, "i32")
                        if not bad:
                            b, o = split_addr(a[1])
                            e.havoc(s, b)
                            b, o = split_addr(a[4])
                            src = []
                            for oo, z in ((0, 2), (2, 2), (4, 4), (8, 8)):
                                v = P(fresh("from", nn=True))
                                src.append(v)
                                e.set_cell(s, b, o + oo, z, v)
                            extra = (extra, src)
                    if name == "inet_pton" and s.eq0(r - 1):
                        b, o = split_addr(a[2])
                        v = P(fresh("ip", nn=True))
                        e.set_cell(s, b, o, 4, v)
                        extra = v
                    if name == "epoll_ctl":
                        extra = (s.ts.get("K", ZERO), self.word(e, s, a[3], 4, "i32"), self.word(e, s, a[3] + 4, 4, "i32"))
                        if not bad:
                            s.ts["K"] = P(s.ts.get("K", ZERO)) + 1
                    if name == "epoll_wait":
                        extra = (s.ts.get("K", ZERO), None)
                        if not bad:
                            b, o = split_addr(a[1])
                            v = P(fresh("readyfd"))
                            s.ts["readyfd"] = v
                            s.ts["S"] = ZERO
                            e.set_cell(s, b, o + 4, 4, v)
                            extra = (extra[0], v)
                    s.event("sys", name, a, r, extra, I)
                    res.append((s, r))
            return res
        self.h("^%s$" % name, hd)

    def peek(self, e, s, p, n):
        if n.is_const() and n.cval() == 8:
            b, o = split_addr(p)
            if b is not None and b.op.startswith("alloca"):
                return self.word(e, s, p, 8, "i64")
        return None


MT = SZ = None


def stat_layout():
    global MT, SZ
    p = os.path.join(tmpdir(), "st.cpp")
    open(p, "w").write("#include <sys/stat.h>\nstruct L_st { struct stat s; };\nunsigned long z = sizeof(L_st);\n")
    L = layouts(p)["L_st"]
    MT = [v[0] for k, v in L.items() if k.endswith("st_mtim.tv_sec")][0]
    SZ = [v[0] for k, v in L.items() if k.endswith("st_size")][0]


def same(p, a, b):
    return isinstance(a, Poly) and isinstance(b, (Poly, int)) and p.st.eq0(P(a) - P(b))


def cell(p, addr, sz=8, ty="i64"):
    return p.st.norm(p.eng.load(p.st, p.st.norm(addr), sz, ty))


def failed(p, e):
    return e[3] is not None and p.st.eq0(e[3] + 1)


def interrupted(p, e):
    """the failure is known to be EINTR"""
    c = p.st.mem[term("errno", ptr=True)].cells.get(ZERO) if term("errno", ptr=True) in p.st.mem else None
    return c is not None and p.st.eq0(c[1] - 4)


def genuine(p, e):
    """a failure to report: not a transfer that was merely interrupted"""
    if not failed(p, e):
        return False
    return e[1] not in ("read", "write") or not p.st.assume(c_eq(e[4][2] - 4))


OPENS = ("open", "open64", "socket", "eventfd", "epoll_create1", "timerfd_create")
USES = {"close": 0, "read": 0, "write": 0, "lseek": 0, "lseek64": 0, "fstat": 0, "bind": 0, "recvfrom": 0, "sendto": 0, "epoll_ctl": 0, "epoll_wait": 0}


def descriptors(p, have=(), keep=()):
    """every descriptor is used while open, closed at most once, and open at the end only if it is kept"""
    live = list(have)
    closed = []
    for e in p.of("sys"):
        if e[1] in OPENS and not failed(p, e):
            live.append(e[3])
        elif e[1] in USES:
            x = e[2][USES[e[1]]]
            if any(same(p, x, c) for c in closed):
                return "%s of descriptor %r after it was closed" % (e[1], x)
            m = [l for l in live if same(p, l, x)]
            if not m:
                return "%s of %r, which is not an open descriptor here" % (e[1], x)
            if e[1] == "close":
                live.remove(m[0])
                closed.append(m[0])
    if p.kind == "ret":
        for k in keep:
            m = [l for l in live if same(p, l, k)]
            if not m:
                return "the descriptor that is kept (%r) is not open" % (k,)
            live.remove(m[0])
        if live:
            return "returns while descriptor %r is still open" % (live[0],)
    return None


def region_ok(p):
    d = 0
    for e in p.ev:
        if e[0] == "region":
            d += e[1]
        elif e[0] == "terminate" and d <= 0:
            return "the path is copied outside the region it belongs to"
        elif e[0] == "sys":
            for x in e[2]:
                if isinstance(x, Poly) and any(t.op == "cstr" for t in x.terms()) and d <= 0:
                    return "%s uses a path whose region has ended" % e[1]
    if p.kind == "ret" and d != 0:
        return "a region is left open"


def cstr_arg(p, x, ptr, n):
    return same(p, x, P(term("cstr", ptr, n, ptr=True)))


def transfer(p, name, base, total, fd_args, exact=True):
    """each transfer continues where the last one ended and stays inside the buffer"""
    for e in p.of("sys"):
        if e[1] != name:
            continue
        G, pos = e[4][0], e[4][1]
        want = base(p)
        if want is None or not same(p, e[2][1], want + G):
            return "%s transfers at %r after %r bytes were transferred into %r" % (name, e[2][1], G, want)
        if not p.st.ent(total(p) - P(G) - e[2][2]):
            return "%s asks for %r bytes after %r of %r were transferred" % (name, e[2][2], G, total(p))
        if not same(p, pos, ZERO):
            return "%s transfers at another file position than the start plus what was transferred" % name
    return None


def heap_of(p):
    al = p.of("alloc")
    return P(al[-1][1]) if al else ZERO


def chk_read(L):
    V = fld(L["L_ov"], "value_", 0)

    def chk(p, a):
        o = p.of("sys")
        if not o or o[0][1] not in ("open", "open64"):
            return "the file is not opened first"
        if not cstr_arg(p, o[0][2][0], a[1], a[2]):
            return "opens %r, not the given path" % (o[0][2][0],)
        fl = o[0][2][1]
        if not (fl.is_const() and int(fl.cval()) & 3 == 0 and not int(fl.cval()) & 0x240):
            return "opened with flags %r, not for reading only" % (fl,)
        r = region_ok(p) or descriptors(p)
        if r:
            return r
        if p.kind == "die":
            z = p.st.ts.get("size")
            return None if z is not None and p.st.ent(z - 2 ** 32) else "terminates the program"
        size = p.st.ts.get("size")
        if any(e[1] == "read" for e in o) and size is None:
            return "reads without having sized the file"
        r = transfer(p, "read", heap_of, lambda p: size, None)
        if r:
            return r
        if p.kind != "ret":
            return None
        okv = cell(p, a[0], 1, "i8")
        G = P(p.st.ts.get("G", ZERO))
        fails = [e for e in o if failed(p, e)]
        last = fails[-1] if fails else None
        bad = last is not None and not interrupted(p, last)
        if p.st.eq0(okv):
            if not bad:
                return "reports failure although nothing failed"
            return None if any(genuine(p, e) for e in fails) else "reports failure when a transfer may only have been interrupted (EINTR)"
        if not p.st.eq0(okv - 1):
            return "result does not follow from the system calls"
        if bad and last[1] != "close":
            return "succeeds although %s failed" % last[1]
        if not same(p, cell(p, a[0] + V + 8), G):
            return "the result has length %r, %r bytes were read" % (cell(p, a[0] + V + 8), G)
        if not same(p, cell(p, a[0] + V, 8, "ptr"), heap_of(p)) and not p.st.eq0(G):
            return "the result is not the buffer that was read"
        rd = [e for e in o if e[1] == "read"]
        if not p.st.eq0(G - size) and not (rd and p.st.eq0(rd[-1][3])):
            return "stops after %r of %r bytes without having reached the end" % (G, size)
    return chk


def chk_write(p, a):
    o = p.of("sys")
    if not o or o[0][1] not in ("open", "open64"):
        return "the file is not opened first"
    if not cstr_arg(p, o[0][2][0], a[0], a[1]):
        return "opens %r, not the given path" % (o[0][2][0],)
    fl = o[0][2][1]
    if not fl.is_const() or int(fl.cval()) & 3 not in (1, 2):
        return "the file is not opened for writing (flags %r)" % (fl,)
    if int(fl.cval()) & 0x40 != 0x40 or int(fl.cval()) & 0x200 != 0x200:
        return "the file is not created or its old content not discarded (flags 0x%x)" % int(fl.cval())
    if int(fl.cval()) & 0x80:
        return "an existing file cannot be overwritten (O_EXCL)"
    if len(o[0][2]) < 3 or not o[0][2][2].is_const() or int(o[0][2][2].cval()) & 0o600 != 0o600:
        return "a created file does not get a mode that lets its owner read and write it"
    r = region_ok(p) or descriptors(p)
    if r:
        return r
    if p.kind == "die":
        return "terminates the program"
    r = transfer(p, "write", lambda p: a[2], lambda p: a[3], None)
    if r:
        return r
    if p.kind != "ret":
        return None
    G = P(p.st.ts.get("G", ZERO))
    v = p.st.decide(p.ret if is_cond(p.ret) else c_ne(p.ret))
    if v is True:
        if not p.st.eq0(G - a[3]):
            return "reports success after %r of %r bytes" % (G, a[3])
    elif v is False:
        if not any(failed(p, e) for e in o):
            return "reports failure although nothing failed"
        if not any(genuine(p, e) for e in o):
            return "reports failure when a transfer may only have been interrupted (EINTR)"
    else:
        return "result does not follow from the system calls"


def chk_time(L):
    V = fld(L["L_ot"], "value_", 0)

    def chk(p, a):
        o = p.of("sys")
        if len(o) != 1 or o[0][1] not in ("stat", "stat64"):
            return "the file is not asked for its time once"
        if p.kind != "ret":
            return "terminates the program"
        if not cstr_arg(p, o[0][2][0], a[1], a[2]):
            return "asks about %r, not the given path" % (o[0][2][0],)
        if region_ok(p):
            return region_ok(p)
        okv = cell(p, a[0], 1, "i8")
        if failed(p, o[0]):
            return None if p.st.eq0(okv) else "a time is returned although stat failed"
        if not p.st.eq0(okv - 1) or not same(p, cell(p, a[0] + V), o[0][4]):
            return "does not return the modification time"
    return chk


def chk_before(p, a):
    if p.kind != "ret" or p.of("sys"):
        return "unexpected effects"
    v = p.ret if is_cond(p.ret) else c_ne(p.ret)
    for want, c in ((True, c_ge(a[1] - a[0] - 1)), (False, c_ge(a[0] - a[1]))):
        for s in p.st.assume(c):
            if s.decide(v) is not want:
                return "%r before %r is not %r" % (a[0], a[1], want)


def chk_poll(L):
    W = L["L_ww"]
    tw = [v[0] for k, v in W.items() if k.endswith("last_write_time_")][0]

    def chk(p, a):
        old = p.st.norm(p.old[0])
        o = p.of("sys")
        if p.kind != "ret":
            return "does not return"
        v = p.st.decide(p.ret if is_cond(p.ret) else c_ne(p.ret))
        new = cell(p, a[0] + tw)
        if not o:
            return None if v is False and p.st.eq0(p.old[1]) and same(p, new, old) else "the file is not examined"
        if len(o) != 1 or not cstr_arg(p, o[0][2][0], p.old[2], p.old[1]):
            return "examines something else than the watched path"
        if failed(p, o[0]):
            return None if v is False and same(p, new, old) else "reports or records a change although the file could not be examined"
        t = o[0][4]
        if not same(p, new, t):
            return "does not remember the time it saw"
        c = p.ret if is_cond(p.ret) else c_ne(p.ret)
        for want, cc in ((True, c_ge(t - old - 1)), (False, c_ge(old - t))):
            for s in p.st.assume(cc):
                if s.decide(c) is not want:
                    return "reports %s when the file is %s" % (not want, "newer" if want else "not newer")
    return chk


def chk_watch(L):
    W = L["L_ww"]
    g = lambda s: [v[0] for k, v in W.items() if k.endswith(s)][0]

    def chk(p, a):
        o = p.of("sys")
        if p.kind != "ret":
            return "does not return"
        if not same(p, cell(p, a[0] + g("path_.data_"), 8, "ptr"), a[1]) or not same(p, cell(p, a[0] + g("path_.length_")), a[2]):
            return "does not watch the given path"
        t = cell(p, a[0] + g("last_write_time_"))
        if not o:
            return None if p.st.eq0(a[2]) and p.st.eq0(t) else "the file is not examined"
        if len(o) != 1 or o[0][1] not in ("stat", "stat64") or not cstr_arg(p, o[0][2][0], a[1], a[2]):
            return "examines something else than the watched path"
        if failed(p, o[0]):
            return None if p.st.eq0(t) else "a file that could not be examined is not left as never written"
        return None if same(p, t, o[0][4]) else "does not start from the file's present modification time"
    return chk


def chk_addr(ip):
    def chk(p, a):
        o = p.of("sys")
        if p.kind == "again":
            return "unexpected loop"
        port = a[-1]
        if ip:
            if len(o) != 1 or o[0][1] != "inet_pton" or not p.st.eq0(o[0][2][0] - 2) or not cstr_arg(p, o[0][2][1], a[1], a[2]):
                return "the address text is not parsed once, as an IPv4 address"
            if region_ok(p):
                return region_ok(p)
            r = o[0][3]
            if p.kind == "die":
                return "terminates on a valid address" if p.st.eq0(r - 1) else None
            if not p.st.eq0(r - 1):
                return "continues with an address that was not parsed"
            want = o[0][4]
        else:
            if p.kind != "ret" or o:
                return "unexpected effects"
            want = ZERO
        if not p.st.eq0(cell(p, a[0], 2, "i16") - 2):
            return "family is %r" % (cell(p, a[0], 2, "i16"),)
        if not same(p, cell(p, a[0] + 2, 2, "i16"), P(term("htons", port, nn=True, ub=65535))):
            return "port is stored as %r" % (cell(p, a[0] + 2, 2, "i16"),)
        if not same(p, cell(p, a[0] + 4, 4, "i32"), want):
            return "address is stored as %r, expected %r" % (cell(p, a[0] + 4, 4, "i32"), want)
    return chk


def fd_of(p, x):
    return cell(p, x, 4, "i32")


def is_m1(p, v):
    return p.st.eq0(v + 1) or p.st.eq0(v - M1)


def chk_make(call, args, after=None):
    """a constructor: one call that creates the descriptor, which is kept; the program ends if it fails"""
    def chk(p, a):
        o = p.of("sys")
        if len(o) != 1 or o[0][1] != call:
            return "%s expected once, found %s" % (call, [e[1] for e in o])
        r = args(p, o[0][2])
        if r:
            return r
        if p.kind == "die":
            return None if failed(p, o[0]) else "terminates although %s succeeded" % call
        if failed(p, o[0]):
            return "continues after %s failed" % call
        fd = fd_of(p, a[0])
        if not same(p, fd, o[0][3]):
            return "keeps %r instead of the descriptor" % (fd,)
        return after(p, a) if after else None
    return chk


def chk_close(p, a):
    """destruction closes an owned descriptor once"""
    o = p.of("sys")
    had = p.old[0]
    if p.kind == "die":
        return None if any(failed(p, e) for e in o) else "terminates the program"
    if is_m1(p, had):
        return "closes an empty handle" if o else None
    if not p.st.ne0(had + 1):
        return "closing does not depend on whether a descriptor is held"
    if [e[1] for e in o] != ["close"] or not same(p, o[0][2][0], had):
        return "calls %s, expected close of %r" % ([(e[1], e[2]) for e in o], had)


def chk_move(assign, mask=None):
    def chk(p, a):
        o = p.of("sys")
        mine, theirs = p.old[0], p.old[1]
        if p.kind == "die":
            return None if any(failed(p, e) for e in o) else "terminates the program"
        if assign and p.st.eq0(a[0] - a[1]):
            closed = [e for e in o if e[1] == "close"]
            if len(o) > 1 or len(closed) != len(o) or closed and not same(p, closed[0][2][0], mine):
                return "self assignment calls %s" % [(e[1], e[2]) for e in o]
            if not (is_m1(p, fd_of(p, a[0])) if closed else same(p, fd_of(p, a[0]), mine)):
                return "self assignment leaves another descriptor"
            return None
        if assign:
            if is_m1(p, mine):
                if o:
                    return "closes an empty handle"
            elif not p.st.ne0(mine + 1):
                return "closing does not depend on whether a descriptor is held"
            elif [e[1] for e in o] != ["close"] or not same(p, o[0][2][0], mine):
                return "the descriptor that was held is not closed once: %s" % [(e[1], e[2]) for e in o]
        elif o:
            return "calls %s" % o[0][1]
        if not same(p, fd_of(p, a[0]), theirs):
            return "does not take over the descriptor"
        if not is_m1(p, fd_of(p, a[1])):
            return "the source still holds the descriptor"
        if mask is not None and not same(p, fd_of(p, a[0] + mask), p.old[2]):
            return "does not take over the event mask"
    return chk


def addr_same(p, got, want):
    return all(same(p, g, w) for g, w in zip(got, want))


def chk_bind(p, a):
    o = p.of("sys")
    if len(o) != 1 or o[0][1] != "bind" or not same(p, o[0][2][0], p.old[0]):
        return "the socket is not bound once"
    if not addr_same(p, o[0][4], p.old[1]) or not p.st.eq0(o[0][2][2] - 16):
        return "bound to %r, not to the given address" % (o[0][4],)
    if p.kind == "die":
        return None if failed(p, o[0]) else "terminates although bind succeeded"
    if failed(p, o[0]):
        return "continues after bind failed"


def chk_recv(L):
    V = fld(L["L_od"], "value_", 0)

    def chk(p, a):
        o = p.of("sys")
        if p.kind != "ret":
            return "terminates the program or loops"
        if len(o) != 1 or o[0][1] != "recvfrom":
            return "receives %d times" % len(o)
        g = o[0][2]
        if not same(p, g[0], p.old[0]):
            return "receives from %r, not from its socket" % (g[0],)
        if not same(p, g[1], a[2]) or not p.st.ent(P(1472) - g[2]):
            return "receives up to %r bytes at %r: outside the packet" % (g[2], g[1])
        if not p.st.eq0(g[2] - 1472):
            return "receives only up to %r bytes" % (g[2],)
        if not (g[3].is_const() and int(g[3].cval()) & 0x40):
            return "may block"
        if int(g[3].cval()) & 2:
            return "leaves the packet in the queue"
        ln = o[0][4] if failed(p, o[0]) else o[0][4][0]
        if not p.st.eq0(ln - 16):
            return "the size of the address buffer is given as %r" % (ln,)
        okv = cell(p, a[0], 1, "i8")
        if failed(p, o[0]):
            return None if p.st.eq0(okv) else "reports a packet although none was received"
        if not p.st.eq0(okv - 1):
            return "drops a packet that was received"
        if not same(p, cell(p, a[0] + V), o[0][3]):
            return "length is %r, received %r" % (cell(p, a[0] + V), o[0][3])
        src = o[0][4][1]
        got = [cell(p, a[0] + V + 8, 2, "i16"), cell(p, a[0] + V + 10, 2, "i16"), cell(p, a[0] + V + 12, 4, "i32")]
        if not addr_same(p, got, src):
            return "the sender is reported as %r, expected %r" % (got, src[:3])
    return chk


def chk_send(p, a):
    o = p.of("sys")
    if len(o) != 1 or o[0][1] != "sendto":
        return "sends %d times" % len(o)
    g = o[0][2]
    if not same(p, g[0], p.old[0]) or not same(p, g[1], a[2]) or not same(p, g[2], a[3]):
        return "sends %r bytes at %r on %r" % (g[2], g[1], g[0])
    if not addr_same(p, o[0][4], p.old[1]) or not p.st.eq0(g[5] - 16):
        return "sent to %r, not to the given address" % (o[0][4],)
    if p.kind == "die":
        return None if failed(p, o[0]) else "terminates although the packet was sent"
    if failed(p, o[0]):
        return "continues after sending failed"
    if p.kind != "ret" or not same(p, p.ret, o[0][3]):
        return "returns %r, sent %r" % (p.ret, o[0][3])


def flags_have(n, bits, what):
    def f(p, g):
        if not g[n].is_const() or int(g[n].cval()) & bits != bits:
            return "%s: flags %r" % (what, g[n])
    return f


def chk_ev_args(p, g):
    if not p.st.eq0(g[0]):
        return "a new event is already signalled"
    return flags_have(1, 0o4000 | 0o2000000, "the event is not close-on-exec and non-blocking")(p, g)


def ev_mask(p, a):
    m = fd_of(p, a[0] + 4)
    return None if m.is_const() and int(m.cval()) & 1 else "the event does not wait for readability (mask %r)" % (m,)


def chk_sock_args(p, g):
    if not (p.st.eq0(g[0] - 2) and g[1].is_const() and int(g[1].cval()) & 15 == 2):
        return "socket(%r, %r) is not an IPv4 datagram socket" % (g[0], g[1])


def chk_of_sys(p, a):
    if p.kind != "ret" or p.of("sys"):
        return "unexpected effects"
    if not same(p, fd_of(p, a[0]), a[1]) or not same(p, fd_of(p, a[0] + 4), a[2]):
        return "does not hold the given descriptor and mask"


def chk_rw_event(call):
    def chk(p, a):
        o = p.of("sys")
        if p.kind == "again":
            return None if failed(p, o[-1]) and interrupted(p, o[-1]) else "unexpected loop"
        o = [e for e in o if not (failed(p, e) and e is not o[-1])]
        if not o or o[-1][1] != call or not same(p, o[-1][2][0], p.old[0]) or not p.st.eq0(o[-1][2][2] - 8) or len(o) != 1:
            return "%s of eight bytes on the event expected once, found %s" % (call, [(e[1], e[2]) for e in o])
        if call == "write" and not failed(p, o[-1]) and not (len(o[-1][4]) > 2 and o[-1][4][2] is not None and p.st.ent(o[-1][4][2] - 1) and p.st.ent(P(2 ** 32) - o[-1][4][2])):
            return "the value added to the event is %r" % (o[-1][4][2:],)
        if p.kind == "die":
            return None if failed(p, o[-1]) else "terminates although %s succeeded" % call
        if failed(p, o[-1]):
            return "continues after %s failed" % call
    return chk


def chk_try_wait(p, a):
    if p.kind != "ret":
        return "does not return"
    if any(e[1] in ("read", "close") for e in p.of("sys")):
        return "consumes the event"
    v = p.st.decide(p.ret if is_cond(p.ret) else c_ne(p.ret))
    if v is not False and not p.of("sys"):
        return "reports a signal without looking"


def chk_wait_any(p, a):
    ev = lambda i: cell(p, a[0] + i * 8, 4, "i32")
    o = p.of("sys")
    if not o or o[0][1] != "epoll_create1":
        return "no epoll instance is created"
    r = descriptors(p)
    if r:
        return r
    if any(e[1] not in ("epoll_create1", "epoll_ctl", "epoll_wait", "close") for e in o):
        return "unexpected system call"
    for e in o:
        if e[1] == "epoll_ctl":
            K = P(e[4][0])
            if not same(p, e[2][0], o[0][3]) or not p.st.eq0(e[2][1] - 1):
                return "epoll_ctl does not add to the instance"
            if not same(p, e[2][2], ev(K)) or not same(p, e[4][2], ev(K)):
                return "after adding %r events, descriptor %r is added under the name %r" % (K, e[2][2], e[4][2])
            if not same(p, e[4][1], cell(p, a[0] + K * 8 + 4, 4, "i32")):
                return "event is added with mask %r, its own is another" % (e[4][1],)
            if not p.st.ent(a[1] - K - 1):
                return "adds an event beyond the given ones"
        elif e[1] == "epoll_wait":
            if not same(p, e[4][0], a[1]):
                return "waits after adding %r of %r events" % (e[4][0], a[1])
            if not p.st.eq0(e[2][3] + 1) and not p.st.eq0(e[2][3] - M1):
                return "waits with a time limit"
    w = [e for e in o if e[1] == "epoll_wait"]
    if p.kind == "die":
        if not o or not failed(p, o[-1]):
            S = P(p.st.ts.get("S", ZERO))
            if w and p.st.eq0(S - a[1]):
                return None  # no event matches: the kernel never reports one that was not added
            return "terminates although nothing failed"
        if o[-1][1] == "epoll_wait":
            c = p.st.mem[term("errno", ptr=True)].cells.get(ZERO)
            if not p.st.ne0(c[1] - 4):
                return "terminates when the wait is interrupted by a signal"
        return None
    if p.kind == "again":
        for e in p.of("look"):
            if p.st.ts.get("S") is not None and not p.st.ne0(e[1] - e[2]):
                return "passes over an event that is ready"
        return None
    if not w or failed(p, w[-1]):
        return "returns without a ready event"
    x = ev(p.ret)
    if not same(p, x, w[-1][4][1]):
        return "returns index %r, whose descriptor is not the ready one" % (p.ret,)
    if not p.st.ent(a[1] - p.ret - 1):
        return "returns an index outside the given events"


class Aside:
    """collects the outcome of a generic argument that a bounded one already backs"""

    def __init__(self, ctx):
        self.ctx, self.oks, self.no = ctx, 0, []

    def ok(self, *a):
        self.oks += 1

    def bad(self, name, key, text):
        self.no.append(text)

    def undecided(self, name, text):
        self.no.append(text)

    fail = undecided

    def count(self, *a):
        self.ctx.count(*a)


def run(ctx, mod, L, name, chk, prep):
    fn = mod.fns.get(name)
    if fn is None or fn.blocks is None:
        return ctx.fail("harness function %s vanished" % name)
    model = SysModel()
    old = []

    def pr(eng, st, a):
        st.ts["G"] = ZERO
        st.ts["K"] = ZERO
        if name == "h_ev_wait_any":
            model.events = split_addr(a[0])[0]
        if prep:
            r = prep(eng, st, a, old)
            return r
        return st
    try:
        eng, a, ps = traces(mod, model, name, pr)
    except (AnalysisError, NeedSplit) as e:
        return ctx.undecided(name, str(e)[:300])
    if not any(p.kind == "ret" for p in ps):
        ctx.undecided(name, "no returning path")
    ctx.count("paths", len(ps))
    for p in ps:
        p.eng, p.old = eng, old
        try:
            r = chk(p, a)
        except (AnalysisError, NeedSplit) as e:
            ctx.undecided(name, str(e)[:200])
            continue
        if r:
            ctx.bad(name, "%s:%s" % (name[2:], r[:70]), "%s: %s at %s\n  path (%s): %s" % (mod_name(mod, name), r, p.where(), p.kind, p.show()[:900]))
        else:
            ctx.ok(name)
    for f in eng.inlined if hasattr(eng, "inlined") else ():
        ctx.count("functions")


def mod_name(mod, n):
    return {"h_read": "Files::read", "h_write": "Files::write", "h_time": "Files::last_write_time", "h_poll": "Files::Write_Watcher::poll", "h_watch": "Files::Write_Watcher::Write_Watcher"}.get(n, n[2:])


def word(eng, st, p, sz=4, ty="i32"):
    return eng.load(st, p, sz, ty)


def object_prep(*offs):
    """remember the initial contents: offs = (argument, offset, size, type)"""
    def pr(eng, st, a, old):
        for x, o, z, t in offs:
            old.append(word(eng, st, a[x] + o, z, t))
        return st
    return pr


def with_addr(n):
    def pr(eng, st, a, old):
        old.append(word(eng, st, a[0]))
        old.append([word(eng, st, a[n], 8, "i64")])
        return st
    return pr


def check(ctx):
    ctx.level = "proof"
    stat_layout()
    mod = harness("sys", OPQ)
    L = layouts(os.path.join(VERIF, "harness", "sys.cpp"))
    fdo = object_prep((0, 0, 4, "i32"))
    two = object_prep((0, 0, 4, "i32"), (1, 0, 4, "i32"), (1, 4, 4, "i32"))
    W = L["L_ww"]
    g = lambda s: [v[0] for k, v in W.items() if k.endswith(s)][0]
    T = [
        ("h_read", chk_read(L), None), ("h_write", chk_write, None), ("h_time", chk_time(L), None), ("h_before", chk_before, None),
        ("h_poll", chk_poll(L), object_prep((0, g("last_write_time_"), 8, "i64"), (0, g("path_.length_"), 8, "i64"), (0, g("path_.data_"), 8, "ptr"))),
        ("h_watch", chk_watch(L), None), ("h_addr_port", chk_addr(False), None), ("h_addr_ip", chk_addr(True), None),
        ("h_udp_ctor", chk_make("socket", chk_sock_args), None), ("h_udp_dtor", chk_close, fdo),
        ("h_udp_move", chk_move(False), two), ("h_udp_assign", chk_move(True), two),
        ("h_udp_bind", chk_bind, with_addr(1)), ("h_udp_recv", chk_recv(L), object_prep((1, 0, 4, "i32"))),
        ("h_udp_send", chk_send, with_addr(1)),
        ("h_ev_ctor", chk_make("eventfd", chk_ev_args, ev_mask), None), ("h_ev_dtor", chk_close, fdo),
        ("h_ev_move", chk_move(False, 4), two), ("h_ev_assign", chk_move(True, 4), two), ("h_ev_of_sys", chk_of_sys, None),
        ("h_ev_signal", chk_rw_event("write"), fdo), ("h_ev_reset", chk_rw_event("read"), fdo), ("h_ev_try_wait", chk_try_wait, fdo),
        ("h_ev_wait_any", chk_wait_any, None),
    ]
    for n, c, pr in T:
        if n != "h_ev_wait_any":
            run(ctx, mod, L, n, c, pr)
            continue
        # every outcome for a few counts decides; the argument for any number of events extends it where it applies
        if polls.wait_any(ctx, mod, n) != {}:
            continue
        g = Aside(ctx)
        run(g, mod, L, n, c, pr)
        if g.no:
            ctx.count("event waits decided for the listed numbers of events only")
        else:
            for k in range(g.oks):
                ctx.ok(n)
            ctx.count("event waits decided for any number of events")
    ctx.floor("operations", len(T), 24)
    ctx.floor("paths checked", ctx.cov.get("paths", 0), 60)
    ctx.explanation = ("Every path through the file, socket and event operations, loops by a first and a generic iteration with the number of bytes "
                       "transferred so far tracked as a ghost; every result and error of the system calls.")
