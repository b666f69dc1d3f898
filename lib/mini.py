"""Value flow over opaque library objects: vectors, queues and maps are lists of elements known by their contracts, locks are a
set of held mutexes, the clock and the log are recorded calls.  Growing a container relocates its elements, so a reference kept
across growth is found; every access to guarded memory is recorded with the locks held at that moment."""
import re
from build import *
from flow import *
from alg import *

OPAQUE = ["rpp::Vec<", "rpp::Queue<", "rpp::Map<", "^rpp::Thread::(Mutex|perf_|this_id)", "rpp::Log::output", "rpp::Log::log<", "rpp::Log::debug_break",
          "^rpp::detail::Function<", "rpp::Log::Location::operator==", "rpp::String_View::operator==", "rpp::sys_net_allocs", "rpp::Region_Allocator::", "rpp::Libc::"]


class Bad(Exception):
    def __init__(self, rule, msg):
        self.rule, self.msg = rule, msg


class Cont:
    """an opaque container: its elements live in one storage object"""

    def __init__(self, kind, es, store):
        self.kind, self.es, self.store = kind, es, store
        self.n = 0
        self.keys = []          # maps: the keys as values
        self.cap = None
        self.dead = False


def short(dem):
    """class and method of a demangled name"""
    s = re.sub(r"\{.*?\}+", "", dem)
    out, d = [], 0
    s = s.replace("operator->", "operator_arrow").replace("operator<=>", "operator_spaceship").replace("operator<<", "operator_shl").replace("operator<", "operator_lt")
    s = s.replace("operator()", "operator_call")
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            if ch == "(":
                break
            out.append(ch)
    parts = "".join(out).split(" ")
    return parts[-1] if parts[-1] and not parts[-1].startswith("requires") else parts[0]


def first_arg(dem, cls):
    """the first template argument of cls in a demangled name"""
    i = dem.index(cls + "<") + len(cls) + 1
    out, d = "", 0
    for ch in dem[i:]:
        if ch in "<({":
            d += 1
        elif ch in ">)}":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            break
        out += ch
    return out.strip()


def args_of(dem, cls):
    i = dem.index(cls + "<") + len(cls) + 1
    out, d, cur = [], 0, ""
    for ch in dem[i:]:
        if ch in "<({":
            d += 1
        elif ch in ">)}":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        cur += ch
    return out + [cur.strip()]


class Mini(Flow):
    iw = 64

    def __init__(self, mod, world, sizes, ctors=None, guards=None):
        super().__init__(mod, world)
        self.sizes, self.ctors = sizes, ctors or {}
        self.conts = {}             # (object, offset) -> Cont
        self.held = []
        self.ev = []
        self.nclock = 0
        self.ns = 0
        self.dead = set()
        self.objdead = {}
        self.guards = guards        # f(machine, object, offset, "r"/"w"/"c")
        self.lk = {}                # name of a mutex by address
        self.setup = True
        self.handlers = [
            (r"^rpp::Thread::Mutex::lock\(", self.h_lock), (r"^rpp::Thread::Mutex::unlock\(", self.h_unlock),
            (r"^rpp::Thread::Mutex::try_lock\(", self.h_nope),
            (r"^rpp::Thread::Mutex::~?Mutex\(", lambda a, i, d: None),
            (r"^rpp::Thread::perf_counter\(", self.h_clock), (r"^rpp::Thread::perf_frequency\(", lambda a, i, d: self.A.atom("freq")),
            (r"^rpp::Thread::this_id\(", lambda a, i, d: ("p", "thread-id", 0)),
            (r"rpp::Log::Location::operator==\(", self.h_eqmem(40)), (r"rpp::String_View::operator==\(", self.h_eqmem(16)),
            (r"rpp::Log::log<", self.h_log), (r"^rpp::Log::debug_break\(", self.h_break), (r"^rpp::Libc::exit\(", self.h_exit),
            (r"^rpp::Libc::strlen\(", self.h_strlen),
            (r"^rpp::Libc::memcmp\(", self.h_memcmp),
            (r"rpp::Map<.*::Iterator<", self.h_mapiter), (r"rpp::Map<", self.h_map),
            (r"rpp::(Vec|Queue)<", self.h_seq),
            (r"^rpp::detail::Function<", self.h_function),
            (r"rpp::sys_net_allocs\(", lambda a, i, d: self.A.atom("net")),
            (r"rpp::Region_Allocator::size\(", lambda a, i, d: self.A.atom("region-size")),
            (r"rpp::Region_Allocator::depth\(", lambda a, i, d: self.A.atom("region-depth")),
            (r"^__tls_init$", lambda a, i, d: None),
        ]

    # ---- memory
    def glob(self, name):
        o = "@" + name
        if o not in self.mem:
            g = self.mod.globals.get(name)
            self.mem[o] = {}
            if g is not None and g.get("init"):
                try:
                    self.init(o, 0, g["init"])
                except AnalysisError:
                    self.mem[o] = {}
        return o

    def access(self, o, off, mode):
        if o in self.dead:
            raise Bad("stale", "%s a reference into a container that has grown, shrunk or gone since" % {"r": "reads through", "w": "writes through", "c": "uses"}[mode])
        if self.guards and not self.setup:
            self.guards(self, o, off, mode)

    def get(self, o, off, n):
        self.access(o, off, "r")
        return super().get(o, off, n)

    def put(self, o, off, n, v):
        self.access(o, off, "w")
        super().put(o, off, n, v)

    # ---- containers
    def cont(self, p, kind=None, es=None):
        if p[0] != "p":
            raise AnalysisError("a container at %s" % (p,))
        k = (p[1], p[2])
        self.access(p[1], p[2], "c")
        if k not in self.conts:
            if kind is None:
                raise AnalysisError("no container at %s" % (k,))
            self.ns += 1
            st = "E%d" % self.ns
            self.mem[st] = {}
            self.conts[k] = Cont(kind, es, st)
        c = self.conts[k]
        if kind and c.es is None:
            c.es, c.kind = es, kind
        return c

    def relocate(self, c):
        """growth may move every element"""
        self.ns += 1
        st = "E%d" % self.ns
        old = c.store
        self.mem[st] = {}
        self.carry(old, 0, st, 0, None)
        self.dead.add(old)
        c.store = st

    def carry(self, so, soff, do, doff, n):
        """the cells and containers of a range move"""
        for k, (z, v) in sorted(self.mem[so].items()):
            if k >= soff and (n is None or k + z <= soff + n):
                self.mem[do][k - soff + doff] = (z, v)
        for (o, k) in [x for x in self.conts if x[0] == so]:
            if k >= soff and (n is None or k < soff + n):
                self.conts[(do, k - soff + doff)] = self.conts.pop((o, k))

    def copy_cells(self, so, soff, do, doff, n):
        for k in [k for k in self.mem[do] if doff <= k < doff + n]:
            del self.mem[do][k]
        for k, (z, v) in sorted(self.mem[so].items()):
            if k >= soff and k + z <= soff + n:
                self.mem[do][k - soff + doff] = (z, v)

    def at(self, c, i):
        if not isinstance(i, int):
            raise AnalysisError("an element at a symbolic position")
        if i >= c.n:
            raise Bad("bounds", "takes element %d of %d" % (i, c.n))
        return ("p", c.store, i * c.es)

    def append(self, c, src=None, value=None, move=True):
        self.relocate(c)
        p = ("p", c.store, c.n * c.es)
        c.n += 1
        if src is not None:
            if move:
                conts = [(o, k) for (o, k) in self.conts if o == src[1] and src[2] <= k < src[2] + c.es]
                self.copy_cells(src[1], src[2], c.store, p[2], c.es)
                for o, k in conts:
                    self.conts[(c.store, k - src[2] + p[2])] = self.conts.pop((o, k))
                    self.conts[(o, k)] = self.blank(self.conts[(c.store, k - src[2] + p[2])])
            else:
                self.copy_cells(src[1], src[2], c.store, p[2], c.es)
        return p

    def blank(self, like):
        self.ns += 1
        self.mem["E%d" % self.ns] = {}
        return Cont(like.kind, like.es, "E%d" % self.ns)

    def cut_front(self, c):
        self.ns += 1
        st = "E%d" % self.ns
        self.mem[st] = {}
        self.carry(c.store, c.es, st, 0, (c.n - 1) * c.es)
        self.dead.add(c.store)
        c.store = st
        c.n -= 1

    def cut_at(self, c, i):
        self.ns += 1
        st = "E%d" % self.ns
        self.mem[st] = {}
        self.carry(c.store, 0, st, 0, i * c.es)
        self.carry(c.store, (i + 1) * c.es, st, i * c.es, (c.n - i - 1) * c.es)
        self.dead.add(c.store)
        c.store = st
        c.n -= 1

    def elem_size(self, t):
        t = t.strip()
        if t.endswith("*") or t.startswith("rpp::Ref<"):
            return 8
        s = {"unsigned long": 8, "unsigned long long": 8, "long": 8, "long long": 8, "unsigned int": 4, "int": 4, "unsigned char": 1}.get(t)
        if s is None:
            s = self.sizes.get(t) or self.sizes.get(re.sub(r"\s", "", t))
        if s is None:
            for k, v in self.sizes.items():
                if re.sub(r"\s|struct|ul\b", "", k) == re.sub(r"\s|struct|ul\b", "", t):
                    s = v
        if s is None and t.startswith("rpp::detail::Function<"):
            s = next((v for k, v in self.sizes.items() if k.startswith(t[:t.index(",")].replace("ul", "")) or k.startswith(t[:t.index(",")])), None)
        if s is None:
            raise AnalysisError("the size of %s" % t[:80])
        return s

    def construct(self, t, p):
        """default construction of an element"""
        f = self.ctors.get(t)
        if f is None:
            raise AnalysisError("construction of a %s" % t[:60])
        if f == "zero":
            for k in range(0, self.elem_size(t), 8):
                self.put(p[1], p[2] + k, 8, 0)
            return
        self.run(self.mod.fns[f], [p])

    def h_seq(self, a, i, d):
        kind = "Queue" if "rpp::Queue<" in d and ("rpp::Vec<" not in d or d.index("rpp::Queue<") < d.index("rpp::Vec<")) else "Vec"
        cls = "rpp::" + kind
        t = first_arg(d, cls)
        name = short(d)
        m = name.split("::")[-1]
        es = self.elem_size(t)
        sret = i["ty"] == "void"
        if m == kind and len(a) == 1:
            self.conts.pop((a[0][1], a[0][2]), None)
            self.cont(a[0], kind, es)
            return None
        if m == kind and len(a) == 2 and "&&" in d.split("(")[-1]:
            src = self.cont(a[1], kind, es)
            self.conts[(a[0][1], a[0][2])] = src
            self.conts[(a[1][1], a[1][2])] = self.blank(src)
            return None
        c = self.cont(a[0], kind, es)
        if m in ("push", "emplace", "pop", "clear", "reserve", "grow", "operator=", "~" + kind):
            self.access(a[0][1], a[0][2], "w")
        if m == "~" + kind:
            self.note("drop", a[0])
            self.dead.add(c.store)
            self.conts.pop((a[0][1], a[0][2]))
            return None
        if m == "operator=":
            src = self.cont(a[1], kind, es)
            self.note("assign", a[0])
            self.dead.add(c.store)
            self.conts[(a[0][1], a[0][2])] = src
            self.conts[(a[1][1], a[1][2])] = self.blank(src)
            return a[0]
        if m in ("push", "emplace"):
            rv = d.rstrip().split("(")[-1]
            if m == "push":
                p = self.append(c, a[1], move="&&" in d.split("push(")[-1])
            elif len(a) == 1:
                p = self.append(c)
                self.construct(t, p)
            elif len(a) == 2:
                p = self.append(c, a[1])
            else:
                raise AnalysisError("emplace of %s with %d arguments" % (t[:40], len(a) - 1))
            self.note("push", a[0], p)
            return p
        if m == "pop":
            if c.n == 0:
                raise Bad("bounds", "pops an empty container")
            self.note("pop", a[0])
            if kind == "Queue":
                self.cut_front(c)
            else:
                c.n -= 1
            return None
        if m == "clear":
            self.note("clear", a[0])
            c.n = 0
            self.relocate(c)
            return None
        if m == "reserve" or m == "grow":
            self.relocate(c)
            return None
        if m == "length":
            return c.n
        if m == "empty":
            return int(c.n == 0)
        if m == "full":
            if c.cap is None:
                c.cap = c.n if self.w.choose(2) else c.n + 1
            return int(c.n >= c.cap)
        if m in ("front", "back", "penultimate"):
            k = {"front": 0, "back": c.n - 1, "penultimate": c.n - 2}[m]
            if k < 0:
                raise Bad("bounds", "takes %s of %d" % (m, c.n))
            return self.at(c, k)
        if m == "operator[]":
            return self.at(c, a[1])
        if m in ("begin", "data") and kind == "Vec":
            return ("p", c.store, 0)
        if m == "end" and kind == "Vec":
            return ("p", c.store, c.n * c.es)
        raise AnalysisError("%s::%s" % (kind, m))

    # ---- maps: an element is a pair at its place in the storage
    def mapinfo(self, d):
        return self.pairinfo(*args_of(d, "rpp::Map")[:2])

    def pairinfo(self, k, v):
        ks, vs = self.elem_size(k), self.elem_size(v)
        al = min(8, vs) if vs in (1, 2, 4) else 8
        al = 16 if "rpp::detail::Function<" in v else al
        vo = (ks + al - 1) // al * al
        es = max(al, 8)
        return k, v, ks, vs, vo, (vo + vs + es - 1) // es * es

    def keyval(self, p, ks):
        return tuple(self.get(p[1], p[2] + k, 8) for k in range(0, ks, 8))

    def find(self, c, key):
        for j, k in enumerate(c.keys):
            if k == key:
                return j
        return None

    def h_map(self, a, i, d):
        k, v, ks, vs, vo, es = self.mapinfo(d)
        m = short(d).split("::")[-1]
        if m == "Map" and len(a) == 1:
            self.conts.pop((a[0][1], a[0][2]), None)
            self.cont(a[0], "Map", es)
            return None
        if m == "Map" and len(a) == 2:
            src = self.cont(a[1], "Map", es)
            self.note("taken", a[1])
            self.conts[(a[0][1], a[0][2])] = src
            self.conts[(a[1][1], a[1][2])] = self.blank(src)
            return None
        base = a[0]
        if i["ty"] == "void" and m in ("try_get",):
            base = a[1] if len(a) == 3 else a[0]
        c = self.cont(base, "Map", es)
        if m == "~Map":
            self.note("drop", a[0])
            self.dead.add(c.store)
            self.conts[(a[0][1], a[0][2])] = self.blank(c)
            return None
        if m == "operator=":
            src = self.cont(a[1], "Map", es)
            self.note("assign", a[0])
            self.dead.add(c.store)
            self.conts[(a[0][1], a[0][2])] = src
            self.conts[(a[1][1], a[1][2])] = self.blank(src)
            return a[0]
        if m in ("begin", "end"):
            return [base, 0 if m == "begin" else c.n]
        if m == "empty":
            return int(c.n == 0)
        if m == "length":
            return c.n
        if m == "clear":
            self.note("clear", a[0])
            c.n, c.keys = 0, []
            self.relocate(c)
            return None
        key = self.keyval(a[-1] if m != "insert" else a[1], ks)
        j = self.find(c, key)
        if m == "contains":
            return int(j is not None)
        if m in ("get", "operator[]"):
            if j is None:
                raise Bad("bounds", "takes an entry the map does not have")
            return ("p", c.store, j * es + vo)
        if m == "try_get":
            if i["ty"] != "void":
                raise AnalysisError("try_get returning %s" % i["ty"])
            out = a[0]
            self.put(out[1], out[2], 1, int(j is not None))
            if j is not None:
                self.put(out[1], out[2] + 8, 8, ("p", c.store, j * es + vo))
            return None
        if m in ("insert", "get_or_insert"):
            if j is None:
                self.relocate(c)
                j = c.n
                c.n += 1
                c.keys.append(key)
                for q, x in enumerate(key):
                    self.put(c.store, j * es + 8 * q, 8, x)
                if m == "get_or_insert":
                    self.construct(v, ("p", c.store, j * es + vo))
            p = ("p", c.store, j * es + vo)
            if m == "insert":
                src = a[2]
                self.copy_cells(src[1], src[2], c.store, p[2], vs)
                if "Function<" in v:
                    self.mem[src[1]].pop(src[2], None)
                for (o, q) in [x for x in self.conts if x[0] == src[1] and src[2] <= x[1] < src[2] + vs]:
                    self.conts[(c.store, q - src[2] + p[2])] = self.conts.pop((o, q))
            self.note(m, base, key)
            return p
        if m in ("erase", "try_erase"):
            self.note("erase", base, key)
            if j is None:
                if m == "erase":
                    raise Bad("bounds", "erases an entry the map does not have")
                return 0
            c.keys.pop(j)
            self.cut_at(c, j)
            return 1 if i["ty"] != "void" else None
        raise AnalysisError("Map::%s" % m)

    def h_mapiter(self, a, i, d):
        k, v, ks, vs, vo, es = self.mapinfo(d)
        m = short(d).split("::")[-1]
        base = self.load(a[0], "ptr")
        n = self.load(("p", a[0][1], a[0][2] + 8), "i64")
        c = self.cont(base, "Map", es)
        if m in ("operator*", "operator_arrow"):
            if n >= c.n:
                raise Bad("bounds", "looks past the last entry of a map")
            return ("p", c.store, n * es)
        if m == "operator++":
            self.store(("p", a[0][1], a[0][2] + 8), n + 1, "i64")
            return [base, n + 1] if len(a) == 1 else [base, n]
        if m in ("operator==", "operator!="):
            o = [self.load(a[1], "ptr"), self.load(("p", a[1][1], a[1][2] + 8), "i64")]
            return int(([base, n] == o) == (m == "operator=="))
        raise AnalysisError("Map iterator %s" % m)

    # ---- the rest
    def lockname(self, p):
        return self.lk.get((p[1], p[2]), "%s+%s" % (p[1], p[2]))

    def h_lock(self, a, i, d):
        n = self.lockname(a[0])
        if n in self.held:
            raise Bad("self-deadlock", "takes the %s lock while holding it" % n)
        self.ev.append(("lock", n, tuple(self.held)))
        self.held.append(n)

    def h_unlock(self, a, i, d):
        n = self.lockname(a[0])
        if n not in self.held:
            raise Bad("unlock", "releases the %s lock without holding it" % n)
        self.held.remove(n)
        self.ev.append(("unlock", n))

    def h_nope(self, a, i, d):
        raise AnalysisError("call of %s" % d[:60])

    def h_clock(self, a, i, d):
        self.nclock += 1
        t = self.A.atom("now%d" % self.nclock)
        self.ev.append(("clock", t))
        return t

    def h_eqmem(self, n):
        def f(a, i, d):
            for k in range(0, n, 8):
                x, y = (self.get(p[1], p[2] + k, 8) for p in a[:2])
                if x is None or y is None:
                    raise AnalysisError("comparison of undefined values at %s" % where(i))
                if x != y:
                    return 0
            return 1
        return f

    def level(self, v):
        return v

    def h_log(self, a, i, d):
        vals = []
        for p in a[1:]:
            if isinstance(p, tuple) and p[0] == "p" and p[1] in self.mem:
                vals += [v for k, (z, v) in sorted(self.mem[p[1]].items()) if p[2] <= k < p[2] + (16 if p[1] not in self.conts else 8) and (k == p[2] or isinstance(v, (tuple, int)))]
            else:
                vals.append(p)
        self.ev.append(("log", a[0], tuple(self.held), a, where(i), vals))
        self.fatal = a[0] == 2

    fatal = False
    quit = False

    def h_break(self, a, i, d):
        self.ev.append(("break",))

    def h_function(self, a, i, d):
        m = short(d).split("::")[-1]
        p = a[0]
        if m == "operator_call":
            self.access(p[1], p[2], "c")
            snap = [{k - q[2]: v for k, (z, v) in self.mem[q[1]].items() if q[2] <= k} if isinstance(q, tuple) and q[0] == "p" and q[1] in self.mem else None for q in a[1:]]
            self.ev.append(("call", self.mem[p[1]].get(p[2], (8, None))[1], tuple(self.held), a[1:], snap))
            return None
        if m == "~Function":
            self.ev.append(("fdrop", self.mem[p[1]].get(p[2], (8, None))[1]))
            self.mem[p[1]].pop(p[2], None)
            return None
        if m in ("Function", "operator=") and len(a) == 2 and "&&" in d.split("(")[-1]:
            v = self.mem[a[1][1]].pop(a[1][2], None)
            self.mem[p[1]].pop(p[2], None)
            if v:
                self.mem[p[1]][p[2]] = v
            return p if m == "operator=" else None
        raise AnalysisError("Function::%s" % m)

    def h_exit(self, a, i, d):
        self.quit = True
        self.ev.append(("exit", a[0]))
        self.trap = "exit at %s" % where(i)

    def h_memcmp(self, a, i, d):
        """texts are told apart by where they are, unless they are constants"""
        x, y, n = a
        if x == y or n == 0:
            return 0
        if not isinstance(n, int):
            raise AnalysisError("comparison of an unknown number of bytes at %s" % where(i))
        s, t = (self.text(p, n) if self.mem.get(p[1]) else None for p in (x, y))
        return int(s is None or t is None or s != t)

    def h_strlen(self, a, i, d):
        n = 0
        while True:
            c = super().get(a[0][1], a[0][2] + n, 1)
            if c is None:
                c = next(((v >> 8 * (a[0][2] + n - k)) & 255 for k, (z, v) in self.mem[a[0][1]].items()
                          if isinstance(v, int) and k <= a[0][2] + n < k + z), None)
            if c is None:
                return ("p", "strlen", 0)
            if c == 0:
                return n
            n += 1

    def note(self, what, p, x=None):
        self.ev.append((what, (p[1], p[2]), x, tuple(self.held)))

    def text(self, p, n=None):
        """the characters of a constant"""
        s, k = "", p[2]
        M = self.mem.get(p[1], {})
        while n is None or len(s) < n:
            c = next(((v >> 8 * (k - q)) & 255 for q, (z, v) in M.items() if isinstance(v, int) and q <= k < q + z), None)
            if not c:
                break
            s += chr(c)
            k += 1
        return s

    def call(self, env, i):
        fn = i.get("fn")
        if fn is None and "asm" not in i:
            a = [self.val(env, o) for o in i["args"]]
            t = self.val(env, i["ptr"]) if "ptr" in i else None
            return self.indirect(t, a, i)
        if fn is not None:
            if fn.startswith("llvm.threadlocal.address"):
                return self.val(env, i["args"][0])
            d = self.mod.dname(fn)
            for rx, h in self.handlers:
                if re.search(rx, d):
                    a = [self.val(env, o) for o in i["args"]]
                    return h(a, i, d)
        return super().call(env, i)

    def indirect(self, t, a, i):
        raise AnalysisError("indirect call at %s" % where(i))
