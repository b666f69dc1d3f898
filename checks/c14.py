"""Range allocator: ranges handed out are aligned, disjoint and inside the heap; nothing is lost.

The heap of blocks is materialised where the code looks at it: every pointer that is followed may be null, a block seen
before, or another block, as far as the invariant of the structure allows; sizes, starts and requests stay symbolic (linear
facts).  After each operation the invariant must hold again for every block that was looked at or made.
"""
from build import *
from lin import *
from ir import where

TOP = 1 << 64
BIAS = 1
CHAIN = 2
CAP = "capacity"


class Fail(Exception):
    pass


class Shape(Flow):
    def __init__(self, mod, world, L, nblocks=7, nb=2):
        self.NB = nb
        super().__init__(mod, world)
        self.LB = {k.split(".")[-1]: v[0] for k, v in L["L_block"].items() if k.count(".") == 1}
        self.LA = {k.split("?.", 1)[-1]: v[0] for k, v in L["L_ra" if nb == 2 else "L_ra3"].items()}
        self.blocks = []        # materialised
        self.made = []
        self.dead = set()
        self.pre = {}           # (obj, off) -> value at entry
        self.kind = {}          # block -> "free" | "used" | None
        self.ras = []
        self.held = set()
        self.owner = {}
        self.gone = set()
        self.evs = []
        self.limit = nblocks
        self.cut = False
        self.classes = []
        self.aligned = []
        self.edge = None
        A = self.A
        self.cap = A.atom(CAP)
        world.assume(self.cap - 1, {0, 1})
        world.assume(self.cap - A.const(1 << 63), {-1})
        self.ex = {}
        D = self.mod.dname
        self.calls = Dispatch(self)

    # ---- integers modulo 2^64
    def nonneg(self, x):
        """the representative of x in [0, 2^64)"""
        if isinstance(x, int):
            return x
        c = x.cval()
        if c is not None:
            return int(c) % TOP
        while self.w.sign_in(x, {-1}):
            x = x + TOP
        while self.w.sign_in(x - TOP, {0, 1}):
            x = x - TOP
        return x

    def icmp(self, pred, x, y, i):
        if isinstance(x, Rat) or isinstance(y, Rat):
            if x is None or y is None:
                raise Fail("compares an uninitialised value at %s" % where(i))
            if pred[0] == "s":
                raise AnalysisError("signed comparison at %s" % where(i))
            x, y = self.nonneg(x), self.nonneg(y)
            p = pred[-2:]
            S = {"eq": {0}, "ne": {-1, 1}, "lt": {-1}, "le": {-1, 0}, "gt": {1}, "ge": {0, 1}}[p]
            return int(self.w.sign_in(self.sym(x) - self.sym(y), S))
        if (x is None or y is None):
            raise Fail("uses an uninitialised value at %s" % where(i))
        return super().icmp(pred, x, y, i)

    def imm(self, nm, xs):
        a, b = (self.sym(self.nonneg(x)) for x in xs)
        lt = self.w.sign_in(a - b, {-1})
        return (a if lt else b) if nm[1:] == "min" else (b if lt else a)

    def icast(self, op, x, sty, ty, i):
        if isinstance(x, Rat):
            x = self.nonneg(x)
            if isinstance(x, Rat) and op == "trunc":
                n = 1 << bits(ty)
                if not self.w.sign_in(x - n, {-1}):
                    raise AnalysisError("truncation of %s at %s" % (x, where(i)))
            if isinstance(x, Rat):
                return x
        return super().icast(op, x, sty, ty, i)

    def int(self, op, ty, a, i):
        x, y = a
        if isinstance(x, Rat) and x.cval() is not None:
            x = int(x.cval()) % TOP
        if isinstance(y, Rat) and y.cval() is not None:
            y = int(y.cval()) % TOP
        if isinstance(x, Rat) or isinstance(y, Rat):
            if op in ("urem", "udiv"):
                x, y = self.sym(self.nonneg(x)), self.sym(self.nonneg(y))
                if self.w.sign_in(y, {0}):
                    raise Fail("divides by zero at %s" % where(i))
                q = self.quot(x, y)
                return x - q * y if op == "urem" else q
            if op in ("and",) and (x == 1 or y == 1):
                raise AnalysisError("bit test at %s" % where(i))
        return super().int(op, ty, [x, y], i)

    def quot(self, x, y):
        if self.w.sign_in(x - y, {-1}):
            return self.A.const(0)
        q = self.A.term("quot", (x, y))
        for f, S in ((q - 1, {0, 1}), (q * y - y, {0, 1}), (x - q * y, {0, 1}), (y - 1 - x + q * y, {0, 1}), (q - x, {-1, 0})):
            self.w.assume(f, S)
        return q

    def multiple(self, x, y):
        """is x = 0 modulo y, whatever the quotients are?"""
        for v, a in self.aligned:
            if self.w.equal(a, y) and self.w.equal(v, x):
                return True
        if x.cval() == 0:
            return True
        r, m = self.w.rat(x), self.w.rat(y)
        if m == {ONE: 1} or not r:
            return True
        m = next(iter(m)) if len(m) == 1 else None
        return bool(m) and all(dict(k).get(m[0][0], 0) >= 1 for k in r)

    # size classes: any monotone choice the sizes allow
    def bucket(self, x):
        x = self.sym(self.nonneg(x))
        for y, c in self.classes:
            if self.w.equal(x, y):
                return c
        c = self.w.choose(self.NB)
        self.w.log.append("class of %s is %d" % (x, c))
        for y, d in self.classes:
            if c != d:
                self.w.assume((x - y if c > d else y - x) - 1, {0, 1})
                if not self.w.sign_in(x - y, {1 if c > d else -1}):
                    raise Dead()
        self.classes.append((x, c))
        return c

    def log2(self, x):
        """an exponent of the class of x: the lowest and highest of each class, in turn"""
        if self.w.sign_in(self.sym(self.nonneg(x)), {0}):
            raise Fail("takes the logarithm of zero")
        c = self.bucket(x)
        if self.edge is None:
            self.edge = self.w.choose(2)
        if self.edge:
            return 63 if c == self.NB - 1 else BIAS + c
        return 0 if c == 0 else BIAS + c

    def align(self, x, a):
        x, a = self.sym(self.nonneg(x)), self.sym(self.nonneg(a))
        if self.w.sign_in(a, {0}):
            raise Fail("aligns to zero")
        if x.cval() == 0:
            return x
        p = self.A.term("pad", (x, a))
        for f, S in ((p, {0, 1}), (a - 1 - p, {0, 1})):
            self.w.assume(f, S)
        self.aligned.append((x + p, a))
        return x + p

    # ---- the heap
    def f(self, o, name):
        return self.mem[o].get(self.LB[name], (0, None))[1]

    def field(self, o, name):
        return self.get(o, self.LB[name], 1 if name == "free" else 8)

    def setpre(self, o, off, v, n=8):
        self.mem[o][off] = (n, v)
        self.pre[(o, off)] = v

    def setf(self, o, name, v):
        self.setpre(o, self.LB[name], v, 1 if name == "free" else 8)

    def preval(self, o, name):
        return self.pre.get((o, self.LB[name]))

    def new_block(self, kind=None, ra=None):
        if len(self.blocks) >= self.limit:
            self.cut = True
            raise Dead()
        n = "B%d" % len(self.blocks)
        self.blocks.append(n)
        self.owner[n] = ra or self.home
        self.mem[n] = {}
        A = self.A
        st, sz = A.atom(n + ".start"), A.atom(n + ".size")
        for x, S in ((st, {0, 1}), (sz - 1, {0, 1}), (st + sz - A.const(1 << 63), {-1})):
            self.w.assume(x, S)
        self.kind[n] = None
        self.setf(n, "start", st)
        self.setf(n, "size", sz)
        if kind:
            self.setkind(n, kind)
        return n

    def pin(self, x, S):
        """a fact about the heap: this branch dies when it contradicts what is known"""
        for s in S:
            pass
        if not self.w.sign_in(x, S):
            raise Dead()

    def setkind(self, n, kind):
        self.kind[n] = kind
        self.setf(n, "free", int(kind == "free"))
        A = self.A
        if kind == "used":
            off = A.atom(n + ".offset")
            self.w.assume(off - self.preval(n, "start"), {0, 1})
            self.w.assume(self.preval(n, "start") + self.preval(n, "size") - off - 1, {0, 1})
            self.setf(n, "offset", off)
        for d in ("next_block", "prev_block"):
            m = self.preval(n, d)
            if kind == "free" and isinstance(m, tuple) and self.kind.get(m[1]) == "free":
                raise Dead()

    def getkind(self, n):
        if self.kind[n] is None:
            near = [self.preval(n, d) for d in ("next_block", "prev_block")]
            if any(isinstance(m, tuple) and self.kind.get(m[1]) == "free" for m in near):
                self.setkind(n, "used")
            else:
                self.setkind(n, "used" if self.w.choose(2) == 0 else "free")
        return self.kind[n]

    def get(self, o, off, n):
        if o in self.dead:
            raise Fail("uses a block after destroying it")
        r = super().get(o, off, n)
        if r is None and (o in self.blocks or o in self.ras) and not isinstance(self.mem[o], Fresh):
            self.materialise(o, off, n)
            r = super().get(o, off, n)
        return r

    def put(self, o, off, n, v):
        if o in self.dead:
            raise Fail("writes a block after destroying it")
        if (o in self.blocks or o in self.ras):
            if off not in self.mem[o] and n == 8 and not isinstance(self.mem[o], Fresh):
                self.materialise(o, off, n)
            if self.open(o) and not (o in self.ras and off >= self.LA["mutex"] and off < self.LA["blocks"]):
                raise Fail("writes without the lock")
        super().put(o, off, n, v)

    def load(self, p, ty):
        if p == 0 or p is None or p[0] != "p":
            raise Fail("follows a null or uninitialised pointer")
        if (p[1] in self.blocks or p[1] in self.ras) and self.open(p[1]):
            raise Fail("reads without the lock")
        return super().load(p, ty)

    def open(self, o):
        """not protected by a lock"""
        ra = self.owner.get(o, o)
        return ra not in self.held and ra not in self.private and "all" not in self.held

    def store(self, p, v, ty, inst=None):
        if p == 0 or p is None or p[0] != "p":
            raise Fail("writes through a null or uninitialised pointer at %s" % (where(inst) if inst else "?"))
        return super().store(p, v, ty, inst)

    private = frozenset()

    def materialise(self, o, off, n):
        if o in self.ras:
            h = self.LA["free_blocks.data_"]
            if h <= off < h + 8 * self.NB:
                return self.head(o, (off - h) // 8)
            s = self.LA["stats"]
            if off >= s:
                v = self.A.atom("%sstat%d" % ("" if o == "ra" else o, off - s))
                self.w.assume(v, {0, 1})
                self.w.assume(v - self.A.const(1 << 62), {-1})
                return self.setpre(o, off, v)
            return
        name = [k for k, v in self.LB.items() if v == off]
        if not name:
            return
        name = name[0]
        if name == "free":
            self.getkind(o)
        elif name == "offset":
            if self.getkind(o) == "free":
                self.setf(o, "offset", self.A.atom(o + ".stale"))
        elif name in ("next_block", "prev_block"):
            self.neighbour(o, name)
        elif name in ("next_free", "prev_free"):
            if self.getkind(o) == "used":
                # not in a list: nothing is known
                return self.setf(o, name, ("junk", o))
            self.link(o, name)

    def neighbour(self, o, d):
        back = "prev_block" if d == "next_block" else "next_block"
        s, e = self.preval(o, "start"), self.preval(o, "start") + self.preval(o, "size")
        cands = [None] + [b for b in self.blocks if b != o and self.owner[b] == self.owner[o] and (b, self.LB[back]) not in self.pre
                          and not (self.kind[o] == "free" and self.kind[b] == "free")] + ["new"]
        c = cands[self.w.choose(len(cands))]
        if c is None:
            self.pin(self.cap - e if d == "next_block" else s, {0})
            return self.setf(o, d, 0)
        if c == "new":
            c = self.new_block("used" if self.kind[o] == "free" else None, self.owner[o])
        self.setf(o, d, ("p", c, 0))
        self.setf(c, back, ("p", o, 0))
        s2, e2 = self.preval(c, "start"), self.preval(c, "start") + self.preval(c, "size")
        self.pin(s2 - e if d == "next_block" else s - e2, {0})
        if self.kind[c] is not None:
            self.setkind(c, self.kind[c])

    def chain(self, b, d):
        n = 0
        while isinstance(b, tuple):
            b = self.preval(b[1], d)
            n += 1
            if n > 20:
                raise Dead()
        return n

    def link(self, o, d):
        """the neighbour of a free block in its list"""
        back = "prev_free" if d == "next_free" else "next_free"
        i = self.bucket(self.preval(o, "size"))
        ra = self.owner[o]
        cands = [None]
        if self.chain(("p", o, 0), back) + self.chain(self.preval(o, d), d) < CHAIN:
            cands += [b for b in self.blocks if b != o and self.owner[b] == ra and self.kind[b] in ("free", None) and (b, self.LB[back]) not in self.pre] + ["new"]
        else:
            self.cut = True
        h = self.LA["free_blocks.data_"] + 8 * i
        if d == "prev_free" and (ra, h) in self.pre:
            # the head of the list is known, so o is not it
            cands = cands[1:]
        if not cands:
            raise Dead()
        c = cands[self.w.choose(len(cands))]
        if c is None:
            self.setf(o, d, 0)
            if d == "prev_free":
                self.setpre(ra, h, ("p", o, 0))
            return
        if c == "new":
            c = self.new_block("free", ra)
        elif self.getkind(c) != "free":
            raise Dead()
        if self.bucket(self.preval(c, "size")) != i:
            raise Dead()
        self.setf(o, d, ("p", c, 0))
        self.setf(c, back, ("p", o, 0))
        x, n = ("p", c, 0), 0
        while isinstance(x, tuple) and n < 10:
            x, n = self.preval(x[1], d), n + 1
            if x == ("p", c, 0) or n >= 10:
                raise Dead()

    def head(self, ra, i):
        off = self.LA["free_blocks.data_"] + 8 * i
        cands = [None] + [b for b in self.blocks if self.owner[b] == ra and self.kind[b] in ("free", None) and (b, self.LB["prev_free"]) not in self.pre] + ["new"]
        c = cands[self.w.choose(len(cands))]
        if c is None:
            # no block known to be free may belong to this list
            self.setpre(ra, off, 0)
            for b in self.blocks:
                if self.owner[b] == ra and self.kind[b] == "free" and self.bucket(self.preval(b, "size")) == i:
                    raise Dead()
            return
        if c == "new":
            c = self.new_block("free", ra)
        elif self.getkind(c) != "free":
            raise Dead()
        if self.bucket(self.preval(c, "size")) != i:
            raise Dead()
        self.setpre(ra, off, ("p", c, 0))
        self.setf(c, "prev_free", 0)

    # ---- events
    def make(self, args, i):
        n = "N%d" % len(self.made)
        self.made.append(n)
        p, tmp = args[0], args[1]
        if p != ("p", self.home, self.LA["blocks"]):
            raise Fail("makes a block elsewhere at %s" % where(i))
        self.mem[n] = {k - tmp[2]: v for k, v in self.mem[tmp[1]].items()}
        self.kind[n] = None
        self.owner[n] = self.home
        if self.open(self.home):
            raise Fail("makes a block without the lock")
        return ("p", n, 0)

    def destroy(self, args, i):
        p, b = args[:2]
        if not isinstance(b, tuple) or b[1] not in self.blocks + self.made:
            raise Fail("destroys something that is not a block at %s" % where(i))
        if p != ("p", self.owner[b[1]], self.LA["blocks"]):
            raise Fail("gives a block to another allocator at %s" % where(i))
        if b[1] in self.dead:
            raise Fail("destroys a block twice at %s" % where(i))
        if self.open(b[1]):
            raise Fail("destroys a block without the lock")
        self.dead.add(b[1])

    def mutex(self, p, i):
        if not isinstance(p, tuple) or p[1] not in self.ras or p[2] != self.LA["mutex"]:
            raise Fail("locks something else at %s" % where(i))
        if p[1] in self.gone:
            raise Fail("uses a destroyed mutex at %s" % where(i))
        return p[1]

    def lock(self, args, i):
        m = self.mutex(args[0], i)
        if m in self.held:
            raise Fail("locks twice at %s" % where(i))
        self.held.add(m)
        self.evs.append(("lock", m))

    def unlock(self, args, i):
        m = self.mutex(args[0], i)
        if m not in self.held:
            raise Fail("unlocks a lock it does not hold at %s" % where(i))
        self.held.discard(m)

    def mutex_new(self, args, i):
        self.evs.append(("mutex", args[0][1], args[0][2]))
        self.gone.discard(args[0][1])

    def mutex_end(self, args, i):
        m = self.mutex(args[0], i)
        if m in self.held:
            raise Fail("destroys a locked mutex at %s" % where(i))
        self.gone.add(m)

    def blocks_op(kind):
        def f(self, args, i):
            for p in args:
                if not isinstance(p, tuple) or p[1] not in self.ras or p[2] != self.LA["blocks"]:
                    raise Fail("works on something that is not the block storage at %s" % where(i))
            if kind != "new" and any(self.open(p[1]) for p in args):
                raise Fail("uses the block storage without the lock")
            self.evs.append((kind,) + tuple(p[1] for p in args))
            return args[0]
        return f

    def call(self, env, i):
        fn = i.get("fn") or ""
        if fn.startswith("llvm.memcpy") or fn.startswith("llvm.memset"):
            a = [self.val(env, o) for o in i["args"]]
            n = a[2]
            for p, wr in ((a[0], True), (a[1], False)):
                if isinstance(p, tuple) and p[1] in self.ras:
                    if self.open(p[1]):
                        raise Fail("%s without the lock" % ("writes" if wr else "reads"))
                    for k in range(p[2], p[2] + n, 8):
                        self.get(p[1], k, 8)
            if fn.startswith("llvm.memset") and a[1] == 0 and n % 8 == 0:
                for k in range(0, n, 8):
                    self.put(a[0][1], a[0][2] + k, 8, 0)
                return None
        return super().call(env, i)


class Fresh(dict):
    """memory nothing was written to"""


class Dispatch(dict):
    """what the opaque calls do"""

    def __init__(self, fl):
        self.fl = fl

    TAB = [(r"Log::Location", lambda s, a, i: None), (r"Libc::strlen", lambda s, a, i: 0), (r"^void rpp::Log::log<|Log::debug_break|Libc::exit", "trap"),
           (r"Mutex::lock\(", Shape.lock), (r"Mutex::unlock\(", Shape.unlock), (r"Math::log2", lambda s, a, i: s.log2(a[0])),
           (r"Math::align\(", lambda s, a, i: s.align(a[0], a[1])),
           (r"Mutex::Mutex\(\)", Shape.mutex_new), (r"Mutex::~Mutex\(\)", Shape.mutex_end),
           (r"Free_List<.*>::Free_List\(\)$", Shape.blocks_op("new")), (r"Free_List<.*>::Free_List\(rpp::Free_List.*&&\)$", Shape.blocks_op("move")),
           (r"Free_List<.*>::operator=\(rpp::Free_List.*&&\)$", Shape.blocks_op("move")), (r"Free_List<.*>::~Free_List\(\)$", Shape.blocks_op("end")),
           (r"Free_List<.*>::clear\(\)$", Shape.blocks_op("clear")), (r">::make<|>::make\(", Shape.make), (r">::destroy\(", Shape.destroy)]

    def __contains__(self, d):
        return isinstance(d, str) and self.look(d) is not None

    def look(self, d):
        for rx, f in self.fl.extra + self.TAB:
            if re.search(rx, d):
                return f
        return None

    def __getitem__(self, d):
        f = self.look(d)
        if f == "trap":
            def trap(s, a, i):
                s.trap = where(i)
            return trap
        return f


Shape.extra = []


def ptr(v):
    return v[1] if isinstance(v, tuple) and v[0] == "p" else None


class Post:
    """the invariant after an operation on self.home, from the blocks that were looked at or made"""

    def __init__(self, s):
        self.s = s
        s.held.add("all")
        self.problems = []
        self.live = [b for b in s.blocks + s.made if b not in s.dead]

    def bad(self, m):
        self.problems.append(m)

    def cell(self, b, name):
        return self.s.mem[b].get(self.s.LB[name], (0, None))[1]

    def same(self, a, b):
        s = self.s
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        a, b = s.nonneg(a), s.nonneg(b)
        return s.w.sign_in(s.sym(a) - s.sym(b), {0})

    def changed(self, b, name):
        s = self.s
        k = (b, s.LB[name])
        if b in s.made:
            return True
        now = self.cell(b, name)
        if k not in s.pre:
            return now is not None
        old = s.pre[k]
        if isinstance(old, Rat) or isinstance(now, Rat):
            return not (isinstance(old, Rat) and isinstance(now, Rat) and old.eq(now))
        return old != now

    def end(self, b):
        return self.s.sym(self.cell(b, "start")) + self.s.sym(self.cell(b, "size"))

    def isfree(self, b):
        """1, 0 or None (not looked at)"""
        v = self.cell(b, "free")
        return v

    def check(self):
        s = self.s
        for b in self.live:
            st, sz = self.cell(b, "start"), self.cell(b, "size")
            if not isinstance(sz, Rat) or not isinstance(st, (Rat, int)):
                self.bad("block %s has no start or size" % b)
                return
            if not s.w.sign_in(s.sym(s.nonneg(sz)), {1}):
                self.bad("a block of size zero is left")
            if b in s.blocks and s.kind[b] is None and (self.changed(b, "size") or self.changed(b, "start")):
                s.getkind(b)
        tot = s.A.const(0)
        for b in self.live:
            tot = tot + self.cell(b, "size")
        for b in s.blocks:
            tot = tot - s.preval(b, "size")
        if not s.w.equal(tot, s.A.const(0)):
            self.bad("the sizes of the blocks change by %s" % tot)
        for b in self.live:
            self.adjacency(b)
            self.lists(b)
        for i in range(s.NB):
            off = s.LA["free_blocks.data_"] + 8 * i
            v = s.mem[s.home].get(off, (0, None))[1]
            if v is None:
                continue
            if v == 0:
                # a block that was in this list must have left it, or be looked at by lists()
                continue
            h = ptr(v)
            if h is None or h not in self.live:
                self.bad("the list of class %d starts at a destroyed block" % i)
                continue
            if self.isfree(h) != 1:
                self.bad("a used block is in the list of class %d" % i)
            elif self.cell(h, "prev_free") != 0:
                self.bad("the first block of class %d has a predecessor" % i)
            elif s.bucket(self.cell(h, "size")) != i:
                self.bad("a block of size %s is in class %d" % (self.cell(h, "size"), i))
        return self.problems

    def adjacency(self, b):
        s = self.s
        for d, back in (("next_block", "prev_block"), ("prev_block", "next_block")):
            v = self.cell(b, d)
            if v is None:
                if b in s.made:
                    self.bad("a new block has no %s" % d)
                elif d == "next_block" and not s.w.equal(self.end(b), s.preval(b, "start") + s.preval(b, "size")) or \
                        d == "prev_block" and self.changed(b, "start"):
                    self.bad("a block's edge moved away from its neighbour")
                continue
            if v == 0:
                if d == "next_block" and not s.w.equal(self.end(b), s.cap):
                    self.bad("the last block ends at %s" % self.end(b))
                if d == "prev_block" and not s.w.equal(s.sym(self.cell(b, "start")), s.A.const(0)):
                    self.bad("the first block starts at %s" % self.cell(b, "start"))
                continue
            c = ptr(v)
            if c not in self.live:
                self.bad("%s of a block is a destroyed block" % d)
                continue
            w = self.cell(c, back)
            if ptr(w) != b:
                self.bad("%s and %s of adjacent blocks disagree" % (d, back))
            x = (self.end(b), self.cell(c, "start")) if d == "next_block" else (self.cell(b, "start"), self.end(c))
            if not s.w.equal(s.sym(x[0]), s.sym(x[1])):
                self.bad("adjacent blocks do not touch: %s and %s" % x)
            if self.isfree(b) == 1 and self.isfree(c) == 1:
                self.bad("two adjacent free blocks are not merged")
            elif self.isfree(b) == 1 and self.isfree(c) is None:
                if s.getkind(c) == "free":
                    self.bad("two adjacent free blocks are not merged")

    def lists(self, b):
        s = self.s
        k = self.isfree(b)
        if k is None:
            if b in s.made:
                self.bad("a new block is neither free nor used")
            return
        if k == 0:
            if b in s.blocks and s.kind[b] == "used":
                for nm in ("start", "size", "offset"):
                    if self.changed(b, nm) and b not in s.ex.get("freed", ()):
                        self.bad("the %s of an allocated range changes" % nm)
            return
        i = s.bucket(self.cell(b, "size"))
        for d, back in (("next_free", "prev_free"), ("prev_free", "next_free")):
            v = self.cell(b, d)
            if v is None:
                if b in s.made or s.preval(b, "free") != 1:
                    self.bad("a block became free without %s" % d)
                elif s.bucket(s.preval(b, "size")) != i:
                    self.bad("a block changed its size class without changing lists")
                continue
            if v == 0:
                if d == "prev_free":
                    h = s.mem[s.home].get(s.LA["free_blocks.data_"] + 8 * i, (0, None))[1]
                    if ptr(h) != b:
                        self.bad("a free block without predecessor does not start its list")
                continue
            c = ptr(v)
            if c not in self.live:
                self.bad("%s of a free block is %s" % (d, "a destroyed block" if c else "not a block"))
                continue
            if self.isfree(c) != 1:
                self.bad("%s of a free block is in use" % d)
            elif ptr(self.cell(c, back)) != b:
                self.bad("%s and %s disagree" % (d, back))
            elif s.bucket(self.cell(c, "size")) != i:
                self.bad("blocks of different classes share a list")

    def stats(self):
        s = self.s
        base = s.LA["stats"]
        A = s.A

        def delta(name, idx=0):
            off = s.LA["stats." + name] + 8 * idx
            k = (s.home, off)
            if k not in s.pre:
                return A.const(0)
            return s.sym(s.mem[s.home][off][1]) - s.pre[k]
        was = {b: {1: "free", 0: "used"}.get(s.preval(b, "free")) for b in s.blocks}
        now = {b: {1: "free", 0: "used"}.get(self.isfree(b)) for b in self.live}

        def sums(kind, val):
            r = A.const(0)
            for b in self.live:
                if now[b] == kind:
                    r = r + val(b, False)
            for b in s.blocks:
                if was[b] == kind:
                    r = r - val(b, True)
            return r
        size = lambda b, old: s.sym(s.preval(b, "size") if old else self.cell(b, "size"))
        one = lambda b, old: A.const(1)
        for nm, kind, val in (("free_size", "free", size), ("allocated_size", "used", size), ("free_blocks", "free", one),
                              ("allocated_blocks", "used", one)):
            d, want = delta(nm), sums(kind, val)
            if not s.w.equal(d, want):
                self.bad("statistic %s changes by %s, not %s" % (nm, d, want))
        for i in range(s.NB):
            r = 0
            for b in self.live:
                if now[b] == "free" and s.bucket(self.cell(b, "size")) == i:
                    r += 1
            for b in s.blocks:
                if was[b] == "free" and s.bucket(s.preval(b, "size")) == i:
                    r -= 1
            if not s.w.equal(delta("bucket_sizes", i), A.const(r)):
                self.bad("the length of class %d changes by %s, not %d" % (i, delta("bucket_sizes", i), r))
        da, df = delta("allocated_size"), delta("allocated_blocks")
        if not s.w.equal(delta("total_alloc_size") - delta("total_free_size"), da) or not s.w.equal(delta("total_allocs") - delta("total_frees"), df):
            self.bad("the totals do not follow the allocations and releases")
        if not s.w.equal(delta("total_capacity"), A.const(0)):
            self.bad("the capacity changes")
        return delta


def check(ctx):
    ctx.level = "bounded"
    ctx.explanation = ("every operation of Range_Allocator is analysed on heaps materialised where the code looks, with symbolic sizes; the "
                       "structure's invariant (blocks tile the heap, neighbours and free lists linked both ways, no two adjacent free blocks, "
                       "classes by size) must hold again, statistics must follow, and results must be aligned, long enough and taken from a free block")
    ctx.assumptions = ["the heap is smaller than 2^63", "free is given a range this allocator returned and that was not freed",
                       "lists longer than %d blocks are not followed by the search and the destructor" % CHAIN, "two and three size classes stand for any number"]
    ctx.trusted = ["clang 18 front end", "irdump", "lib/flow.py", "lib/alg.py", "Free_List::make and destroy (C13)"]
    mod = harness("range", opaque=["^rpp::Thread::Mutex::", "Free_List<", "^rpp::Math::log2", "^rpp::Math::align\\("])
    L = layouts(VERIF + "/harness/range.cpp")
    n = [0, 0]

    def run(name, fname, what, body, limit=60000, nb=2, nblocks=7):
        fn = mod.fns.get(fname)
        if fn is None:
            return ctx.fail("operation %s is missing" % fname)
        fails = {}
        A = Alg()
        cut = [0]

        def one(w):
            s = Shape(mod, w, L, nblocks, nb)
            s.home = "ra"
            s.ras = ["ra"]
            s.mem["ra"] = {}
            ms = []
            try:
                ms = list(body(s, fn, w) or ())
            except Fail as e:
                ms = [str(e)]
            except Dead:
                pass
            return [(m, "; ".join(w.log[-8:])) for m in ms], s.cut
        try:
            k, got = pexplore(A, one, limit, LinWorld)
            for ms, c in got:
                cut[0] += c
                for m, wh in ms:
                    fails.setdefault(m, wh)
        except AnalysisError as e:
            return ctx.undecided(name, str(e))
        n[0] += 1
        n[1] += k
        if fails:
            for m, wh in sorted(fails.items())[:6]:
                ctx.bad(name, "%s:%s" % (name, m[:60].replace(" ", "-")), "%s: %s (when %s)" % (what, m, wh))
        else:
            ctx.ok(name, "%d heaps%s" % (k, ", %d cut" % cut[0] if cut[0] else ""))

    def free(s, fn, w):
        b = s.new_block("used")
        s.ex["freed"] = (b,)
        s.run(fn, [("p", "ra", 0), ("p", b, 0)])
        if s.trap:
            return ["stops at %s" % s.trap]
        if s.held:
            return ["returns holding the lock"]
        p = Post(s)
        p.check()
        d = p.stats()
        if not s.w.equal(d("total_frees"), s.A.const(1)):
            p.bad("a release is counted %s times" % d("total_frees"))
        if b in p.live and p.isfree(b) != 1:
            p.bad("the range stays in use")
        return p.problems

    def allocate(s, fn, w):
        A = s.A
        size, al = A.atom("size"), A.atom("alignment")
        for x in (size, al):
            w.assume(x - 1, {0, 1})
            w.assume(x - A.const(TOP), {-1})
        s.mem["o"] = {}
        s.run(fn, [("p", "o", 0), ("p", "ra", 0), size, al])
        if s.trap:
            return ["stops at %s" % s.trap]
        if s.held:
            return ["returns holding the lock"]
        ok = s.get("o", OK, 1)
        p = Post(s)
        p.check()
        d = p.stats()
        if ok is None:
            return ["the result is not set"]
        if ok & 1:
            b = ptr(s.get("o", VAL, 8))
            if b not in p.live or b not in s.blocks or s.preval(b, "free") != 1:
                return p.problems + ["the range returned was not a free block"]
            if p.isfree(b) != 0:
                p.bad("the range returned stays free")
            off, st, sz = p.cell(b, "offset"), p.cell(b, "start"), p.cell(b, "size")
            if not isinstance(off, (Rat, int)):
                return p.problems + ["the range has no offset"]
            off = s.sym(off)
            if not s.multiple(off, al):
                p.bad("the offset %s is not a multiple of the alignment" % off)
            if not w.sign_in(off - st, {0, 1}):
                p.bad("the range starts before its block")
            if not w.sign_in(st + sz - off - size, {0, 1}):
                p.bad("the range is shorter than asked for")
            if not w.equal(d("total_allocs"), A.const(1)):
                p.bad("an allocation is counted %s times" % d("total_allocs"))
            hw = s.mem["ra"].get(s.LA["stats.high_water"], (0, None))[1]
            al_ = s.mem["ra"].get(s.LA["stats.allocated_size"], (0, None))[1]
            old = s.pre.get(("ra", s.LA["stats.high_water"]))
            if hw is None or not w.sign_in(s.sym(hw) - s.sym(al_), {0, 1}) or \
                    not (w.equal(s.sym(hw), s.sym(al_)) or s.sym(hw).eq(old)) or not w.sign_in(s.sym(hw) - s.sym(old), {0, 1}):
                p.bad("the high-water mark is %s" % hw)
            for c in p.live:
                if c in s.blocks and c != b and s.preval(c, "free") == 1 and p.isfree(c) == 0:
                    p.bad("another block stops being free")
        else:
            if s.made or s.dead or any(o in s.blocks for o, _ in s.wrote):
                p.bad("a failed allocation changes the heap")
            k = s.bucket(size)
            for i in range(k, s.NB):
                v = s.pre.get(("ra", s.LA["free_blocks.data_"] + 8 * i))
                if v is None:
                    p.bad("class %d is not searched" % i)
                while isinstance(v, tuple):
                    c = v[1]
                    st, sz = s.preval(c, "start"), s.preval(c, "size")
                    pad = s.align(st, al) - st
                    if w.sign_in(sz - pad - size, {0, 1}):
                        p.bad("fails although a free block of size %s at %s fits" % (sz, st))
                        break
                    v = s.pre.get((c, s.LB["next_free"]))
                    if v is None:
                        p.bad("part of class %d is not searched" % i)
        return p.problems

    OK = next(v[0] for k, v in L["L_opt"].items() if k.endswith("ok_"))
    VAL = next(v[0] for k, v in L["L_opt"].items() if k.endswith("value_"))
    def fresh(s, w):
        s.private = {"ra"}
        s.mem["ra"] = Fresh()

    def default(s, fn, w):
        fresh(s, w)
        s.run(fn, [("p", "ra", 0)])
        if s.trap:
            return ["stops at %s" % s.trap]
        return empty(s, "ra", "default")

    def empty(s, ra, what):
        out = []
        for k in range(s.LA["free_blocks.data_"], s.LA["free_blocks.data_"] + 8 * s.NB, 8):
            if s.get(ra, k, 8) != 0:
                out.append("a list of the %s allocator starts at %s" % (what, s.get(ra, k, 8)))
        for nm, off in statcells(s):
            v = s.get(ra, off, 8)
            if v is None or not s.w.equal(s.sym(v), s.A.const(0)):
                out.append("statistic %s of the %s allocator is %s" % (nm, what, v))
        return out

    def statcells(s):
        for nm, off in s.LA.items():
            if nm.startswith("stats."):
                nm = nm[6:]
                for j in range(s.NB if nm == "bucket_sizes" else 1):
                    yield nm + ("[%d]" % j if nm == "bucket_sizes" else ""), off + 8 * j

    def make(s, fn, w):
        fresh(s, w)
        s.run(fn, [("p", "ra", 0), s.cap])
        if s.trap:
            return ["stops at %s" % s.trap]
        p = Post(s)
        out = []
        if len(s.made) != 1 or p.live != s.made:
            return ["makes %d blocks" % len(s.made)]
        b = s.made[0]
        i = s.bucket(s.cap)
        z = s.A.const(0)
        for nm, want in (("start", z), ("size", s.cap)):
            v = p.cell(b, nm)
            if v is None or not w.equal(s.sym(v), want):
                out.append("the first block has %s %s" % (nm, v))
        for nm in ("next_block", "prev_block", "next_free", "prev_free"):
            if p.cell(b, nm) != 0:
                out.append("the first block has %s" % nm)
        if p.cell(b, "free") != 1:
            out.append("the first block is not free")
        for k in range(s.NB):
            h = s.get("ra", s.LA["free_blocks.data_"] + 8 * k, 8)
            if h != (("p", b, 0) if k == i else 0):
                out.append("the list of class %d starts at %s" % (k, h))
        for nm, off in statcells(s):
            v = s.get("ra", off, 8)
            want = s.cap if nm in ("free_size", "total_capacity") else s.A.const(int(nm == "free_blocks" or nm == "bucket_sizes[%d]" % i))
            if v is None or not w.equal(s.sym(v), want):
                out.append("statistic %s starts as %s" % (nm, v))
        return out

    def released(s, ra):
        """every free block of ra given back once"""
        out = []
        for k in range(s.NB):
            v = s.pre.get((ra, s.LA["free_blocks.data_"] + 8 * k))
            if v is None:
                return ["the blocks of class %d are not given back" % k]
            n = 0
            while isinstance(v, tuple) and n < 50:
                if v[1] not in s.dead:
                    return ["a block of class %d is not given back" % k]
                v = s.pre.get((v[1], s.LB["next_free"]))
                n += 1
            if v != 0:
                return ["part of class %d is not given back" % k]
        for b in s.dead:
            if s.owner[b] == ra and s.preval(b, "free") != 1:
                out.append("a range in use is given back")
        return out

    def destroy(s, fn, w):
        s.private = {"ra"}
        s.run(fn, [("p", "ra", 0)])
        if s.trap:
            return ["stops at %s" % s.trap]
        out = released(s, "ra")
        ev = [e[0] for e in s.evs]
        if "ra" not in s.gone:
            out.append("the mutex is not destroyed")
        if ev.count("end") != 1:
            out.append("the block storage is destroyed %d times" % ev.count("end"))
        return out

    def before(s, o):
        """value of every list head and statistic of o at entry"""
        h = s.LA["free_blocks.data_"]
        return {off: s.pre.get((o, off)) for off in [h + 8 * k for k in range(s.NB)] + [off for _, off in statcells(s)]}

    def moved(s, out):
        if "rb" not in [e[1] for e in s.evs if e[0] == "lock"]:
            out.append("the source is not locked")
        was = before(s, "rb")
        for off, v in was.items():
            now = s.get("ra", off, 8)
            if v is None or now is None or now != v and not (isinstance(v, Rat) and isinstance(now, Rat) and s.w.equal(now, v)):
                nm = [k for k, x in s.LA.items() if x <= off][-1]
                out.append("field %s is not taken over" % nm)
        if ("move", "ra", "rb") not in s.evs:
            out.append("the block storage is not taken over")
        if [e for e in s.evs if e[0] in ("clear", "end") and e[1] == "rb"]:
            out.append("the block storage of the source is cleared")
        out += empty(s, "rb", "moved-from")
        if [b for b in s.dead if s.owner[b] == "rb"]:
            out.append("a block of the source is destroyed")
        for (o, off) in set(s.wrote):
            if o in s.blocks and s.owner[o] == "rb":
                out.append("a block of the source changes")
        return out

    def move(s, fn, w):
        fresh(s, w)
        s.ras = ["ra", "rb"]
        s.mem["rb"] = {}
        s.run(fn, [("p", "ra", 0), ("p", "rb", 0)])
        if s.trap:
            return ["stops at %s" % s.trap]
        if s.held:
            return ["returns holding a lock"]
        if ("mutex", "ra", s.LA["mutex"]) not in s.evs or "ra" in s.gone:
            return ["the new allocator has no mutex"]
        s.held.add("all")
        return moved(s, [])

    def assign(s, fn, w):
        s.private = {"ra"}
        s.ras = ["ra", "rb"]
        s.mem["rb"] = {}
        s.run(fn, [("p", "ra", 0), ("p", "rb", 0)])
        if s.trap:
            return ["stops at %s" % s.trap]
        if s.held:
            return ["returns holding a lock"]
        if "ra" in s.gone or "rb" in s.gone:
            return ["a mutex is destroyed"]
        s.held.add("all")
        out = released(s, "ra")
        return moved(s, out)

    def selfassign(s, fn, w):
        s.private = {"ra"}
        s.run(fn, [("p", "ra", 0), ("p", "ra", 0)])
        if s.trap:
            return ["stops at %s" % s.trap]
        if s.held:
            return ["returns holding a lock"]
        s.held.add("all")
        out = []
        if "ra" in s.gone:
            return ["the mutex is destroyed"]
        for (o, off) in set(s.wrote):
            v = s.get(o, off, 8)
            if o in s.ras and v != s.pre.get((o, off)):
                out.append("assigning an allocator to itself changes it")
        if s.dead or s.evs and any(e[0] in ("clear", "end", "move") for e in s.evs):
            out.append("assigning an allocator to itself gives its blocks away")
        return out

    def statistics(s, fn, w):
        s.mem["o"] = {}
        s.run(fn, [("p", "o", 0), ("p", "ra", 0)])
        if s.trap:
            return ["stops at %s" % s.trap]
        if s.held:
            return ["returns holding the lock"]
        s.held.add("all")
        out = []
        for nm, off in statcells(s):
            v, now = s.get("o", off - s.LA["stats"], 8), s.get("ra", off, 8)
            if v is None or not w.equal(s.sym(v), s.sym(now)):
                out.append("statistic %s reads %s" % (nm, v))
        if s.dead or s.made or any(o == "ra" or o in s.blocks for o, _ in s.wrote):
            out.append("reading the statistics changes the allocator")
        return out

    def geometry(which):
        def f(s, fn, w):
            b = s.new_block("used")
            s.private = {"ra"}
            v = s.run(fn, [("p", b, 0)])
            st, sz, off = (s.sym(s.get(b, s.LB[k], 8)) for k in ("start", "size", "offset"))
            want = st + sz - off if which == "length" else off - st
            if not isinstance(v, (Rat, int)) or not w.equal(s.sym(s.nonneg(v)), want):
                return ["gives %s, not %s" % (v, want)]
            return []
        return f

    run("default", "h_default", "the default constructor", default)
    run("make", "h_make", "the constructor", make)
    run("destroy", "h_destroy", "the destructor", destroy)
    run("move", "h_move", "the move constructor", move)
    run("assign", "h_assign", "move assignment", assign)
    run("assign to itself", "h_assign", "move assignment to itself", selfassign)
    run("statistics", "h_statistics", "statistics", statistics)
    run("length", "h_length", "Block::length", geometry("length"))
    run("padding", "h_padding", "Block::padding", geometry("padding"))
    run("free", "h_free", "free(range)", free)
    run("allocate", "h_allocate", "allocate(size, alignment)", allocate, nblocks=4)
    run("allocate (three classes)", "h_allocate3", "allocate(size, alignment)", allocate, nb=3, nblocks=3)
    ctx.count("operations", n[0])
    ctx.count("heaps", n[1])
